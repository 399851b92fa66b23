From db5d24a7683c0b24dd94d753423804bd9db02fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:18 +0000
Subject: [PATCH 01/34] fix: recompute Pade partial-fraction tables that had
 lost 4-8 digits

Poles/residues of the Pade (m,n) tables with n >= 8 (and (0,12)..(0,16)) were only
accurate to ~1e-8..1e-13 while the residues grow to 3e8, so e.g. pade_16_16
returned exp(0) = 1 + 16. Use correctly rounded values.
---
 ormatex_py/matexp_phi_pfd_dict.py | 474 +++++++++++++++---------------
 1 file changed, 237 insertions(+), 237 deletions(-)

diff --git a/ormatex_py/matexp_phi_pfd_dict.py b/ormatex_py/matexp_phi_pfd_dict.py
index 2469209..3a9e315 100644
--- a/ormatex_py/matexp_phi_pfd_dict.py
+++ b/ormatex_py/matexp_phi_pfd_dict.py
@@ -238,83 +238,83 @@ pfd_dict = {
    ],
   1.00000000000000e+00),
 'pade_8_8':
-([  5.67796789779517e+00-1.27078225972097e+01j,
-    8.73657843440534e+00-8.82888500094338e+00j,
-    1.04096815812732e+01-5.23235030528453e+00j,
-    1.11757720865264e+01-1.73522889070665e+00j,
+([  5.6779678977952610e+00-1.2707822597209754e+01j,
+    8.7365784344048052e+00-8.8288850009430782e+00j,
+    1.0409681581273764e+01-5.2323503052850553e+00j,
+    1.1175772086526170e+01-1.7352288907055728e+00j,
    ],
- [ -1.65193072545010e+02+2.19157995335285e+02j,
-    4.26599883763478e+03+2.19879464117052e+02j,
-   -1.46726502179705e+04-1.30835546536543e+04j,
-    1.06438444528869e+04+3.82471699398577e+04j,
+ [ -1.6519307254497079e+02+2.1915799533531236e+02j,
+    4.2659988376343790e+03+2.1987946411946459e+02j,
+   -1.4672650217972672e+04-1.3083554653648593e+04j,
+    1.0643844452883264e+04+3.8247169939871259e+04j,
    ],
   1.00000000000000e+00),
 'pade_10_10':
-([  6.21783246729821e+00-1.64653989181475e+01j,
-    9.77243913371641e+00-1.24499709649411e+01j,
-    1.19350566571826e+01-8.76989437788469e+00j,
-    1.32305819309422e+01-5.22313584161276e+00j,
-    1.38440898108606e+01-1.73533039087163e+00j,
-   ],
- [ -4.28439839038208e+00-5.11065755249477e+02j,
-   -1.13960793160596e+04+6.30112461260688e+03j,
-    9.41190589167495e+04+2.07599514175865e+04j,
-   -2.24510671286932e+05-2.30850608866744e+05j,
-    1.41901976088637e+05+5.53063875406852e+05j,
+([  6.2178324672981962e+00-1.6465398918147176e+01j,
+    9.7724391337179988e+00-1.2449970964943134e+01j,
+    1.1935056657175572e+01-8.7698943778838636e+00j,
+    1.3230581930953740e+01-5.2231358416001799e+00j,
+    1.3844089810854491e+01-1.7353303909024429e+00j,
+   ],
+ [ -4.2843983902640694e+00-5.1106575524959158e+02j,
+   -1.1396079316040399e+04+6.3011246126294564e+03j,
+    9.4119058916586931e+04+2.0759951417875505e+04j,
+   -2.2451067128964860e+05-2.3085060886644907e+05j,
+    1.4190197608749234e+05+5.5306387540452194e+05j,
    ],
   1.00000000000000e+00),
 'pade_12_12':
-([  6.68604661560532e+00-2.02485936144845e+01j,
-    1.06594171817355e+01-1.61058137284905e+01j,
-    1.32220085000048e+01-1.23430699861422e+01j,
-    1.49311424804760e+01-8.74033918662028e+00j,
-    1.59945411994928e+01-5.21813307392645e+00j,
-    1.65068440226856e+01-1.73538714406579e+00j,
-   ],
- [  5.46911825752485e+02+6.80360699243456e+02j,
-    1.61337734195801e+04-2.97018812916309e+04j,
-   -3.54728405043439e+05+1.07516699938843e+05j,
-    1.75603924662652e+06+5.77890603673691e+05j,
-   -3.34000394047559e+06-3.77334398690651e+06j,
-    1.92216841199923e+06+7.94549540651937e+06j,
+([  6.6860466156050666e+00-2.0248593614481639e+01j,
+    1.0659417181751659e+01-1.6105813728514065e+01j,
+    1.3222008499912704e+01-1.2343069986074459e+01j,
+    1.4931142480703540e+01-8.7403391867091305e+00j,
+    1.5994541199202869e+01-5.2181330738915968e+00j,
+    1.6506844022824161e+01-1.7353871440195376e+00j,
+   ],
+ [  5.4691182575163600e+02+6.8036069924681442e+02j,
+    1.6133773418468209e+04-2.9701881291782345e+04j,
+   -3.5472840506535175e+05+1.0751669990568272e+05j,
+    1.7560392466474785e+06+5.7789060329273518e+05j,
+   -3.3400039398810156e+06-3.7733439877526090e+06j,
+    1.9221684130546690e+06+7.9454954061207008e+06j,
    ],
   1.00000000000000e+00),
 'pade_14_14':
-([  7.10217376676230e+00-2.40514760645021e+01j,
-    1.14407047677263e+01-1.97894151950504e+01j,
-    1.43447919238103e+01-1.59464347083066e+01j,
-    1.63976939410561e+01-1.22860821422987e+01j,
-    1.78220011108849e+01-8.72320835790319e+00j,
-    1.87262917005815e+01-5.21510664988429e+00j,
-    1.91663427891784e+01-1.73542205224497e+00j,
-   ],
- [ -1.36924413898026e+03-2.94842073103237e+02j,
-    6.59319538601401e+03+7.79273680273329e+04j,
-    8.24845869117295e+05-8.75088260655082e+05j,
-   -8.28511843071903e+06+1.36992091801833e+06j,
-    3.00847033195425e+07+1.22338494631399e+07j,
-   -4.89377678468590e+07-5.91446531945041e+07j,
-    2.63083230322416e+07+1.13711667927895e+08j,
+([  7.1021737667612523e+00-2.4051476064509050e+01j,
+    1.1440704767655038e+01-1.9789415194978318e+01j,
+    1.4344791924343635e+01-1.5946434708369937e+01j,
+    1.6397693939976950e+01-1.2286082142941593e+01j,
+    1.7822001110750090e+01-8.7232083566048946e+00j,
+    1.8726291703219104e+01-5.2151066487633333e+00j,
+    1.9166342787293932e+01-1.7354220577285064e+00j,
+   ],
+ [ -1.3692441389723160e+03-2.9484207309257869e+02j,
+    6.5931953768994845e+03+7.7927368030201178e+04j,
+    8.2484586874635576e+05-8.7508826119423739e+05j,
+   -8.2851184283792526e+06+1.3699209099504172e+06j,
+    3.0084703342613041e+07+1.2233849446415409e+07j,
+   -4.8937767864689641e+07-5.9144653292303704e+07j,
+    2.6308323130471569e+07+1.1371166784887165e+08j,
    ],
   1.00000000000000e+00),
 'pade_16_16':
-([  7.47846359434389e+00-2.78700569516453e+01j,
-    1.21424827653080e+01-2.34957498768370e+01j,
-    1.53464815846813e+01-1.95753948759233e+01j,
-    1.76959363887348e+01-1.58575457183105e+01j,
-    1.94246526513030e+01-1.22515217728443e+01j,
-    2.06502392671595e+01-8.71232672952572e+00j,
-    2.14379715420598e+01-5.21313415919739e+00j,
-    2.18237722064098e+01-1.73544479521009e+00j,
-   ],
- [  1.90008725832969e+03-9.91098564053790e+02j,
-   -1.04343142558914e+05-1.28989202208025e+05j,
-   -7.60446708082224e+05+3.35225211392260e+06j,
-    2.55308244171525e+07-1.95447305410687e+07j,
-   -1.66999371998587e+08+1.24432648004869e+07j,
-    4.90194019013028e+08+2.28187105482266e+08j,
-   -7.10515108893301e+08-9.03571038487383e+08j,
-    3.62652953333272e+08+1.62341769071525e+09j,
+([  7.4784635943217452e+00-2.7870056951626765e+01j,
+    1.2142482765817400e+01-2.3495749876961778e+01j,
+    1.5346481581734320e+01-1.9575394876738137e+01j,
+    1.7695936393005571e+01-1.5857545711778743e+01j,
+    1.9424652665127006e+01-1.2251521782043534e+01j,
+    2.0650239204682926e+01-8.7123267612192166e+00j,
+    2.1437971637956029e+01-5.2131340145165792e+00j,
+    2.1823772157355005e+01-1.7354450548714409e+00j,
+   ],
+ [  1.9000872583470859e+03-9.9109856396971907e+02j,
+   -1.0434314265370999e+05-1.2898920219528225e+05j,
+   -7.6044671263805113e+05+3.3522521039718315e+06j,
+    2.5530824591479816e+07-1.9544730694394413e+07j,
+   -1.6699937069271564e+08+1.2443267177061960e+07j,
+    4.9019400340172857e+08+2.2818712025977644e+08j,
+   -7.1051516994616878e+08-9.0357104919201875e+08j,
+    3.6265287441370940e+08+1.6234176740168822e+09j,
    ],
   1.00000000000000e+00),
 
@@ -343,83 +343,83 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_7_8':
-([  4.68549463282126e+00-1.20105785998140e+01j,
-    7.73868814683028e+00-8.37087930623761e+00j,
-    9.40637121369067e+00-4.96921728762378e+00j,
-    1.01694460066578e+01-1.64920179682108e+00j,
+([  4.6854946328211966e+00-1.2010578599813790e+01j,
+    7.7386881468305484e+00-8.3708793062379829e+00j,
+    9.4063712136907398e+00-4.9692172876232936e+00j,
+    1.0169446006657514e+01-1.6492017968222277e+00j,
    ],
- [ -9.49411688907749e+01+2.54766624817857e+01j,
-    1.33486473746002e+03+7.02431010498788e+02j,
-   -3.84854441543743e+03-5.69031543380038e+03j,
-    2.61262084686885e+03+1.35490601474420e+04j,
+ [ -9.4941168890791303e+01+2.5476662481767772e+01j,
+    1.3348647374600173e+03+7.0243101049801373e+02j,
+   -3.8485444154374368e+03-5.6903154338043132e+03j,
+    2.6126208468682107e+03+1.3549060147438920e+04j,
    ],
   0.00000000000000e+00),
 'pade_9_10':
-([  5.22545336734417e+00-1.57295290456389e+01j,
-    8.77643464008579e+00-1.19218538983026e+01j,
-    1.09343034305864e+01-8.40967299600432e+00j,
-    1.22261314841869e+01-5.01271926366086e+00j,
-    1.28376770777968e+01-1.66606258419856e+00j,
-   ],
- [  1.18741401899989e+02-1.41303692321679e+02j,
-   -4.65536084639950e+03-1.90177301373340e+00j,
-    2.89165722700281e+04+1.81691851003442e+04j,
-   -6.12769997076806e+04-9.54085989073073e+04j,
-    3.69020468769566e+04+1.96990463528937e+05j,
+([  5.2254533673443611e+00-1.5729529045639259e+01j,
+    8.7764346400826092e+00-1.1921853898301213e+01j,
+    1.0934303430600009e+01-8.4096729960030920e+00j,
+    1.2226131484162151e+01-5.0127192636768640e+00j,
+    1.2837677077810870e+01-1.6660625841623014e+00j,
+   ],
+ [  1.1874140189989652e+02-1.4130369232172347e+02j,
+   -4.6553608463981736e+03-1.9017730305830138e+00j,
+    2.8916572270324232e+04+1.8169185100096442e+04j,
+   -6.1276999705851507e+04-9.5408598907324020e+04j,
+    3.6902046880025548e+04+1.9699046352900364e+05j,
    ],
   0.00000000000000e+00),
 'pade_11_12':
-([  5.69357760582991e+00-1.94846293682976e+01j,
-    9.66460291604750e+00-1.55269887259726e+01j,
-    1.22232279800981e+01-1.19133708538269e+01j,
-    1.39287203046700e+01-8.44249696597909e+00j,
-    1.49894720849745e+01-5.04267301327654e+00j,
-    1.55003991083799e+01-1.67740907543385e+00j,
-   ],
- [ -1.97704170847133e+01+3.16226175536364e+02j,
-    1.06011986654780e+04-5.99471349030070e+03j,
-   -1.31630215734835e+05-1.58024463608002e+04j,
-    5.40875915627455e+05+3.73470946067090e+05j,
-   -9.41733184605207e+05-1.51555073365930e+06j,
-    5.21912056860810e+05+2.84094757356084e+06j,
+([  5.6935776058304848e+00-1.9484629368297686e+01j,
+    9.6646029160387776e+00-1.5526988725976901e+01j,
+    1.2223227980126936e+01-1.1913370853790163e+01j,
+    1.3928720304651380e+01-8.4424969660733105e+00j,
+    1.4989472084936066e+01-5.0426730131941984e+00j,
+    1.5500399108416358e+01-1.6774090754267155e+00j,
+   ],
+ [ -1.9770417084490745e+01+3.1622617553652327e+02j,
+    1.0601198665406648e+04-5.9947134901648496e+03j,
+   -1.3163021574016684e+05-1.5802446359524667e+04j,
+    5.4087591559267475e+05+3.7347094605115167e+05j,
+   -9.4173318462160951e+05-1.5155507337393535e+06j,
+    5.2191205652077950e+05+2.8409475736952336e+06j,
    ],
   0.00000000000000e+00),
 'pade_13_14':
-([  6.10953706591465e+00-2.32659732506401e+01j,
-    1.04466532469207e+01-1.91718385658776e+01j,
-    1.33474860188306e+01-1.54639361326311e+01j,
-    1.53970406477107e+01-1.19224339985898e+01j,
-    1.68185419182397e+01-8.46894658249756e+00j,
-    1.77208535276966e+01-5.06457474988492e+00j,
-    1.81598875746869e+01-1.68556744377056e+00j,
-   ],
- [ -2.85701447048604e+02-4.22573770325228e+02j,
-   -1.39506796509646e+04+2.46549472535032e+04j,
-    4.07088889460134e+05-1.47454862119014e+05j,
-   -2.95428486119008e+06-5.61988919680626e+05j,
-    9.34405927211906e+06+6.84178627383522e+06j,
-   -1.41689554474545e+07-2.33291738715078e+07j,
-    7.38633554605862e+06+4.07747800108961e+07j,
+([  6.1095370659108257e+00-2.3265973250646894e+01j,
+    1.0446653246918093e+01-1.9171838565801362e+01j,
+    1.3347486018949645e+01-1.5463936132864211e+01j,
+    1.5397040647550467e+01-1.1922433998380844e+01j,
+    1.6818541917529050e+01-8.4689465826821113e+00j,
+    1.7720853529720298e+01-5.0645747484236088e+00j,
+    1.8159887573421621e+01-1.6855674473441327e+00j,
+   ],
+ [ -2.8570144704750516e+02-4.2257377031971964e+02j,
+   -1.3950679653727644e+04+2.4654947254365048e+04j,
+    4.0708888935434329e+05-1.4745486220113057e+05j,
+   -2.9542848615167881e+06-5.6198892083615554e+05j,
+    9.3440592733118702e+06+6.8417862739121541e+06j,
+   -1.4168955460488973e+07-2.3329173881152872e+07j,
+    7.3863355404403238e+06+4.0774780001204327e+07j,
    ],
   0.00000000000000e+00),
 'pade_15_16':
-([  6.48562832446504e+00-2.70674101802466e+01j,
-    1.11489235555244e+01-2.28473895034394e+01j,
-    1.43502762939532e+01-1.90510873637885e+01j,
-    1.66967416249338e+01-1.54420808743659e+01j,
-    1.84227189032095e+01-1.19357250047256e+01j,
-    1.96460972994385e+01-8.49034450829802e+00j,
-    2.04322978545394e+01-5.08129521532765e+00j,
-    2.08173161439358e+01-1.69171657421277e+00j,
-   ],
- [  7.46675121903952e+02+2.33418714884332e+02j,
-   -2.91507593718632e+03-6.02533142595452e+04j,
-   -8.32343305819814e+05+9.23999524382099e+05j,
-    1.12187257385282e+07-2.85904191440928e+06j,
-   -5.84396390181135e+07-1.38271664342395e+07j,
-    1.53739961173302e+08+1.17150191552697e+08j,
-   -2.10257270578443e+08-3.52009232070284e+08j,
-    1.04572686874704e+08+5.83415456608851e+08j,
+([  6.4856283244947779e+00-2.7067410180245165e+01j,
+    1.1148923555154433e+01-2.2847389503912357e+01j,
+    1.4350276293898503e+01-1.9051087358917957e+01j,
+    1.6696741637279381e+01-1.5442080892659442e+01j,
+    1.8422718844967523e+01-1.1935724977767443e+01j,
+    1.9646097429403270e+01-8.4903444941219188e+00j,
+    2.0432297698379777e+01-5.0812953398998237e+00j,
+    2.0817316216422338e+01-1.6917163428815605e+00j,
+   ],
+ [  7.4667512193457594e+02+2.3341871487568253e+02j,
+   -2.9150759384654289e+03-6.0253314214970334e+04j,
+   -8.3234331208368705e+05+9.2399952597057924e+05j,
+    1.1218725580461837e+07-2.8590420761325522e+06j,
+   -5.8439638920010783e+07-1.3827169228737902e+07j,
+    1.5373997073019460e+08+1.1715018184900032e+08j,
+   -2.1025724343844497e+08-3.5200923255880773e+08j,
+    1.0457270576069954e+08+5.8341546534508431e+08j,
    ],
   0.00000000000000e+00),
 
@@ -448,83 +448,83 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_6_8':
-([  3.69485632938675e+00-1.12696993000969e+01j,
-    6.74126181787975e+00-7.88594968948569e+00j,
-    8.40225298514781e+00-4.69116275605494e+00j,
-    9.16162886758569e+00-1.55837739405967e+00j,
+([  3.6948563293868468e+00-1.1269699300097058e+01j,
+    6.7412618178789652e+00-7.8859496894854111e+00j,
+    8.4022529851495200e+00-4.6911627560543323e+00j,
+    9.1616288675846675e+00-1.5583773940619035e+00j,
    ],
- [ -3.18487263065919e+01-1.49528186623762e+01j,
-    3.12817976033756e+02+4.28594613374877e+02j,
-   -7.82684808481826e+02-2.25394054615805e+03j,
-    5.01715558761609e+02+4.73499730980113e+03j,
+ [ -3.1848726306593758e+01-1.4952818662368040e+01j,
+    3.1281797603338504e+02+4.2859461337512329e+02j,
+   -7.8268480848475042e+02-2.2539405461580932e+03j,
+    5.0171555875795917e+02+4.7349973098000837e+03j,
    ],
   0.00000000000000e+00),
 'pade_8_10':
-([  4.23452249479674e+00-1.49570437812812e+01j,
-    7.78114626446633e+00-1.13688916490507e+01j,
-    9.93338372217297e+00-8.03310633426764e+00j,
-    1.12208537793930e+01-4.79296416756328e+00j,
-    1.18300937391710e+01-1.59375300588419e+00j,
-   ],
- [  6.60829706237551e+01-8.73837399434558e+00j,
-   -1.43520908051772e+03-8.37054742039505e+02j,
-    7.31487012615475e+03+9.59090409250811e+03j,
-   -1.40890558564557e+04-3.71787911863322e+04j,
-    8.14331184019458e+03+6.95373557758765e+04j,
+([  4.2345224947970008e+00-1.4957043781281561e+01j,
+    7.7811462644646161e+00-1.1368891649049933e+01j,
+    9.9333837221750017e+00-8.0331063342662965e+00j,
+    1.1220853779395195e+01-4.7929641675656685e+00j,
+    1.1830093739168188e+01-1.5937530058858136e+00j,
+   ],
+ [  6.6082970623743790e+01-8.7383739943858210e+00j,
+   -1.4352090805160392e+03-8.3705474204215193e+02j,
+    7.3148701261657097e+03+9.5909040925091831e+03j,
+   -1.4089055856525809e+04-3.7178791186370880e+04j,
+    8.1433118402523960e+03+6.9537355775802542e+04j,
    ],
   0.00000000000000e+00),
 'pade_10_12':
-([  4.70228142811029e+00-1.86890942420089e+01j,
-    8.67056097339053e+00-1.49254273078317e+01j,
-    1.12246068339195e+01-1.14673703426701e+01j,
-    1.29259172791502e+01-8.13362237863904e+00j,
-    1.39836392311261e+01-4.86081102719189e+00j,
-    1.44929942543034e+01-1.61733100604584e+00j,
-   ],
- [ -8.49832831880236e+01+7.75367860453999e+01j,
-    4.37578428468484e+03+2.83201434389032e+02j,
-   -4.04045377690810e+04-2.46586957214072e+04j,
-    1.44784834972791e+05+1.82669966461450e+05j,
-   -2.34618958097715e+05-5.84473205187368e+05j,
-    1.25947859854496e+05+1.00930377761925e+06j,
+([  4.7022814281112533e+00-1.8689094242008188e+01j,
+    8.6705609733885627e+00-1.4925427307846883e+01j,
+    1.1224606833892731e+01-1.1467370342599001e+01j,
+    1.2925917279278435e+01-8.1336223787764119e+00j,
+    1.3983639230908835e+01-4.8608110270819562e+00j,
+    1.4492994254420182e+01-1.6173310060590254e+00j,
+   ],
+ [ -8.4983283188157031e+01+7.7536786045525304e+01j,
+    4.3757842846206859e+03+2.8320143434613755e+02j,
+   -4.0404537770168077e+04-2.4658695724549303e+04j,
+    1.4478483497752697e+05+1.8266996643088225e+05j,
+   -2.3461895806633282e+05-5.8447320525110373e+05j,
+    1.2594785985754138e+05+1.0093037775911577e+06j,
    ],
   0.00000000000000e+00),
 'pade_12_14':
-([  5.11787189461895e+00-2.24527018231594e+01j,
-    9.45335791648157e+00-1.85334197602768e+01j,
-    1.23505043635501e+01-1.49656842626999e+01j,
-    1.43962858429022e+01-1.15471965661277e+01j,
-    1.58146338365384e+01-8.20671881319247e+00j,
-    1.67147257883642e+01-4.90937805514902e+00j,
-    1.71526203575448e+01-1.63417615340624e+00j,
-   ],
- [  3.61443014831873e+01-1.82295255726243e+02j,
-   -9.29367610371230e+03+4.34390374321708e+03j,
-    1.54332004514095e+05+2.08655132031941e+04j,
-   -9.16398034468283e+05-5.62363547717655e+05j,
-    2.60965182162727e+06+3.18944066032174e+06j,
-   -3.73564354639738e+06-8.93145939977566e+06j,
-    1.89731526905100e+06+1.45505505433651e+07j,
+([  5.1178718946197534e+00-2.2452701823158250e+01j,
+    9.4533579164709032e+00-1.8533419760279187e+01j,
+    1.2350504363625246e+01-1.4965684262793458e+01j,
+    1.4396285842467995e+01-1.1547196565555256e+01j,
+    1.5814633837908431e+01-8.2067188145208068e+00j,
+    1.6714725786257606e+01-4.9093780536549509e+00j,
+    1.7152620358650065e+01-1.6341761544026026e+00j,
+   ],
+ [  3.6144301483368992e+01-1.8229525572651588e+02j,
+   -9.2936761037053693e+03+4.3439037431442775e+03j,
+    1.5433200450442889e+05+2.0865513181860886e+04j,
+   -9.1639803452655289e+05-5.6236354848752753e+05j,
+    2.6096518237317661e+06+3.1894406540421648e+06j,
+   -3.7356435361698372e+06-8.9314594151886553e+06j,
+    1.8973152742624171e+06+1.4550550539597422e+07j,
    ],
   0.00000000000000e+00),
 'pade_14_16':
-([  5.49361318603890e+00-2.62399655049460e+01j,
-    1.01560781516715e+01-2.21798376257454e+01j,
-    1.33544760010611e+01-1.85117397684658e+01j,
-    1.56976183436254e+01-1.50149789135570e+01j,
-    1.74205593555198e+01-1.16112396752170e+01j,
-    1.86414951180119e+01-8.26233278072527e+00j,
-    1.94260023927384e+01-4.94590541832561e+00j,
-    1.98101574513328e+01-1.64681446196597e+00j,
-   ],
- [  1.26981292664858e+02+2.55930094697910e+02j,
-    1.24113743672713e+04-1.80844288017939e+04j,
-   -4.27793284860080e+05+1.38613103424770e+05j,
-    4.10778976637045e+06+6.84330756086048e+05j,
-   -1.83663341106143e+07-1.11861218996792e+07j,
-    4.43633025775970e+07+5.28146014031224e+07j,
-   -5.78177959583672e+07-1.34031344688548e+08j,
-    2.81283017741330e+07+2.08871467218483e+08j,
+([  5.4936131860386359e+00-2.6239965504947193e+01j,
+    1.0156078151693409e+01-2.2179837625772549e+01j,
+    1.3354476000892422e+01-1.8511739768081551e+01j,
+    1.5697618343948905e+01-1.5014978916141414e+01j,
+    1.7420559355425990e+01-1.1611239664288957e+01j,
+    1.8641495118467965e+01-8.2623328101026363e+00j,
+    1.9426002390748188e+01-4.9459053656627647e+00j,
+    1.9810157452784484e+01-1.6468145301525536e+00j,
+   ],
+ [  1.2698129266475361e+02+2.5593009469756510e+02j,
+    1.2411374366306938e+04-1.8084428802305614e+04j,
+   -4.2779328498406213e+05+1.3861310325572061e+05j,
+    4.1077897601127857e+06+6.8433074982215685e+05j,
+   -1.8366334182227235e+07-1.1186121985333912e+07j,
+    4.4363301752616599e+07+5.2814600917658925e+07j,
+   -5.7817798734076127e+07-1.3403134545797966e+08j,
+    2.8128296332899068e+07+2.0887146667673543e+08j,
    ],
   0.00000000000000e+00),
 
@@ -579,57 +579,57 @@ pfd_dict = {
    ],
   0.00000000000000e+00),
 'pade_0_12':
-([ -4.77819607660492e+00-6.45117633742040e+00j,
-   -1.05342363965627e+00-6.05949143386437e+00j,
-    1.24912514335839e+00-5.04955510728409e+00j,
-    2.75798923119196e+00-3.75254838235373e+00j,
-    3.68889710244616e+00-2.30275714924704e+00j,
-    4.13560823926466e+00-7.75542049110205e-01j,
-   ],
- [  1.35373864938572e-03+6.54563472611298e-03j,
-   -7.76274759883027e-02+1.43895857754979e-01j,
-   -1.18791589294929e+00-2.80064434173582e-01j,
-    1.13102534164352e+00-4.46148910130248e+00j,
-    9.59115507214772e+00+4.20796998228030e+00j,
-   -9.45799078350185e+00+1.23462202436702e+01j,
+([ -4.7781960766049076e+00-6.4511763374203888e+00j,
+   -1.0534236396562680e+00-6.0594914338643724e+00j,
+    1.2491251433584185e+00-5.0495551072841085e+00j,
+    2.7579892311919210e+00-3.7525483823537074e+00j,
+    3.6888971024462052e+00-2.3027571492470953e+00j,
+    4.1356082392646307e+00-7.7554204911016200e-01j,
+   ],
+ [  1.3537386493856444e-03+6.5456347261132111e-03j,
+   -7.7627475988302885e-02+1.4389585775497971e-01j,
+   -1.1879158929492681e+00-2.8006443417348731e-01j,
+    1.1310253416439893e+00-4.4614891013026607e+00j,
+    9.5911550721461847e+00+4.2079699822797743e+00j,
+   -9.4579907835019892e+00+1.2346220243671787e+01j,
    ],
   0.00000000000000e+00),
 'pade_0_14':
-([ -6.23230903391705e+00-7.21314836160483e+00j,
-   -2.13567746773186e+00-7.07056793576509e+00j,
-    4.83158563940126e-01-6.23914928340499e+00j,
-    2.29769841186932e+00-5.07839242580531e+00j,
-    3.54383446441261e+00-3.73192259264481e+00j,
-    4.33070823377371e+00-2.27723593393242e+00j,
-    4.71258682765313e+00-7.65102664662369e-01j,
-   ],
- [  1.45138541085020e-03+8.92468642956945e-04j,
-    3.45113307194397e-02+4.98378511769263e-02j,
-   -2.89849462555210e-01+5.44987960103308e-01j,
-   -2.94621099349984e+00-1.02490802332328e+00j,
-    3.37511598168098e+00-8.91701164080177e+00j,
-    1.70247572270421e+01+9.17348490665518e+00j,
-   -1.71997754687942e+01+2.11616528867068e+01j,
+([ -6.2323090339170450e+00-7.2131483616048166e+00j,
+   -2.1356774677318549e+00-7.0705679357650872e+00j,
+    4.8315856394013801e-01-6.2391492834050197e+00j,
+    2.2976984118692925e+00-5.0783924258052986e+00j,
+    3.5438344644126092e+00-3.7319225926447221e+00j,
+    4.3307082337738034e+00-2.2772359339326238e+00j,
+    4.7125868276530571e+00-7.6510266466217103e-01j,
+   ],
+ [  1.4513854108502203e-03+8.9246864295701499e-04j,
+    3.4511330719440639e-02+4.9837851176927454e-02j,
+   -2.8984946255517130e-01+5.4498796010329065e-01j,
+   -2.9462109934998488e+00-1.0249080233234753e+00j,
+    3.3751159816809668e+00-8.9170116408036453e+00j,
+    1.7024757227033316e+01+9.1734849066547177e+00j,
+   -1.7199775468789554e+01+2.1161652886717910e+01j,
    ],
   0.00000000000000e+00),
 'pade_0_16':
-([ -3.29042476425441e+00-8.01661911026905e+00j,
-   -7.72610219665304e+00-7.92459187507350e+00j,
-   -3.89293357090152e-01-7.35544605972397e+00j,
-    1.69154717772922e+00-6.32743910805909e+00j,
-    3.20474966452654e+00-5.08588483857568e+00j,
-    4.27042428987533e+00-3.71193355559549e+00j,
-    4.95278138208323e+00-2.25666238448204e+00j,
-    5.28631780378328e+00-7.56943620481880e-01j,
-   ],
- [  2.06654601729528e-02-1.06440158085741e-03j,
-    4.04353042024190e-04-8.31916866099119e-05j,
-    1.84776670098368e-01+2.08658471639094e-01j,
-   -9.26683827995189e-01+1.57161305600193e+00j,
-   -6.54506001164789e+00-2.98859217323853e+00j,
-    8.30014048250257e+00-1.70445424925996e+01j,
-    2.99491641500991e+01+1.86642092156143e+01j,
-   -3.09834072762723e+01+3.64312103860810e+01j,
+([ -3.2904247642544098e+00-8.0166191102690476e+00j,
+   -7.7261021966530317e+00-7.9245918750734985e+00j,
+   -3.8929335709019736e-01-7.3554460597239384e+00j,
+    1.6915471777293483e+00-6.3274391080591990e+00j,
+    3.2047496645264899e+00-5.0858848385753701e+00j,
+    4.2704242898750229e+00-3.7119335555960848e+00j,
+    4.9527813820837050e+00-2.2566623844812570e+00j,
+    5.2863178037830734e+00-7.5694362048268427e-01j,
+   ],
+ [  2.0665460172952822e-02-1.0644015808574765e-03j,
+    4.0435304202420024e-04-8.3191686609916963e-05j,
+    1.8477667009834153e-01+2.0865847163912235e-01j,
+   -9.2668382799442339e-01+1.5716130560019679e+00j,
+   -6.5450600116526250e+00-2.9885921732407401e+00j,
+    8.3001404825168255e+00-1.7044542492576497e+01j,
+    2.9949164150146792e+01+1.8664209215567112e+01j,
+   -3.0983407276329888e+01+3.6431210386034763e+01j,
    ],
   0.00000000000000e+00),
 }
-- 
2.43.0


From f3e00b1411287f89e04265a802e27273af9485ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:31 +0000
Subject: [PATCH 02/34] fix: dense exponential returned NaN for one-norms above
 3.5e5

jax.scipy.linalg.expm gives up (NaN) after 16 squarings by default, so KIOPS,
phi_0 actions and the extension/inverse formulas failed silently on very stiff
stable operators. Allow 64 squarings.
---
 ormatex_py/matexp_phi.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/matexp_phi.py b/ormatex_py/matexp_phi.py
index d5a7e55..3000aab 100644
--- a/ormatex_py/matexp_phi.py
+++ b/ormatex_py/matexp_phi.py
@@ -23,6 +23,9 @@ from jax import numpy as jnp
 import warnings
 from ormatex_py.matexp_phi_pfd_dict import pfd_dict
 
+# jax's default of 16 squarings makes expm return NaN for one-norms above ~3.5e5
+EXPM_MAX_SQUARINGS = 64
+
 
 def f_phi_k(z: jax.Array, k: int) -> jax.Array:
     """
@@ -54,7 +57,7 @@ def f_phi_k_inv(z: jax.Array, k: int, eps: float) -> (jax.Array, float):
     N = _validate_args(z, k)
 
     # phi_0 = exp
-    phi_k = jax.scipy.linalg.expm(z)
+    phi_k = jax.scipy.linalg.expm(z, max_squarings=EXPM_MAX_SQUARINGS)
     err_est = eps
     if k == 0:
         return phi_k, err_est
@@ -88,7 +91,7 @@ def f_phi_k_ext(z: jax.Array, k: int, return_all: bool=False) -> jax.Array:
     else:
         z_ext = z
 
-    phi_ks = jax.scipy.linalg.expm(z_ext)
+    phi_ks = jax.scipy.linalg.expm(z_ext, max_squarings=EXPM_MAX_SQUARINGS)
 
     if return_all:
         phi_k = phi_ks[:N,:].reshape((N,k+1,N))
@@ -209,7 +212,7 @@ def f_phi_k_appl(z: jax.Array, b: jax.Array, k: int) -> jax.Array:
         phi_k_ext = f_phi_k_sq(z_ext, k=0)
         phi_kb = phi_k_ext[:N,-M:].reshape(b.shape)
     else:
-        phi_kb = jax.scipy.linalg.expm(z) @ b
+        phi_kb = jax.scipy.linalg.expm(z, max_squarings=EXPM_MAX_SQUARINGS) @ b
 
     return phi_kb
 
-- 
2.43.0


From 87251ed5bf8d3b8144ca7b2abecffe4850f80b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 03/34] fix: fast Leja points left part of asymmetric intervals
 unsampled

The distance products of the first two candidate points included the not yet
filled (zero) entries of the point array.
---
 ormatex_py/matexp_leja.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index cae41ad..f15d7f5 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -145,8 +145,8 @@ def gen_leja_fast(a: float=-2., b: float=2., n: int=100):
     zs[0] = (zt[1]+zt[2])/2.
     zs[1] = (zt[2]+zt[0])/2.
     zprod = np.zeros(n)
-    zprod[0] = np.prod(zs[0]- np.asarray(zt))
-    zprod[1] = np.prod(zs[1]-np.asarray(zt))
+    zprod[0] = np.prod(zs[0]-zt[0:3])
+    zprod[1] = np.prod(zs[1]-zt[0:3])
     index = np.zeros((n,2), dtype=int)
     index[0,0] = 1
     index[0,1] = 2
-- 
2.43.0


From 4cb2bf6ba7add231aae6b67d935402b89d195f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 04/34] fix: imaginary Leja sequence repeated points and
 skipped others beyond 60 points

The fast Leja points do not come in +/- pairs at consecutive positions, so
taking every other point duplicated some of the pairs.
---
 ormatex_py/matexp_leja.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index f15d7f5..22a42af 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -180,12 +180,14 @@ def gen_complex_conj_leja_fast(beta: float, n: int=100):
         n: number of fast leja points to generate
     """
     leja_x = gen_leja_fast(-beta, beta, n*2)
-    # take only every other real leja point
-    imag_even_leja_x = leja_x[0::2] * 1j
-    # take complex conjugate of odd m points
-    imag_odd_leja_x = leja_x[0::2] * -1j
+    # take one point of each +/- pair, in order of first appearance
+    _, first = np.unique(np.abs(leja_x), return_index=True)
+    half_leja_x = leja_x[np.sort(first)][0:(n+1)//2+1]
+    imag_even_leja_x = half_leja_x * 1j
+    # complex conjugates
+    imag_odd_leja_x = half_leja_x * -1j
     # rejoin full conj complex leja fast sequence
-    leja_x = np.ones(len(leja_x), dtype=np.complex64) # can use np.complex128?
+    leja_x = np.ones(2*len(half_leja_x), dtype=np.complex64) # can use np.complex128?
     leja_x[0::2] = imag_even_leja_x
     leja_x[1::2] = imag_odd_leja_x
     #leja_x[1::2] = imag_even_leja_x
-- 
2.43.0


From 54a16af929a11aa423ff19005bd63f575bf51630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 05/34] fix: empty Leja boxes with a negative half-axis sum
 were not rejected

The signs were tested after dividing by the (then negative) scale.
---
 ormatex_py/matexp_leja.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 22a42af..5e13ae3 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -58,6 +58,8 @@ def gen_leja_conjugate(n: int=64, a: float=-1., b: float=1., c: float=1.):
 
     shift = (a+b)/2.
     hax1, hax2 = (b-a)/2., c
+    if hax1 < 0 or hax2 < 0:
+        raise ValueError(f"Interval boundaries result in empty box for the Leja ellipse: [{a},{b}]x[{-c},{c}].")
     scale = (hax1 + hax2) / 2
 
     # normalized half axes to capacity 1
@@ -65,10 +67,7 @@ def gen_leja_conjugate(n: int=64, a: float=-1., b: float=1., c: float=1.):
 
     tol = 1e-4
 
-    if h1 < 0 or h2 < 0:
-        raise ValueError(f"Interval boundaries result in empty box for the Leja ellipse: [{a},{b}]x[{-c},{c}].")
-        assert(False)
-    elif h2 <= tol:
+    if h2 <= tol:
         # real points
         n_bigger = 2*(n - 1)
         ztc = gen_leja_circle(n_bigger, conjugate=True)
-- 
2.43.0


From f210fc474ef6ce9b3f42eebd5f3fa2326febd32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:10 +0000
Subject: [PATCH 06/34] fix: expm_taylor ignored the scale in every term but
 the first

---
 ormatex_py/matexp_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index fe10abe..e84bb98 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -114,7 +114,7 @@ def expm_taylor(A: jax.Array, shift: float, scale: float, p: int=20):
     for i in range(p):
         # powers of A
         ts_expm = ts_expm + M / jax.scipy.special.factorial(i + 1)
-        M = A @ M
+        M = scale * A @ M
     return jnp.exp(shift) * ts_expm
 
 
-- 
2.43.0


From 06db19d303d0ccc536a05d47414047c29fb4eea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 07/34] fix: leja_coeffs_ts_phi_jax always raised (in-place
 fill_diagonal on a JAX array)

---
 ormatex_py/matexp_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index e84bb98..0716e53 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -334,7 +334,7 @@ def leja_coeffs_ts_phi_jax(leja_x: jax.Array, shift: float, scale: float, h: flo
                 F = F.at[i, j].set( F[i, j] + F[j, i] )
     # for j in range(0, m):
     #     F = F.at[j, j].set( jnp.exp(h*(z[j])) )
-    jnp.fill_diagonal(F,  jnp.exp(h*(z)) )
+    F = jnp.fill_diagonal(F,  jnp.exp(h*(z)), inplace=False)
     # extract the first column
     coeffs = F.at[:, 0].get()
     return coeffs
-- 
2.43.0


From 6b5cd419149631229f6d9768297a84e77fcb1364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 08/34] fix: substepped TS(II) divided differences were wrong
 for non-integer scale

The substeps (ceil(scale) of size 1/scale) did not add up to one.
---
 ormatex_py/matexp_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index 0716e53..0a8813f 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -348,7 +348,7 @@ def leja_coeffs_ts_phi_substep(
     """
     n_leja = len(leja_x)
     steps = int(np.ceil(scale))
-    tau = 1. / scale
+    tau = 1. / steps
     Xi = jnp.diag(leja_x, 0) + jnp.diag(jnp.ones(n_leja-1), -1)
     H_m = jnp.identity(n_leja)*shift + scale*Xi
     e_1 = np.zeros(n_leja)
-- 
2.43.0


From 07278b2e123c75203882760df5792d2c198d475b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 09/34] fix: leja_coeffs_ts_phi used exp for the first phi_k
 coefficient (k > 0)

---
 ormatex_py/matexp_poly.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index 0a8813f..70047bc 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -294,7 +294,9 @@ def leja_coeffs_ts_phi(leja_x: jax.Array, shift: float, scale: float, h: float=1
                 F[i, j] = F[i, j] + F[j, i]
     # for j in range(0, m):
     #     F[j, j] = np.exp(h*(z[j]))
-    np.fill_diagonal(F, np.exp(h*(z)))
+    # phi_k of each point: top right entry of an extended exponential
+    ext = np.diag(np.ones(k), 1)
+    np.fill_diagonal(F, [sp.linalg.expm(np.diag([zi] + [0.]*k) + ext)[0, k] for zi in h*z])
     # set upper triangle to 0
     F = np.tril(F)
     if full:
-- 
2.43.0


From 11b4486fa4273f7dcdd3eaedf8d248e7ea5591fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 10/34] fix: leja_coeffs_dd_phi lost half of its digits in a
 single precision table

---
 ormatex_py/matexp_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index 70047bc..c8a2c7d 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -389,7 +389,7 @@ def leja_coeffs_dd_phi(leja_x: jax.Array, shift: float, scale: float, h: float=1
     n = len(z) - 1
     N = n + 30
 
-    F = np.zeros((n+1, n+1), dtype=np.complex64)
+    F = np.zeros((n+1, n+1), dtype=np.complex128)
     for i in range(n):
         F[i+1:n+1, i] = z[i] - z[i+1:n+1]
 
-- 
2.43.0


From 603bf7c5e04737ff94a84833f441fdba553c5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:50 +0000
Subject: [PATCH 11/34] fix: imaginary Leja action reported convergence for
 wrong results

The error estimate added a signed term, started from an absolute value
whatever the norm of the vector, and trusted a single small pair of terms.
---
 ormatex_py/matexp_leja.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 5e13ae3..cc3df36 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -273,9 +273,9 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
     # jax version of above
     def body_leja_poly(args):
         # unpack args
-        i, rm, pm, qm, _ = args
+        i, rm, pm, qm, poly_err_old = args
         # compute error estimate
-        err_r = jnp.real(coeffs[i-1])*jnp.linalg.norm(rm)
+        err_r = jnp.abs(coeffs[i-1])*jnp.linalg.norm(rm)
         # compute new term in the polynomial approx
         qm = (dt*a_lo.matvec(rm) - shift*rm)/scale
         # div diff coeffs[i] even is real
@@ -285,6 +285,8 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         rm = (dt*a_lo.matvec(qm) - shift*qm)/scale + jnp.pow(jnp.imag(imag_leja_x[i-1]), 2)*rm
         # estimate error correction
         poly_err = jnp.linalg.norm(qm) * jnp.abs(coeffs[i]) + err_r
+        # running average: a single small pair does not imply convergence
+        poly_err = decay_fun(poly_err, poly_err_old, .5)
         i += 2
         return i, rm, pm, qm, poly_err
     def cond_leja_poly(args):
@@ -293,7 +295,7 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         iter_check = (i < n_leja)
         return (tol_check) & (iter_check) # | (i < 3)
     i, rm, pm, _qm, err = lax.while_loop(
-            cond_leja_poly, body_leja_poly, (2, rm, pm, qm, 1.0e2))
+            cond_leja_poly, body_leja_poly, (2, rm, pm, qm, 1.0e2*beta))
     converged = (i < n_leja) & (err < beta*1.0e3)
     # expmv, n_iters, converged
     return pm, i, converged
-- 
2.43.0


From d3c66f75d2596157d64b38496ab646b0ff56dc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:44 +0000
Subject: [PATCH 12/34] fix: imaginary Leja action stopped on aliased points

Half widths close to multiples of 4 pi make the first divided differences
vanish, which was taken for convergence.
---
 ormatex_py/matexp_leja.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index cc3df36..a363d07 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -291,7 +291,9 @@ def complex_conj_imag_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: fl
         return i, rm, pm, qm, poly_err
     def cond_leja_poly(args):
         i, rm, pm, qm, poly_err = args
-        tol_check = (poly_err > tol*beta) & (poly_err < beta*1.0e3)
+        # the first scale/pi points can all be multiples of 2 pi i apart, where
+        # the divided differences vanish: no convergence check before that
+        tol_check = ((poly_err > tol*beta) | (i < scale)) & (poly_err < beta*1.0e3)
         iter_check = (i < n_leja)
         return (tol_check) & (iter_check) # | (i < 3)
     i, rm, pm, _qm, err = lax.while_loop(
-- 
2.43.0


From e759c92a2191d491caf45d4f4ef2722bd0061eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:13 +0000
Subject: [PATCH 13/34] fix: zero padded Leja action reported convergence after
 a few terms on stiff problems

The coefficients of the leading padded zeros scale like exp(shift) and drove
the running error estimate to zero before the interpolation had started.
---
 ormatex_py/matexp_leja.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index a363d07..05c899e 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -360,8 +360,9 @@ def complex_conj_leja_expmv(a_lo: LinOp, dt: float, u: jax.Array, shift: float,
         vm = (dt*a_lo.matvec(vm) - jnp.real(leja_x_sc[i-1])*vm) / scale
         # apply update (for i==n_leja_real, coeff[i] is complex, we just compute the real part)
         pm += jnp.real(coeffs[i]) * vm
-        err_est = decay_fun(jnp.abs(jnp.real(coeffs[i])) * jnp.linalg.norm(vm), err_est, gamma)
         i += 1
+    # the leading terms do not enter err_est: at padded zeros, far from the
+    # right end of the spectrum, they can be negligible without convergence
 
     # jax version of the update for a conjugate part
     def body_leja_poly(args):
-- 
2.43.0


From 49e787093d4809b3f448ac5aad3659897baf8f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 14/34] fix: diffrax integration ended at dt*nsteps instead of
 t0 + dt*nsteps

---
 ormatex_py/integrate_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 84e75d4..6eaf5af 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -150,7 +150,7 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
         solver = method_dict[method](root_finder=root_finder)
     except:
         solver = method_dict[method]()
-    tf = dt * nsteps
+    tf = t0 + dt * nsteps
     step_ctrl = diffrax.ConstantStepSize()
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
-- 
2.43.0


From 30e11679fa520b93d258d407ebf2616ce2685c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 15/34] fix: IntegrateSys.state always returned None

---
 ormatex_py/ode_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7621263..7ebc3b2 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -588,4 +588,4 @@ class IntegrateSys(metaclass=ABCMeta):
         """
         current state
         """
-        self.y_hist[0]
+        return self.y_hist[0]
-- 
2.43.0


From e8136a1905d178b082c4cfa0ad84d17dadae6ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 16/34] fix: finite difference Jacobian was NaN at the zero
 state

---
 ormatex_py/ode_sys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 7ebc3b2..629afcf 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -326,7 +326,8 @@ class FdJacLinOp(SysJacLinOp):
             v: target vector to apply linop to
         """
         u_norm_1 = jnp.linalg.norm(self._u, 1)
-        scaled_eps = self._eps * u_norm_1
+        # absolute perturbation if the state is zero
+        scaled_eps = self._eps * jnp.where(u_norm_1 > 0., u_norm_1, 1.)
         ieps = self._scale / scaled_eps
         u_pert = self._u + scaled_eps*v
 
-- 
2.43.0


From ae41de93eb417226c08ffd57d4dc349b1221eb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 17/34] fix: rk4 raised TypeError when a before-step callback
 was given

---
 ormatex_py/ode_explicit.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/ormatex_py/ode_explicit.py b/ormatex_py/ode_explicit.py
index 55e345d..ee226d4 100644
--- a/ormatex_py/ode_explicit.py
+++ b/ormatex_py/ode_explicit.py
@@ -31,13 +31,13 @@ class RKIntegrator(IntegrateSys):
         super().__init__(sys, t0, y0, order, method, **kwargs)
 
     @jax.jit
-    def _step_rk4_jit(t, yt, dt, sys):
+    def _step_rk4_jit(t, yt, dt, sys, kw):
         print("jit-compiling rk4 kernel")
 
-        f1 = sys.frhs(t,      yt)
-        f2 = sys.frhs(t+dt/2, yt + f1*dt/2);
-        f3 = sys.frhs(t+dt/2, yt + f2*dt/2);
-        f4 = sys.frhs(t+dt,   yt + f3*dt);
+        f1 = sys.frhs(t,      yt, **kw)
+        f2 = sys.frhs(t+dt/2, yt + f1*dt/2, **kw);
+        f3 = sys.frhs(t+dt/2, yt + f2*dt/2, **kw);
+        f4 = sys.frhs(t+dt,   yt + f3*dt, **kw);
 
         y_new = yt + dt * (f1 + 2*f2 + 2*f3 + f4) / 6;
 
@@ -46,20 +46,21 @@ class RKIntegrator(IntegrateSys):
 
         return y_new, y_err
 
-    def _step_rk4(self, dt: float) -> StepResult:
+    def _step_rk4(self, dt: float, frhs_kwargs: dict) -> StepResult:
         """
         Computes the solution update by RK4
         """
         t = self.t
         yt = self.y_hist[0]
 
-        y_new, y_err = RKIntegrator._step_rk4_jit(t, yt, dt, self.sys)
+        kw = {"frhs_kwargs": frhs_kwargs} if frhs_kwargs else {}
+        y_new, y_err = RKIntegrator._step_rk4_jit(t, yt, dt, self.sys, kw)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
-    def step(self, dt: float) -> StepResult:
+    def step(self, dt: float, frhs_kwargs: dict={}) -> StepResult:
         if self.method == "rk4":
-            return self._step_rk4(dt)
+            return self._step_rk4(dt, frhs_kwargs)
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 21ea598f49622a6c895c9d29fe74a3241b0bb59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 18/34] fix: exprb2_dense ignored the right-hand side arguments
 of the step

---
 ormatex_py/ode_exp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 9689a4e..4237fec 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -276,10 +276,10 @@ class ExpRBIntegrator(IntegrateSys):
         return StepResult(t+dt, dt, y_new, y_err)
 
     @jax.jit
-    def _step_exprb2_jit(t, yt, dt, sys):
+    def _step_exprb2_jit(t, yt, dt, sys, frhs_kwargs):
         print("jit-compiling exprb2_dense kernel")
 
-        sys_jac_lop = sys.fjac(t, yt)
+        sys_jac_lop = sys.fjac(t, yt, frhs_kwargs=frhs_kwargs)
         fyt = sys_jac_lop._frhs_cached()
         fytt = sys_jac_lop._fdt()
         J = sys_jac_lop.dense()
@@ -291,7 +291,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_err = -1.
         return y_new, y_err
 
-    def _step_exprb2_dense(self, dt: float) -> StepResult:
+    def _step_exprb2_dense(self, dt: float, frhs_kwargs: dict) -> StepResult:
         r"""
         Exponential Euler,
         computes the solution update by:
@@ -300,7 +300,7 @@ class ExpRBIntegrator(IntegrateSys):
         t = self.t
         yt = self.y_hist[0]
 
-        y_new, y_err = ExpRBIntegrator._step_exprb2_jit(t, yt, dt, self.sys)
+        y_new, y_err = ExpRBIntegrator._step_exprb2_jit(t, yt, dt, self.sys, frhs_kwargs)
 
         return StepResult(t+dt, dt, y_new, y_err)
 
@@ -414,7 +414,7 @@ class ExpRBIntegrator(IntegrateSys):
             else:
                 return self._step_exprb3(dt, frhs_kwargs)
         elif self.method == "exprb2_dense":
-            return self._step_exprb2_dense(dt)
+            return self._step_exprb2_dense(dt, frhs_kwargs)
         elif self.method == "exprb2_pfd":
             return self._step_exprb2_pfd(dt, frhs_kwargs)
         elif self.method == "exp_pfd":
-- 
2.43.0


From e638e4109b42cef6c77bae89758c2eee0f01b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 19/34] fix: stage remainders ignored the right-hand side
 arguments of the step

---
 ormatex_py/ode_exp.py | 10 +++++-----
 ormatex_py/ode_sys.py |  6 ++++--
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/ormatex_py/ode_exp.py b/ormatex_py/ode_exp.py
index 4237fec..4b50fee 100644
--- a/ormatex_py/ode_exp.py
+++ b/ormatex_py/ode_exp.py
@@ -159,7 +159,7 @@ class ExpRBIntegrator(IntegrateSys):
         fytt = sys_jac_lop._fdt()
 
         # residual
-        rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt)
+        rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt, frhs_kwargs=frhs_kwargs)
 
         # use kiops to save 1 calls to arnoldi
         vb0 = jnp.zeros(yt.shape)
@@ -197,7 +197,7 @@ class ExpRBIntegrator(IntegrateSys):
         y_2 = yt \
             + dt*phi_linop(sys_jac_lop, dt, fyt, 1, self.max_krylov_dim, self.iom) \
             + phi2_v
-        r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v)
+        r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v, frhs_kwargs=frhs_kwargs)
 
         # compute final update
         y_new = y_2 + 2.*dt*phi_linop(sys_jac_lop, dt, r_2, 3,
@@ -246,7 +246,7 @@ class ExpRBIntegrator(IntegrateSys):
             y_2 = yt \
                 + c_2*dt*phi_linop(sys_jac_lop, c_2*dt, fyt, 1, self.max_krylov_dim, self.iom) \
                 + phi2_v_2
-            r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v_2)
+            r_2 = self._remf(t_2, y_2, fyt, sys_jac_lop, v=v_2, frhs_kwargs=frhs_kwargs)
             return r_2
 
         # compute U_{n3}
@@ -256,7 +256,7 @@ class ExpRBIntegrator(IntegrateSys):
             y_3 = yt \
                 + c_3*dt*phi_linop(sys_jac_lop, c_3*dt, fyt, 1, self.max_krylov_dim, self.iom) \
                 + phi2_v
-            r_3 = self._remf(t_3, y_3, fyt, sys_jac_lop, v=v)
+            r_3 = self._remf(t_3, y_3, fyt, sys_jac_lop, v=v, frhs_kwargs=frhs_kwargs)
             return y_3, r_3
 
         # with ThreadPoolExecutor(max_workers=2) as executor:
@@ -558,7 +558,7 @@ class ExpLejaIntegrator(IntegrateSys):
         elif order == 3:
             yp = self.y_hist[1] # y_{t-1}
             tp = self.t_hist[1]
-            rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt)
+            rn = self._remf(tp, yp, fyt, sys_jac_lop, fytt, frhs_kwargs=frhs_kwargs)
             a_tilde_lo, v, n = build_a_tilde(sys_jac_lop, dt, [vb0, dt*fyt, dt*(2./3.)*rn + dt**2*fytt])
         else:
             raise NotImplementedError
diff --git a/ormatex_py/ode_sys.py b/ormatex_py/ode_sys.py
index 629afcf..a4bd3b4 100644
--- a/ormatex_py/ode_sys.py
+++ b/ormatex_py/ode_sys.py
@@ -565,7 +565,8 @@ class IntegrateSys(metaclass=ABCMeta):
         self.y_hist.appendleft(s.y)
 
     def _remf(self, tr: float, yr: jax.Array,
-              frhs_yt: jax.Array, sys_jac_lop_yt: LinOp, v=0.0):
+              frhs_yt: jax.Array, sys_jac_lop_yt: LinOp, v=0.0,
+              frhs_kwargs: dict={}):
         """
         Computes remainder R(yr) = frhs(yr) - frhs(yt) - J_yt*(yr-yt) - v*(tr-t0)
         where v = d(frhs)/dt
@@ -573,7 +574,8 @@ class IntegrateSys(metaclass=ABCMeta):
         t = self.t_hist[0]
         yt = self.y_hist[0]
         dt = tr - t
-        frhs_yr = self.sys.frhs(tr, yr)
+        kw = {"frhs_kwargs": frhs_kwargs} if frhs_kwargs else {}
+        frhs_yr = self.sys.frhs(tr, yr, **kw)
         jac_yd = sys_jac_lop_yt(yr - yt)
         return frhs_yr - frhs_yt - jac_yd - v*dt
 
-- 
2.43.0


From 1ba8c1494c05eddc4c01822b6f792bcfadd234d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:49 +0000
Subject: [PATCH 20/34] fix: diffrax integration from a non-zero start time
 could run out of steps by rounding

---
 ormatex_py/integrate_wrapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/integrate_wrapper.py b/ormatex_py/integrate_wrapper.py
index 6eaf5af..018995d 100644
--- a/ormatex_py/integrate_wrapper.py
+++ b/ormatex_py/integrate_wrapper.py
@@ -151,11 +151,14 @@ def integrate_diffrax(ode_sys, y0, t0, dt, nsteps, method="implicit_euler", **kw
     except:
         solver = method_dict[method]()
     tf = t0 + dt * nsteps
+    # step size consistent with the rounded end time, otherwise the constant
+    # step size controller may need one step more than nsteps
+    dt0 = (tf - t0) / nsteps if nsteps > 0 else dt
     step_ctrl = diffrax.ConstantStepSize()
     res = diffrax.diffeqsolve(
             diffrax_ode_sys,
             solver,
-            t0, tf, dt, y0,
+            t0, tf, dt0, y0,
             saveat=diffrax.SaveAt(steps=True),
             stepsize_controller=step_ctrl,
             max_steps=nsteps,
-- 
2.43.0


From 7a53fc8da51f4721221598f6c038ddac679797d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:16 +0000
Subject: [PATCH 21/34] fix: power iteration returned NaN when the operator
 annihilates the vector

---
 ormatex_py/matexp_leja.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/matexp_leja.py b/ormatex_py/matexp_leja.py
index 05c899e..b0a4571 100644
--- a/ormatex_py/matexp_leja.py
+++ b/ormatex_py/matexp_leja.py
@@ -219,7 +219,8 @@ def power_iter(a_lop: LinOp, b0: jax.Array, iter: int, tol: float=5.0e-2):
                 (b_k.transpose() @ b_k)
         b_k1_norm = jnp.linalg.norm(b_k1)
         # eig_new = b_k1_norm / jnp.linalg.norm(b_k)
-        b_k = b_k1 / b_k1_norm
+        # keep the last nonzero vector if it is in the null space of the operator
+        b_k = jnp.where(b_k1_norm > 0., b_k1 / b_k1_norm, b_k)
         i += 1
         return i, b_k, eig_new, eig_old
     def cond_power_iter(args):
-- 
2.43.0


From df360159d709e2d75b86ce3ac670c7f69a894df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:37 +0000
Subject: [PATCH 22/34] fix: analytic Bateman solution accepted branching
 chains with decay constants below 1e-8

---
 ormatex_py/progression/bateman_sys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/bateman_sys.py b/ormatex_py/progression/bateman_sys.py
index aa61c3a..5467127 100644
--- a/ormatex_py/progression/bateman_sys.py
+++ b/ormatex_py/progression/bateman_sys.py
@@ -153,7 +153,8 @@ def analytic_bateman_single_parent(t, batmat, n0):
     # check that diagonal is equal to neg subdiagonal
     diag = blib.diagonal()
     sdiag = blib.diagonal(offset=-1)
-    assert np.allclose(sdiag, -1.0*diag[0:ns-1])
+    # (relative: decay constants can be arbitrarily small)
+    assert np.allclose(sdiag, -1.0*diag[0:ns-1], atol=0.0)
     lmbd = -1.0*diag
     N = np.zeros((nt, ns), dtype=np.float64)
     for n in range(1, ns+1):
-- 
2.43.0


From cb86fcca339b2d36560cdf85dde4021acf66db64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:17 +0000
Subject: [PATCH 23/34] fix: nodal element returned the basis of earlier points
 for a new set of as many points

---
 ormatex_py/progression/element_line_pp_nodal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/element_line_pp_nodal.py b/ormatex_py/progression/element_line_pp_nodal.py
index 543099c..49d35a5 100644
--- a/ormatex_py/progression/element_line_pp_nodal.py
+++ b/ormatex_py/progression/element_line_pp_nodal.py
@@ -49,6 +49,7 @@ class ElementLinePp_nodal(ElementH1):
         self.dofnames = ['u'] + (p - 1) * ['u']
         self.quad = GLL_quad()(p + 1)
         self.doflocs = self.quad[0].T
+        self.X = None
         self.P = np.zeros((0, 0))
         self.dP = np.zeros((0, 0, 1))
         self.p = p
@@ -68,7 +69,9 @@ class ElementLinePp_nodal(ElementH1):
 
     def lbasis(self, X, i):
 
-        if self.P.shape[1] != X.shape[1]:
+        # the cached basis is only valid for the points it was evaluated at
+        if self.X is None or not np.array_equal(self.X, X):
             self.P, self.dP = self._reval_legendre(X[0, :], self.p)
+            self.X = np.array(X)
 
         return self.P[i], self.dP[i]
-- 
2.43.0


From 76c65265c71de93e1a3bab580ee5662634ebed04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 24/34] fix: upwind stabilization parameter was NaN at zero
 velocity and anti-diffusive for negative velocity

---
 ormatex_py/progression/advection_diffusion_1d.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index ba8ac74..30c1cb6 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -48,8 +48,12 @@ def tau_upwind_f(w):
     """
     Computes the SUPG stabilization parameter using the standard
     upwind formulation.
+
+    The parameter is a time scale: it uses the magnitude of the velocity.
+    Where the velocity vanishes all stabilization terms vanish as well.
     """
-    return w['tau'] * w.h[:] / (2 * vel_f(**w))
+    speed = np.abs(vel_f(**w))
+    return w['tau'] * w.h[:] / (2 * np.where(speed > 0., speed, 1.))
 
 @fem.BilinearForm
 def adv_diff(u, v, w):
-- 
2.43.0


From 6616ac221d1c4e349caff8eb080b2064934f0852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:41 +0000
Subject: [PATCH 25/34] fix: nonlinear Bateman system ignored its tank volume

---
 ormatex_py/progression/bateman_nonlin_sys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/bateman_nonlin_sys.py b/ormatex_py/progression/bateman_nonlin_sys.py
index f0628f1..261912e 100644
--- a/ormatex_py/progression/bateman_nonlin_sys.py
+++ b/ormatex_py/progression/bateman_nonlin_sys.py
@@ -123,7 +123,7 @@ class NonlinearBateman(OdeSplitSys):
         self.fis_vec = fission_vec
 
     def _frhs(self, t, u, **kwargs):
-        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g)
+        nonlin = srcf_xe_av(u, self.i_xe_a, self.i_xe_g, tank_vol=self.tank_vol)
         bat = self.bat_mat @ u
         trans = self.n_phi * (self.trans_mat @ u)
         fis = self.n_phi * self.fis_vec
-- 
2.43.0


From 61a78330e88fb8c5576d9b7b5b751c49094a7eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:37 +0000
Subject: [PATCH 26/34] fix: split operator of the three species system raised
 NotImplementedError

---
 ormatex_py/progression/rad_1d_3s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/rad_1d_3s.py b/ormatex_py/progression/rad_1d_3s.py
index 10791c0..ef4db27 100644
--- a/ormatex_py/progression/rad_1d_3s.py
+++ b/ormatex_py/progression/rad_1d_3s.py
@@ -98,7 +98,7 @@ class RAD_SEM(OdeSplitSys):
         # only use Bateman terms for L
         #L = jnp.kron(self.bat_mat, jnp.eye(Ndof))
         # only use adv-diff terms for L
-        L = jnp.kron(jnp.eye(n), (- self.A / self.Ml.reshape((-1, 1))).todense())
+        L = jnp.kron(jnp.eye(n), - self.A.todense() / self.Ml.reshape((-1, 1)))
         #print(L)
         return MatrixLinOp(L)
 
-- 
2.43.0


From 92ff152b4392a040c07d5d92f81783e15d30d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:00 +0000
Subject: [PATCH 27/34] fix: TS(II) phi divided differences: weights of the
 full table's inner columns

leja_coeffs_ts_phi started every entry (i, j) from (h*scale)^i instead of
(h*scale)^(i-j). The first column is the same, but the full table used by
leja_coeffs_ts_phi_substep was wrong unless h*scale is one.
---
 ormatex_py/matexp_poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/matexp_poly.py b/ormatex_py/matexp_poly.py
index c8a2c7d..91547e7 100644
--- a/ormatex_py/matexp_poly.py
+++ b/ormatex_py/matexp_poly.py
@@ -284,8 +284,8 @@ def leja_coeffs_ts_phi(leja_x: jax.Array, shift: float, scale: float, h: float=1
     # initilize F
     for i in range(m):
         for j in range(0, i+1):
-            F[i, j] = ((h * scale) ** i) / sp.special.factorial(i + k - j)
-            F[j, i] = ((h * scale) ** i) / sp.special.factorial(i + k - j)
+            F[i, j] = ((h * scale) ** (i - j)) / sp.special.factorial(i + k - j)
+            F[j, i] = ((h * scale) ** (i - j)) / sp.special.factorial(i + k - j)
     for l in range(2, 17):
         for j in range(m-1):
             F[j, j] = h * (z[j]) * (F[j, j] / (l + k - 1))
-- 
2.43.0


From b9e26c9eaeb42fd6c66d242e9f0c19e0d400380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 28/34] fix: advection_diffusion_1d: weigh the final errors
 with the mass of their own nodes

The error at the sorted nodes was combined with the unsorted lumped mass.
---
 ormatex_py/progression/advection_diffusion_1d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/advection_diffusion_1d.py b/ormatex_py/progression/advection_diffusion_1d.py
index 30c1cb6..fb2ba9f 100644
--- a/ormatex_py/progression/advection_diffusion_1d.py
+++ b/ormatex_py/progression/advection_diffusion_1d.py
@@ -447,7 +447,7 @@ if __name__ == "__main__":
     # Print results summary to table
     print("CFL: %0.4f, Ndof: %d" % (cfl, xs.size))
 
-    err = y_exact - y
+    err = y_exact_res[-1] - y_res[-1]
     l2 = np.sqrt(np.sum(err**2 * ode_sys.Ml))
     l1 = np.linalg.norm(err * ode_sys.Ml, 1)
     linf = np.linalg.norm(err, np.inf)
-- 
2.43.0


From 9819771a1a0aa67efbbf0686e809202c28061567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:08 +0000
Subject: [PATCH 29/34] fix: rad_1d_3s: name of the computed species 1 column
 in the data files

---
 ormatex_py/progression/rad_1d_3s.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/rad_1d_3s.py b/ormatex_py/progression/rad_1d_3s.py
index ef4db27..6b995cb 100644
--- a/ormatex_py/progression/rad_1d_3s.py
+++ b/ormatex_py/progression/rad_1d_3s.py
@@ -312,7 +312,7 @@ def main(dt, method='epi3', periodic=True, mr=6, p=2, tf=1.0, jac_plot=False, nu
         plt.tight_layout()
         plt.savefig(outdir + 'reac_adv_diff_s3_%s_%0.2f_%1.3f.png' % (method_str, t, dt))
         plt.close()
-        header = "x,u0_analytic,u0_calc,u1_analytic,u2_calc,u2_analytic,u2_calc"
+        header = "x,u0_analytic,u0_calc,u1_analytic,u1_calc,u2_analytic,u2_calc"
         np.savetxt(outdir + 'reac_adv_diff_s3_%s_%0.2f_%1.3f.txt' % (method_str, t, dt), np.asarray(plot_data).T, delimiter=', ', header=header)
         return mae_list, mae_rl_list
 
-- 
2.43.0


From dda483f08de024d898839f3f15bd44d19478ba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:18 +0000
Subject: [PATCH 30/34] fix: lotka_volterra.main: import diffrax where it is
 used

main and sweep_methods raised NameError unless the module was run as a script.
---
 ormatex_py/progression/lotka_volterra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ormatex_py/progression/lotka_volterra.py b/ormatex_py/progression/lotka_volterra.py
index 2489d60..7def6fa 100644
--- a/ormatex_py/progression/lotka_volterra.py
+++ b/ormatex_py/progression/lotka_volterra.py
@@ -113,6 +113,7 @@ class LotkaVolterraNonauto(OdeSplitSys):
 
 
 def main(method='epi3', do_plot=True, autonomous=True):
+    import diffrax
     # setup lotka voltera system
     t_end = 20.0
     y0 = jnp.array([0.1, 0.2])
@@ -241,7 +242,6 @@ def sweep_methods(autonomous=False):
 
 if __name__ == "__main__":
     import argparse
-    import diffrax
     jax.config.update("jax_enable_x64", True)
 
     parser = argparse.ArgumentParser()
-- 
2.43.0


From 7fe30891d1ff46ed6a0b8cf0ec69389fef2450d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:57 +0000
Subject: [PATCH 31/34] fix: lotka_volterra.main: compare with the gold
 solution at the times of the step size sweep

The gold solution had no value at t=0, where the comparison took the one after
the first step, and was interpolated linearly between its times for the step
sizes which are not multiples of 0.001.
---
 ormatex_py/progression/lotka_volterra.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ormatex_py/progression/lotka_volterra.py b/ormatex_py/progression/lotka_volterra.py
index 7def6fa..be030ff 100644
--- a/ormatex_py/progression/lotka_volterra.py
+++ b/ormatex_py/progression/lotka_volterra.py
@@ -126,8 +126,9 @@ def main(method='epi3', do_plot=True, autonomous=True):
 
     # compute gold solution
     t0 = 0.0
-    dt = 0.001
-    nsteps = int(t_end/dt)
+    # all step sizes of the sweep below are multiples of dt
+    dt = 0.0005
+    nsteps = int(round(t_end/dt))
     tf = dt * nsteps
     step_ctrl = diffrax.ConstantStepSize()
     solver = diffrax.Dopri5()
@@ -136,7 +137,7 @@ def main(method='epi3', do_plot=True, autonomous=True):
             diffrax_lv_sys,
             solver,
             t0, tf, dt, y0,
-            saveat=diffrax.SaveAt(steps=True),
+            saveat=diffrax.SaveAt(t0=True, steps=True),
             stepsize_controller=step_ctrl,
             max_steps=nsteps,
             )
-- 
2.43.0


From 5a02b79d0020fc719e1d971c6a0c1b8b4ecaa9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 32/34] fix: rad_1d_3s.main: import matplotlib where it is used

main raised NameError unless the module was run as a script.
---
 ormatex_py/progression/rad_1d_3s.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ormatex_py/progression/rad_1d_3s.py b/ormatex_py/progression/rad_1d_3s.py
index 6b995cb..428b254 100644
--- a/ormatex_py/progression/rad_1d_3s.py
+++ b/ormatex_py/progression/rad_1d_3s.py
@@ -184,6 +184,7 @@ def plot_leja_conv_detail(
     plt.close()
 
 def main(dt, method='epi3', periodic=True, mr=6, p=2, tf=1.0, jac_plot=False, nu=0.002, **kwargs):
+    import matplotlib.pyplot as plt
     # create the mesh
     dwidth = 1.0
     mesh0 = fem.MeshLine1(np.array([[0., dwidth]])).with_boundaries({
-- 
2.43.0


From 267073c5e39112496e9a9f4113d725f4068c1b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:49 +0000
Subject: [PATCH 33/34] fix: analytic_bateman_s3: same time grid for the
 computed and the analytic solution

Both were found by truncation, so they could have different lengths, or end
one step short or late, when tf/dt is not exact in floating point.
---
 ormatex_py/progression/bateman_sys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ormatex_py/progression/bateman_sys.py b/ormatex_py/progression/bateman_sys.py
index 5467127..d6b0372 100644
--- a/ormatex_py/progression/bateman_sys.py
+++ b/ormatex_py/progression/bateman_sys.py
@@ -185,14 +185,14 @@ def analytic_bateman_s3(method="epi2", do_plot=True, dt=10.0, tf=1000., pfd_meth
     bmat = gen_bateman_matrix(keymap, decay_lib_sp)
     n0 = 1.0
     t0 = 0.0
-    t = np.arange(t0, tf+dt, dt)
+    nsteps = int(np.round((tf - t0) / dt))
+    t = t0 + dt * np.arange(nsteps + 1)
     # analytic result
     y_true = analytic_bateman_single_parent(t, bmat, n0)
 
     # compute numerical result
     test_ode_sys = TestBatemanSysJac(keymap, decay_lib_sp)
     y0 = jnp.array([n0, 0.0, 0.0])
-    nsteps = int((tf - t0) / dt)
     res = integrate_wrapper.integrate(
             test_ode_sys, y0, t0, dt, nsteps, method, max_krylov_dim=12, iom=12, pfd_method=pfd_method)
     t_res, y_res = res.t_res, res.y_res
-- 
2.43.0


From 8fcc2061bad4bb562046b27b3d59fa3dd055b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:26 +0000
Subject: [PATCH 34/34] fix: rad_1d_9s: compare with the baseline solution at
 the same time

---
 ormatex_py/progression/rad_1d_9s.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ormatex_py/progression/rad_1d_9s.py b/ormatex_py/progression/rad_1d_9s.py
index aeb3510..58479c4 100644
--- a/ormatex_py/progression/rad_1d_9s.py
+++ b/ormatex_py/progression/rad_1d_9s.py
@@ -298,9 +298,11 @@ if __name__ == "__main__":
     tf = dt * nsteps
     method = args.method
     if args.fine:
-        # Compute ground-truth baseline solution
-        dt_fine = 0.5
-        nsteps_fine = int(tf / dt_fine)
+        # Compute ground-truth baseline solution. Every time step is split
+        # into equal fine steps, so that both solutions share all output times
+        substeps = max(2, int(np.ceil(dt / 0.5)))
+        dt_fine = dt / substeps
+        nsteps_fine = nsteps * substeps
         res_fine = integrate_wrapper.integrate(
                 ode_sys, y0, t0, dt_fine, nsteps_fine, "exprb3",
                 max_krylov_dim=240, iom=2)
@@ -376,7 +378,7 @@ if __name__ == "__main__":
             uf = stack_u(yf, n_species)
             # fine solution
             if args.fine:
-                i_fine = nsteps_fine
+                i_fine = int(round((t - t0) / dt_fine))
                 t_fine = t_res_fine[i_fine]
                 yf_fine = y_res_fine[i_fine]
                 uf_fine = stack_u(yf_fine, n_species)
-- 
2.43.0


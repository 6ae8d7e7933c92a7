// generated by tools/gen_design.py -- independent of the code under test

static const FirStage fir_stages[] = {
  {0, 1, 2, {0.25, 0.25}},
  {2, 24, 52, {-1.89664902068714987e-7, 8.9375397078733036e-7, -2.91089582815840368e-6, 7.76096986809530776e-6, -0.0000181199563029205725, 0.0000383751058422302911, -0.0000753090716594694206, 0.000138896940951998814, -0.000243186895871884791, 0.000407227320845837695, -0.000656006651372772663, 0.00102139501841758967, -0.00154312953740896678, 0.00226998427193038673, -0.00326144008509583493, 0.00459047548314147527, -0.00634866016398017528, 0.00865583457119504789, -0.0116790154705904929, 0.0156707140744102086, -0.0210514085344551521, 0.0286045360626393248, -0.0400081784106668455, 0.0596444446194111055, -0.103645694870128321, 0.317482695570784831, 0.317482695570784831, -0.103645694870128321, 0.0596444446194111055, -0.0400081784106668455, 0.0286045360626393248, -0.0210514085344551521, 0.0156707140744102086, -0.0116790154705904929, 0.00865583457119504789, -0.00634866016398017528, 0.00459047548314147527, -0.00326144008509583493, 0.00226998427193038673, -0.00154312953740896678, 0.00102139501841758967, -0.000656006651372772663, 0.000407227320845837695, -0.000243186895871884791, 0.000138896940951998814, -0.0000753090716594694206, 0.0000383751058422302911, -0.0000181199563029205725, 7.76096986809530776e-6, -2.91089582815840368e-6, 8.9375397078733036e-7, -1.89664902068714987e-7}},
  {4, 24, 16, {-7.81138620628954285e-6, 0.00011777177340253329, -0.000809790276429681353, 0.00359142995966849978, -0.0119076752321418626, 0.0326185314626630112, -0.0836804495629635383, 0.310078011534865075, 0.310078011534865075, -0.0836804495629635383, 0.0326185314626630112, -0.0119076752321418626, 0.00359142995966849978, -0.000809790276429681353, 0.00011777177340253329, -7.81138620628954285e-6}},
  {8, 24, 12, {-0.0000303455575465832814, 0.000573846557426212321, -0.00438306746812611789, 0.0202268788089070169, -0.0709159648119825035, 0.30452864347609137, 0.30452864347609137, -0.0709159648119825035, 0.0202268788089070169, -0.00438306746812611789, 0.000573846557426212321, -0.0000303455575465832814}},
  {2, 20, 42, {2.46292167967709775e-6, -9.79904569662976436e-6, 0.0000281379643769070891, -0.0000674648818218821452, 0.000143368620733152383, -0.000278702763263142828, 0.000505283912127698239, -0.000865551671779156974, 0.00141420268701119796, -0.00221999264863793515, 0.00336823628545271036, -0.00496514732060429307, 0.0071463283371986606, -0.0100941488468286766, 0.0140743612990682399, -0.0195169062646652981, 0.0272094990821481668, -0.038828382182376323, 0.0587474068044565171, -0.103084668961697697, 0.317291775220773308, 0.317291775220773308, -0.103084668961697697, 0.0587474068044565171, -0.038828382182376323, 0.0272094990821481668, -0.0195169062646652981, 0.0140743612990682399, -0.0100941488468286766, 0.0071463283371986606, -0.00496514732060429307, 0.00336823628545271036, -0.00221999264863793515, 0.00141420268701119796, -0.000865551671779156974, 0.000505283912127698239, -0.000278702763263142828, 0.000143368620733152383, -0.0000674648818218821452, 0.0000281379643769070891, -9.79904569662976436e-6, 2.46292167967709775e-6}},
  {4, 20, 14, {0.0000439796746318638275, -0.000503064691921408356, 0.00279625040874100176, -0.0104701145940853991, 0.0307551431931638457, -0.0820418667071540534, 0.309419491705272676, 0.309419491705272676, -0.0820418667071540534, 0.0307551431931638457, -0.0104701145940853991, 0.00279625040874100176, -0.000503064691921408356, 0.0000439796746318638275}},
  {8, 20, 10, {0.00017230594713343024, -0.00255173181944626768, 0.0159946793930991959, -0.0656506667709038965, 0.302035326506616359, 0.302035326506616359, -0.0656506667709038965, 0.0159946793930991959, -0.00255173181944626768, 0.00017230594713343024}},
  {2, 16, 32, {-0.0000351427349934755086, 0.000113587895797692233, -0.000280379586742218626, 0.000592937881603109862, -0.00112945409081773163, 0.00199173727269286202, -0.00330892178098850887, 0.00524419625080982475, -0.00800939102239389681, 0.0118980750911157916, -0.017362581771322496, 0.025204120984314178, -0.0371009320611696207, 0.0574161127658052267, -0.102244633412251273, 0.317004647195158344, 0.317004647195158344, -0.102244633412251273, 0.0574161127658052267, -0.0371009320611696207, 0.025204120984314178, -0.017362581771322496, 0.0118980750911157916, -0.00800939102239389681, 0.00524419625080982475, -0.00330892178098850887, 0.00199173727269286202, -0.00112945409081773163, 0.000592937881603109862, -0.000280379586742218626, 0.000113587895797692233, -0.0000351427349934755086}},
  {4, 16, 10, {0.000557132567616836213, -0.00485436669063543208, 0.0218093350028264179, -0.0731415152206098399, 0.305628146861071534, 0.305628146861071534, -0.0731415152206098399, 0.0218093350028264179, -0.00485436669063543208, 0.000557132567616836213}},
  {8, 16, 8, {-0.00108852393316016674, 0.0116493784493201316, -0.0595574738596410235, 0.299001373942942909, 0.299001373942942909, -0.0595574738596410235, 0.0116493784493201316, -0.00108852393316016674}},
  {2, 12, 24, {-0.000319194736021397235, 0.000838540044881463836, -0.00179053032702999506, 0.00337311308948143574, -0.00584088925238202695, 0.00953140797543206728, -0.0149356256154318885, 0.0228816557272404387, -0.0350577910648652793, 0.0558173997579946879, -0.101225847337723949, 0.316654724304526919, 0.316654724304526919, -0.101225847337723949, 0.0558173997579946879, -0.0350577910648652793, 0.0228816557272404387, -0.0149356256154318885, 0.00953140797543206728, -0.00584088925238202695, 0.00337311308948143574, -0.00179053032702999506, 0.000838540044881463836, -0.000319194736021397235}},
  {4, 12, 8, {-0.00259105420404491663, 0.0173128362584218967, -0.0681614468538325441, 0.303408412359414528, 0.303408412359414528, -0.0681614468538325441, 0.0173128362584218967, -0.00259105420404491663}},
  {8, 12, 6, {0.00587214842019406883, -0.0492750353311345072, 0.293368138907657731, 0.293368138907657731, -0.0492750353311345072, 0.00587214842019406883}},
  {2, 8, 16, {-0.00263674534109668637, 0.00569549959884672658, -0.0107506379830960776, 0.018689598049002064, -0.0312436286745977096, 0.0527609328036710896, -0.0992481221118223795, 0.315970343871009225, 0.315970343871009225, -0.0992481221118223795, 0.0527609328036710896, -0.0312436286745977096, 0.018689598049002064, -0.0107506379830960776, 0.00569549959884672658, -0.00263674534109668637}},
  {4, 8, 6, {0.0133316134941588922, -0.0639847665417477003, 0.301613848659482138, 0.301613848659482138, -0.0639847665417477003, 0.0133316134941588922}},
  {8, 8, 4, {-0.0372762582617643404, 0.286350900205269781, 0.286350900205269781, -0.0372762582617643404}},
};
static const IirStage iir_stages[] = {
  {2, 8, 3, 1.74969403837, 51.1895517387, {0.135334764911666439, 0.444590598082365906, 0.800067248161523525}},
  {2, 12, 5, 2.75851148794, 83.8810150912, {0.0573695618540750394, 0.20954360813168779, 0.413527685446516016, 0.635134901104240907, 0.869437801676180817}},
  {2, 16, 6, 3.25851797906, 100.226763253, {0.0414515951194422723, 0.155103568760836119, 0.315656804874174461, 0.497702307487897069, 0.687541398987461892, 0.888648948579894806}},
  {2, 20, 8, 4.25857478083, 132.918259612, {0.024474822059978397, 0.0940543465019298342, 0.198721626951942647, 0.325975994458825763, 0.464826038488817388, 0.608626633281645097, 0.75647898374965292, 0.913920751068755841}},
  {2, 24, 9, 4.75875208779, 149.264007791, {0.0196469427674406421, 0.0760888038217834521, 0.162632413266378806, 0.270422513752102737, 0.390832296143958259, 0.517409209182165973, 0.64703583307633754, 0.780462462239290737, 0.92268241849452009}},
  {4, 8, 2, 1.55428965104, 71.8992982185, {0.125648294886776426, 0.564135655498778911}},
  {4, 12, 3, 2.16238869588, 103.067257079, {0.0632423861101616738, 0.265202456986011662, 0.667135940636327309}},
  {4, 16, 3, 2.16238869588, 103.067257079, {0.0632423861101616738, 0.265202456986011662, 0.667135940636327309}},
  {4, 20, 4, 2.77178574642, 134.235216219, {0.0380605474762332358, 0.156212326239837241, 0.371180480371979339, 0.730876987946510311}},
  {4, 24, 5, 3.38247889149, 165.40317536, {0.0254143208186109723, 0.103326557018042921, 0.240113580150464054, 0.451612322599498118, 0.774163885211291516}},
  {8, 8, 1, 0.980631159131, 59.5208506413, {0.342104032688047898}},
  {8, 12, 2, 1.60344779304, 103.215142929, {0.110103983322994004, 0.536405351690208266}},
  {8, 16, 2, 1.60344779304, 103.215142929, {0.110103983322994004, 0.536405351690208266}},
  {8, 20, 3, 2.22722366965, 146.909440065, {0.0545911518017388888, 0.239547991020300658, 0.643357204720957747}},
  {8, 24, 3, 2.22722366965, 146.909440065, {0.0545911518017388888, 0.239547991020300658, 0.643357204720957747}},
};

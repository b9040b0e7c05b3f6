---- MODULE NormTab ----
EXTENDS Integers, Sequences
\* ln Phi(x), x = -12 .. 12 in steps of 1/64, in micro units
LogPhiTab == <<
  -75410673, -75222010, -75033589, -74845410, -74657475, -74469781, -74282330, -74095122, -73908156, -73721433, -73534952, -73348714,
  -73162718, -72976964, -72791453, -72606184, -72421158, -72236374, -72051833, -71867534, -71683478, -71499664, -71316092, -71132763,
  -70949677, -70766832, -70584230, -70401871, -70219754, -70037879, -69856247, -69674857, -69493709, -69312804, -69132141, -68951721,
  -68771543, -68591607, -68411913, -68232462, -68053254, -67874287, -67695563, -67517081, -67338842, -67160845, -66983090, -66805578,
  -66628308, -66451280, -66274494, -66097951, -65921650, -65745591, -65569775, -65394201, -65218869, -65043779, -64868932, -64694326,
  -64519963, -64345843, -64171964, -63998328, -63824934, -63651782, -63478873, -63306205, -63133780, -62961597, -62789656, -62617958,
  -62446501, -62275287, -62104315, -61933585, -61763097, -61592852, -61422848, -61253087, -61083568, -60914291, -60745256, -60576463,
  -60407913, -60239604, -60071537, -59903713, -59736131, -59568791, -59401692, -59234836, -59068222, -58901851, -58735721, -58569833,
  -58404187, -58238783, -58073622, -57908702, -57744024, -57579589, -57415395, -57251443, -57087734, -56924266, -56761040, -56598057,
  -56435315, -56272815, -56110558, -55948542, -55786768, -55625236, -55463946, -55302898, -55142092, -54981527, -54821205, -54661125,
  -54501286, -54341689, -54182335, -54023222, -53864351, -53705722, -53547334, -53389189, -53231285, -53073623, -52916203, -52759025,
  -52602089, -52445394, -52288942, -52132731, -51976762, -51821034, -51665549, -51510305, -51355303, -51200542, -51046024, -50891747,
  -50737712, -50583919, -50430367, -50277057, -50123989, -49971162, -49818577, -49666234, -49514132, -49362273, -49210654, -49059278,
  -48908143, -48757250, -48606598, -48456188, -48306019, -48156092, -48006407, -47856963, -47707761, -47558801, -47410082, -47261604,
  -47113369, -46965374, -46817621, -46670110, -46522840, -46375812, -46229025, -46082480, -45936176, -45790114, -45644293, -45498713,
  -45353376, -45208279, -45063424, -44918810, -44774438, -44630307, -44486417, -44342769, -44199363, -44056197, -43913273, -43770590,
  -43628149, -43485949, -43343990, -43202273, -43060797, -42919562, -42778569, -42637816, -42497305, -42357036, -42217007, -42077220,
  -41937674, -41798369, -41659306, -41520483, -41381902, -41243562, -41105463, -40967606, -40829989, -40692614, -40555479, -40418586,
  -40281934, -40145523, -40009353, -39873425, -39737737, -39602290, -39467085, -39332120, -39197396, -39062914, -38928672, -38794672,
  -38660912, -38527394, -38394116, -38261079, -38128284, -37995729, -37863415, -37731342, -37599510, -37467918, -37336568, -37205459,
  -37074590, -36943962, -36813575, -36683429, -36553524, -36423859, -36294435, -36165252, -36036310, -35907608, -35779147, -35650927,
  -35522948, -35395209, -35267711, -35140454, -35013437, -34886661, -34760126, -34633831, -34507777, -34381963, -34256390, -34131058,
  -34005966, -33881114, -33756503, -33632133, -33508003, -33384114, -33260465, -33137057, -33013889, -32890961, -32768274, -32645827,
  -32523621, -32401655, -32279930, -32158444, -32037200, -31916195, -31795431, -31674907, -31554623, -31434580, -31314777, -31195214,
  -31075891, -30956808, -30837966, -30719364, -30601002, -30482880, -30364998, -30247357, -30129955, -30012794, -29895873, -29779191,
  -29662750, -29546549, -29430588, -29314866, -29199385, -29084144, -28969142, -28854381, -28739859, -28625578, -28511536, -28397734,
  -28284172, -28170850, -28057767, -27944925, -27832322, -27719959, -27607835, -27495951, -27384307, -27272903, -27161739, -27050814,
  -26940128, -26829682, -26719476, -26609510, -26499783, -26390295, -26281047, -26172039, -26063270, -25954740, -25846450, -25738399,
  -25630588, -25523016, -25415683, -25308590, -25201736, -25095122, -24988746, -24882610, -24776714, -24671056, -24565638, -24460459,
  -24355518, -24250818, -24146356, -24042133, -23938149, -23834405, -23730899, -23627633, -23524605, -23421817, -23319267, -23216956,
  -23114885, -23013052, -22911458, -22810102, -22708986, -22608108, -22507469, -22407069, -22306908, -22206985, -22107301, -22007855,
  -21908648, -21809680, -21710950, -21612459, -21514207, -21416192, -21318417, -21220880, -21123581, -21026520, -20929698, -20833114,
  -20736769, -20640662, -20544793, -20449162, -20353770, -20258615, -20163699, -20069021, -19974581, -19880380, -19786416, -19692690,
  -19599202, -19505952, -19412940, -19320166, -19227630, -19135332, -19043271, -18951448, -18859863, -18768516, -18677407, -18586535,
  -18495900, -18405504, -18315344, -18225423, -18135739, -18046292, -17957083, -17868111, -17779376, -17690879, -17602619, -17514597,
  -17426812, -17339263, -17251953, -17164879, -17078042, -16991442, -16905080, -16818954, -16733066, -16647414, -16561999, -16476821,
  -16391880, -16307176, -16222708, -16138477, -16054483, -15970725, -15887204, -15803920, -15720872, -15638060, -15555485, -15473147,
  -15391045, -15309179, -15227549, -15146156, -15064998, -14984077, -14903392, -14822944, -14742731, -14662754, -14583013, -14503508,
  -14424239, -14345206, -14266408, -14187846, -14109520, -14031430, -13953575, -13875955, -13798572, -13721423, -13644510, -13567833,
  -13491390, -13415183, -13339212, -13263475, -13187973, -13112707, -13037676, -12962879, -12888318, -12813991, -12739899, -12666042,
  -12592420, -12519032, -12445879, -12372960, -12300276, -12227827, -12155612, -12083631, -12011884, -11940372, -11869094, -11798050,
  -11727240, -11656664, -11586322, -11516214, -11446340, -11376699, -11307292, -11238119, -11169180, -11100474, -11032001, -10963762,
  -10895756, -10827983, -10760444, -10693138, -10626065, -10559224, -10492617, -10426243, -10360101, -10294193, -10228517, -10163073,
  -10097862, -10032884, -9968138, -9903624, -9839343, -9775293, -9711476, -9647891, -9584538, -9521416, -9458527, -9395869,
  -9333443, -9271249, -9209286, -9147554, -9086054, -9024785, -8963747, -8902940, -8842364, -8782020, -8721906, -8662023,
  -8602370, -8542948, -8483757, -8424796, -8366065, -8307565, -8249295, -8191255, -8133444, -8075864, -8018513, -7961393,
  -7904501, -7847840, -7791407, -7735204, -7679230, -7623486, -7567970, -7512683, -7457625, -7402796, -7348195, -7293823,
  -7239679, -7185763, -7132076, -7078616, -7025385, -6972381, -6919605, -6867057, -6814736, -6762643, -6710777, -6659138,
  -6607726, -6556541, -6505583, -6454852, -6404347, -6354068, -6304016, -6254190, -6204590, -6155216, -6106067, -6057145,
  -6008447, -5959976, -5911729, -5863708, -5815911, -5768340, -5720993, -5673871, -5626973, -5580299, -5533850, -5487624,
  -5441622, -5395844, -5350290, -5304959, -5259851, -5214966, -5170304, -5125865, -5081648, -5037654, -4993882, -4950332,
  -4907004, -4863898, -4821014, -4778350, -4735908, -4693687, -4651687, -4609908, -4568349, -4527011, -4485892, -4444994,
  -4404315, -4363856, -4323617, -4283596, -4243795, -4204212, -4164848, -4125702, -4086775, -4048065, -4009574, -3971299,
  -3933243, -3895403, -3857780, -3820374, -3783184, -3746211, -3709454, -3672912, -3636586, -3600475, -3564579, -3528899,
  -3493432, -3458180, -3423143, -3388319, -3353708, -3319311, -3285128, -3251156, -3217398, -3183852, -3150518, -3117395,
  -3084484, -3051785, -3019296, -2987018, -2954950, -2923092, -2891444, -2860005, -2828776, -2797756, -2766944, -2736340,
  -2705944, -2675756, -2645776, -2616002, -2586435, -2557074, -2527919, -2498970, -2470226, -2441687, -2413353, -2385223,
  -2357297, -2329575, -2302056, -2274740, -2247626, -2220714, -2194004, -2167495, -2141187, -2115080, -2089173, -2063466,
  -2037958, -2012649, -1987538, -1962626, -1937912, -1913394, -1889074, -1864950, -1841022, -1817289, -1793752, -1770409,
  -1747260, -1724305, -1701543, -1678975, -1656598, -1634413, -1612420, -1590617, -1569005, -1547582, -1526349, -1505304,
  -1484448, -1463780, -1443299, -1423004, -1402896, -1382973, -1363236, -1343683, -1324313, -1305128, -1286124, -1267304,
  -1248664, -1230206, -1211928, -1193831, -1175912, -1158172, -1140609, -1123225, -1106016, -1088984, -1072128, -1055446,
  -1038938, -1022604, -1006442, -990453, -974634, -958987, -943510, -928201, -913062, -898090, -883285, -868647,
  -854175, -839867, -825724, -811744, -797926, -784271, -770776, -757442, -744267, -731251, -718393, -705692,
  -693147, -680758, -668523, -656442, -644514, -632738, -621113, -609638, -598313, -587136, -576108, -565225,
  -554489, -543898, -533450, -523146, -512984, -502963, -493083, -483342, -473739, -464274, -454945, -445752,
  -436693, -427768, -418975, -410314, -401783, -393382, -385110, -376965, -368946, -361053, -353285, -345639,
  -338116, -330715, -323433, -316271, -309227, -302299, -295488, -288792, -282209, -275739, -269381, -263133,
  -256994, -250964, -245041, -239224, -233513, -227905, -222400, -216996, -211693, -206489, -201384, -196376,
  -191464, -186647, -181924, -177293, -172754, -168305, -163946, -159674, -155490, -151392, -147378, -143448,
  -139601, -135835, -132149, -128542, -125014, -121562, -118186, -114885, -111658, -108503, -105419, -102406,
  -99462, -96586, -93777, -91035, -88357, -85743, -83191, -80702, -78273, -75904, -73593, -71340,
  -69143, -67002, -64916, -62883, -60903, -58974, -57095, -55267, -53487, -51754, -50068, -48428,
  -46833, -45282, -43774, -42308, -40884, -39499, -38155, -36848, -35580, -34349, -33153, -31993,
  -30868, -29776, -28717, -27691, -26695, -25731, -24796, -23890, -23013, -22163, -21341, -20545,
  -19774, -19029, -18308, -17610, -16936, -16284, -15654, -15045, -14457, -13889, -13340, -12811,
  -12300, -11807, -11331, -10872, -10429, -10003, -9591, -9195, -8813, -8445, -8091, -7750,
  -7422, -7106, -6802, -6510, -6229, -5959, -5699, -5449, -5210, -4979, -4758, -4546,
  -4342, -4146, -3959, -3779, -3606, -3440, -3282, -3130, -2984, -2845, -2711, -2583,
  -2461, -2344, -2232, -2125, -2022, -1924, -1831, -1741, -1656, -1574, -1496, -1422,
  -1351, -1283, -1218, -1157, -1098, -1042, -989, -938, -889, -843, -799, -758,
  -718, -680, -644, -610, -577, -546, -517, -489, -462, -437, -413, -391,
  -369, -349, -329, -311, -294, -277, -261, -247, -233, -219, -207, -195,
  -184, -173, -163, -153, -144, -136, -128, -120, -113, -106, -100, -94,
  -88, -83, -78, -73, -69, -65, -61, -57, -53, -50, -47, -44,
  -41, -39, -36, -34, -32, -30, -28, -26, -24, -23, -21, -20,
  -19, -17, -16, -15, -14, -13, -12, -11, -11, -10, -9, -9,
  -8, -8, -7, -7, -6, -6, -5, -5, -5, -4, -4, -4,
  -3, -3, -3, -3, -3, -2, -2, -2, -2, -2, -2, -1,
  -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1,
  -1, -1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0
>>

\* ln Phi(x) for x in micro units (linear interpolation, error below 50 micro); clamped outside the table
LogPhi(x) ==
  LET y == x + 12000000 IN
  IF y <= 0 THEN LogPhiTab[1]
  ELSE IF y >= 24000000 THEN 0
  ELSE LET i == y \div 15625
           r == (y % 15625) \div 125
           d == LogPhiTab[i + 2] - LogPhiTab[i + 1]
       IN LogPhiTab[i + 1] + (d * r) \div 125
====

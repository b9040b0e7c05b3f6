---- MODULE LnTab ----
(* Natural logarithms, micro units. *)
EXTENDS Fix
LnIntTab == <<
  0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585, 2397895, 2484907, 2564949, 2639057,
  2708050, 2772589, 2833213, 2890372, 2944439, 2995732, 3044522, 3091042, 3135494, 3178054, 3218876, 3258097, 3295837, 3332205,
  3367296, 3401197, 3433987, 3465736, 3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879, 3713572, 3737670,
  3761200, 3784190, 3806662, 3828641, 3850148, 3871201, 3891820, 3912023, 3931826, 3951244, 3970292, 3988984, 4007333, 4025352,
  4043051, 4060443, 4077537, 4094345, 4110874, 4127134, 4143135, 4158883, 4174387, 4189655, 4204693, 4219508, 4234107, 4248495,
  4262680, 4276666, 4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027, 4394449, 4406719, 4418841, 4430817,
  4442651, 4454347, 4465908, 4477337, 4488636, 4499810, 4510860, 4521789, 4532599, 4543295, 4553877, 4564348, 4574711, 4584967,
  4595120, 4605170, 4615121, 4624973, 4634729, 4644391, 4653960, 4663439, 4672829, 4682131, 4691348, 4700480, 4709530, 4718499,
  4727388, 4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492, 4795791, 4804021, 4812184, 4820282, 4828314, 4836282,
  4844187, 4852030, 4859812, 4867534, 4875197, 4882802, 4890349, 4897840, 4905275, 4912655, 4919981, 4927254, 4934474, 4941642,
  4948760, 4955827, 4962845, 4969813, 4976734, 4983607, 4990433, 4997212, 5003946, 5010635, 5017280, 5023881, 5030438, 5036953,
  5043425, 5049856, 5056246, 5062595, 5068904, 5075174, 5081404, 5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964,
  5129899, 5135798, 5141664, 5147494, 5153292, 5159055, 5164786, 5170484, 5176150, 5181784, 5187386, 5192957, 5198497, 5204007,
  5209486, 5214936, 5220356, 5225747, 5231109, 5236442, 5241747, 5247024, 5252273, 5257495, 5262690, 5267858, 5273000, 5278115,
  5283204, 5288267, 5293305, 5298317, 5303305, 5308268, 5313206, 5318120, 5323010, 5327876, 5332719, 5337538, 5342334, 5347108,
  5351858, 5356586, 5361292, 5365976, 5370638, 5375278, 5379897, 5384495, 5389072, 5393628, 5398163, 5402677, 5407172, 5411646,
  5416100, 5420535, 5424950, 5429346, 5433722, 5438079, 5442418, 5446737, 5451038, 5455321, 5459586, 5463832, 5468060, 5472271,
  5476464, 5480639, 5484797, 5488938, 5493061, 5497168, 5501258, 5505332, 5509388, 5513429, 5517453, 5521461, 5525453, 5529429,
  5533389, 5537334, 5541264, 5545177, 5549076, 5552960, 5556828, 5560682, 5564520, 5568345, 5572154, 5575949, 5579730, 5583496,
  5587249, 5590987, 5594711, 5598422, 5602119, 5605802, 5609472, 5613128, 5616771, 5620401, 5624018, 5627621, 5631212, 5634790,
  5638355, 5641907, 5645447, 5648974, 5652489, 5655992, 5659482, 5662960, 5666427, 5669881, 5673323, 5676754, 5680173, 5683580,
  5686975, 5690359, 5693732, 5697093, 5700444, 5703782, 5707110, 5710427, 5713733, 5717028, 5720312, 5723585, 5726848, 5730100,
  5733341, 5736572, 5739793, 5743003, 5746203, 5749393, 5752573, 5755742, 5758902, 5762051, 5765191, 5768321, 5771441, 5774552,
  5777652, 5780744, 5783825, 5786897, 5789960, 5793014, 5796058, 5799093, 5802118, 5805135, 5808142, 5811141, 5814131, 5817111,
  5820083, 5823046, 5826000, 5828946, 5831882, 5834811, 5837730, 5840642, 5843544, 5846439, 5849325, 5852202, 5855072, 5857933,
  5860786, 5863631, 5866468, 5869297, 5872118, 5874931, 5877736, 5880533, 5883322, 5886104, 5888878, 5891644, 5894403, 5897154,
  5899897, 5902633, 5905362, 5908083, 5910797, 5913503, 5916202, 5918894, 5921578, 5924256, 5926926, 5929589, 5932245, 5934894,
  5937536, 5940171, 5942799, 5945421, 5948035, 5950643, 5953243, 5955837, 5958425, 5961005, 5963579, 5966147, 5968708, 5971262,
  5973810, 5976351, 5978886, 5981414, 5983936, 5986452, 5988961, 5991465, 5993961, 5996452, 5998937, 6001415, 6003887, 6006353,
  6008813, 6011267, 6013715, 6016157, 6018593, 6021023, 6023448, 6025866, 6028279, 6030685, 6033086, 6035481, 6037871, 6040255,
  6042633, 6045005, 6047372, 6049733, 6052089, 6054439, 6056784, 6059123, 6061457, 6063785, 6066108, 6068426, 6070738, 6073045,
  6075346, 6077642, 6079933, 6082219, 6084499, 6086775, 6089045, 6091310, 6093570, 6095825, 6098074, 6100319, 6102559, 6104793,
  6107023, 6109248, 6111467, 6113682, 6115892, 6118097, 6120297, 6122493, 6124683, 6126869, 6129050, 6131226, 6133398, 6135565,
  6137727, 6139885, 6142037, 6144186, 6146329, 6148468, 6150603, 6152733, 6154858, 6156979, 6159095, 6161207, 6163315, 6165418,
  6167516, 6169611, 6171701, 6173786, 6175867, 6177944, 6180017, 6182085, 6184149, 6186209, 6188264, 6190315, 6192362, 6194405,
  6196444, 6198479, 6200509, 6202536, 6204558, 6206576, 6208590, 6210600, 6212606, 6214608, 6216606, 6218600, 6220590, 6222576,
  6224558, 6226537, 6228511, 6230481, 6232448, 6234411, 6236370, 6238325, 6240276, 6242223, 6244167, 6246107, 6248043, 6249975,
  6251904, 6253829, 6255750, 6257668, 6259581, 6261492, 6263398, 6265301, 6267201, 6269096, 6270988, 6272877, 6274762, 6276643,
  6278521, 6280396, 6282267, 6284134, 6285998, 6287859, 6289716, 6291569, 6293419, 6295266, 6297109, 6298949, 6300786, 6302619,
  6304449, 6306275, 6308098, 6309918, 6311735, 6313548, 6315358, 6317165, 6318968, 6320768, 6322565, 6324359, 6326149, 6327937,
  6329721, 6331502, 6333280, 6335054, 6336826, 6338594, 6340359, 6342121, 6343880, 6345636, 6347389, 6349139, 6350886, 6352629,
  6354370, 6356108, 6357842, 6359574, 6361302, 6363028, 6364751, 6366470, 6368187, 6369901, 6371612, 6373320, 6375025, 6376727,
  6378426, 6380123, 6381816, 6383507, 6385194, 6386879, 6388561, 6390241, 6391917, 6393591, 6395262, 6396930, 6398595, 6400257,
  6401917, 6403574, 6405228, 6406880, 6408529, 6410175, 6411818, 6413459, 6415097, 6416732, 6418365, 6419995, 6421622, 6423247,
  6424869, 6426488, 6428105, 6429719, 6431331, 6432940, 6434547, 6436150, 6437752, 6439350, 6440947, 6442540, 6444131, 6445720,
  6447306, 6448889, 6450470, 6452049, 6453625, 6455199, 6456770, 6458338, 6459904, 6461468, 6463029, 6464588, 6466145, 6467699,
  6469250, 6470800, 6472346, 6473891, 6475433, 6476972, 6478510, 6480045, 6481577, 6483107, 6484635, 6486161, 6487684, 6489205,
  6490724, 6492240, 6493754, 6495266, 6496775, 6498282, 6499787, 6501290, 6502790, 6504288, 6505784, 6507278, 6508769, 6510258,
  6511745, 6513230, 6514713, 6516193, 6517671, 6519147, 6520621, 6522093, 6523562, 6525030, 6526495, 6527958, 6529419, 6530878,
  6532334, 6533789, 6535241, 6536692, 6538140, 6539586, 6541030, 6542472, 6543912, 6545350, 6546785, 6548219, 6549651, 6551080,
  6552508, 6553933, 6555357, 6556778, 6558198, 6559615, 6561031, 6562444, 6563856, 6565265, 6566672, 6568078, 6569481, 6570883,
  6572283, 6573680, 6575076, 6576470, 6577861, 6579251, 6580639, 6582025, 6583409, 6584791, 6586172, 6587550, 6588926, 6590301,
  6591674, 6593045, 6594413, 6595781, 6597146, 6598509, 6599870, 6601230, 6602588, 6603944, 6605298, 6606650, 6608001, 6609349,
  6610696, 6612041, 6613384, 6614726, 6616065, 6617403, 6618739, 6620073, 6621406, 6622736, 6624065, 6625392, 6626718, 6628041,
  6629363, 6630683, 6632002, 6633318, 6634633, 6635947, 6637258, 6638568, 6639876, 6641182, 6642487, 6643790, 6645091, 6646391,
  6647688, 6648985, 6650279, 6651572, 6652863, 6654153, 6655440, 6656727, 6658011, 6659294, 6660575, 6661855, 6663133, 6664409,
  6665684, 6666957, 6668228, 6669498, 6670766, 6672033, 6673298, 6674561, 6675823, 6677083, 6678342, 6679599, 6680855, 6682109,
  6683361, 6684612, 6685861, 6687109, 6688355, 6689599, 6690842, 6692084, 6693324, 6694562, 6695799, 6697034, 6698268, 6699500,
  6700731, 6701960, 6703188, 6704414, 6705639, 6706862, 6708084, 6709304, 6710523, 6711740, 6712956, 6714171, 6715383, 6716595,
  6717805, 6719013, 6720220, 6721426, 6722630, 6723832, 6725034, 6726233, 6727432, 6728629, 6729824, 6731018, 6732211, 6733402,
  6734592, 6735780, 6736967, 6738152, 6739337, 6740519, 6741701, 6742881, 6744059, 6745236, 6746412, 6747587, 6748760, 6749931,
  6751101, 6752270, 6753438, 6754604, 6755769, 6756932, 6758095, 6759255, 6760415, 6761573, 6762730, 6763885, 6765039, 6766192,
  6767343, 6768493, 6769642, 6770789, 6771936, 6773080, 6774224, 6775366, 6776507, 6777647, 6778785, 6779922, 6781058, 6782192,
  6783325, 6784457, 6785588, 6786717, 6787845, 6788972, 6790097, 6791221, 6792344, 6793466, 6794587, 6795706, 6796824, 6797940,
  6799056, 6800170, 6801283, 6802395, 6803505, 6804615, 6805723, 6806829, 6807935, 6809039, 6810142, 6811244, 6812345, 6813445,
  6814543, 6815640, 6816736, 6817831, 6818924, 6820016, 6821107, 6822197, 6823286, 6824374, 6825460, 6826545, 6827629, 6828712,
  6829794, 6830874, 6831954, 6833032, 6834109, 6835185, 6836259, 6837333, 6838405, 6839476, 6840547, 6841615, 6842683, 6843750,
  6844815, 6845880, 6846943, 6848005, 6849066, 6850126, 6851185, 6852243, 6853299, 6854355, 6855409, 6856462, 6857514, 6858565,
  6859615, 6860664, 6861711, 6862758, 6863803, 6864848, 6865891, 6866933, 6867974, 6869014, 6870053, 6871091, 6872128, 6873164,
  6874198, 6875232, 6876265, 6877296, 6878326, 6879356, 6880384, 6881411, 6882437, 6883463, 6884487, 6885510, 6886532, 6887553,
  6888572, 6889591, 6890609, 6891626, 6892642, 6893656, 6894670, 6895683, 6896694, 6897705, 6898715, 6899723, 6900731, 6901737,
  6902743, 6903747, 6904751, 6905753, 6906755, 6907755, 6908755, 6909753, 6910751, 6911747, 6912743, 6913737, 6914731, 6915723,
  6916715, 6917706, 6918695, 6919684, 6920672, 6921658, 6922644, 6923629, 6924612, 6925595, 6926577, 6927558, 6928538, 6929517,
  6930495, 6931472, 6932448, 6933423, 6934397, 6935370, 6936343, 6937314, 6938284, 6939254, 6940222, 6941190, 6942157, 6943122,
  6944087, 6945051, 6946014, 6946976, 6947937, 6948897, 6949856, 6950815, 6951772, 6952729, 6953684, 6954639, 6955593, 6956545,
  6957497, 6958448, 6959399, 6960348, 6961296, 6962243, 6963190, 6964136, 6965080, 6966024, 6966967, 6967909, 6968850, 6969791,
  6970730, 6971669, 6972606, 6973543, 6974479, 6975414, 6976348, 6977281, 6978214, 6979145, 6980076, 6981006, 6981935, 6982863,
  6983790, 6984716, 6985642, 6986566, 6987490, 6988413, 6989335, 6990257, 6991177, 6992096, 6993015, 6993933, 6994850, 6995766,
  6996681, 6997596, 6998510, 6999422, 7000334, 7001246, 7002156, 7003065, 7003974, 7004882, 7005789, 7006695, 7007601, 7008505,
  7009409, 7010312, 7011214, 7012115, 7013016, 7013915, 7014814, 7015712, 7016610, 7017506, 7018402, 7019297, 7020191, 7021084,
  7021976, 7022868, 7023759, 7024649, 7025538, 7026427, 7027315, 7028201, 7029088, 7029973, 7030857, 7031741, 7032624, 7033506,
  7034388, 7035269, 7036148, 7037028, 7037906, 7038784, 7039660, 7040536, 7041412, 7042286, 7043160, 7044033, 7044905, 7045777,
  7046647, 7047517, 7048386, 7049255, 7050123, 7050989, 7051856, 7052721, 7053586, 7054450, 7055313, 7056175, 7057037, 7057898,
  7058758, 7059618, 7060476, 7061334, 7062192, 7063048, 7063904, 7064759, 7065613, 7066467, 7067320, 7068172, 7069023, 7069874,
  7070724, 7071573, 7072422, 7073270, 7074117, 7074963, 7075809, 7076654, 7077498, 7078342, 7079184, 7080026, 7080868, 7081709,
  7082549, 7083388, 7084226, 7085064, 7085901, 7086738, 7087574, 7088409, 7089243, 7090077, 7090910, 7091742, 7092574, 7093405,
  7094235, 7095064, 7095893, 7096721, 7097549, 7098376, 7099202, 7100027, 7100852, 7101676, 7102499, 7103322, 7104144, 7104965,
  7105786, 7106606, 7107425, 7108244, 7109062, 7109879, 7110696, 7111512, 7112327, 7113142, 7113956, 7114769, 7115582, 7116394,
  7117206, 7118016, 7118826, 7119636, 7120444, 7121252, 7122060, 7122867, 7123673, 7124478, 7125283, 7126087, 7126891, 7127694,
  7128496, 7129298, 7130099, 7130899, 7131699, 7132498, 7133296, 7134094, 7134891, 7135687, 7136483, 7137278, 7138073, 7138867,
  7139660, 7140453, 7141245, 7142037, 7142827, 7143618, 7144407, 7145196, 7145984, 7146772, 7147559, 7148346, 7149132, 7149917,
  7150701, 7151485, 7152269, 7153052, 7153834, 7154615, 7155396, 7156177, 7156956, 7157735, 7158514, 7159292, 7160069, 7160846,
  7161622, 7162397, 7163172, 7163947, 7164720, 7165493, 7166266, 7167038, 7167809, 7168580, 7169350, 7170120, 7170888, 7171657,
  7172425, 7173192, 7173958, 7174724, 7175490, 7176255, 7177019, 7177782, 7178545, 7179308, 7180070, 7180831, 7181592, 7182352,
  7183112, 7183871, 7184629, 7185387, 7186144, 7186901, 7187657, 7188413, 7189168, 7189922, 7190676, 7191429, 7192182, 7192934,
  7193686, 7194437, 7195187, 7195937, 7196687, 7197435, 7198184, 7198931, 7199678, 7200425, 7201171, 7201916, 7202661, 7203406,
  7204149, 7204893, 7205635, 7206377, 7207119, 7207860, 7208600, 7209340, 7210080, 7210818, 7211557, 7212294, 7213032, 7213768,
  7214504, 7215240, 7215975, 7216709, 7217443, 7218177, 7218910, 7219642, 7220374, 7221105, 7221836, 7222566, 7223296, 7224025,
  7224753, 7225481, 7226209, 7226936, 7227662, 7228388, 7229114, 7229839, 7230563, 7231287, 7232010, 7232733, 7233455, 7234177,
  7234898, 7235619, 7236339, 7237059, 7237778, 7238497, 7239215, 7239933, 7240650, 7241366, 7242082, 7242798, 7243513, 7244228,
  7244942, 7245655, 7246368, 7247081, 7247793, 7248504, 7249215, 7249926, 7250636, 7251345, 7252054, 7252762, 7253470, 7254178,
  7254885, 7255591, 7256297, 7257003, 7257708, 7258412, 7259116, 7259820, 7260523, 7261225, 7261927, 7262629, 7263330, 7264030,
  7264730, 7265430, 7266129, 7266827, 7267525, 7268223, 7268920, 7269617, 7270313, 7271009, 7271704, 7272398, 7273093, 7273786,
  7274480, 7275172, 7275865, 7276556, 7277248, 7277939, 7278629, 7279319, 7280008, 7280697, 7281386, 7282074, 7282761, 7283448,
  7284135, 7284821, 7285507, 7286192, 7286876, 7287561, 7288244, 7288928, 7289611, 7290293, 7290975, 7291656, 7292337, 7293018,
  7293698, 7294377, 7295056, 7295735, 7296413, 7297091, 7297768, 7298445, 7299121, 7299797, 7300473, 7301148, 7301822, 7302496,
  7303170, 7303843, 7304516, 7305188, 7305860, 7306531, 7307202, 7307873, 7308543, 7309212, 7309881, 7310550, 7311218, 7311886,
  7312553, 7313220, 7313887, 7314553, 7315218, 7315884, 7316548, 7317212, 7317876, 7318540, 7319202, 7319865, 7320527, 7321189,
  7321850, 7322510, 7323171, 7323831, 7324490, 7325149, 7325808, 7326466, 7327123, 7327781, 7328437, 7329094, 7329750, 7330405,
  7331060, 7331715, 7332369, 7333023, 7333676, 7334329, 7334982, 7335634, 7336286, 7336937, 7337588, 7338238, 7338888, 7339538,
  7340187, 7340836, 7341484, 7342132, 7342779, 7343426, 7344073, 7344719, 7345365, 7346010, 7346655, 7347300, 7347944, 7348588,
  7349231, 7349874, 7350516, 7351158, 7351800, 7352441, 7353082, 7353722, 7354362, 7355002, 7355641, 7356280, 7356918, 7357556,
  7358194, 7358831, 7359468, 7360104, 7360740, 7361375, 7362011, 7362645, 7363280, 7363914, 7364547, 7365180, 7365813, 7366445,
  7367077, 7367709, 7368340, 7368970, 7369601, 7370231, 7370860, 7371489, 7372118, 7372746, 7373374, 7374002, 7374629, 7375256,
  7375882, 7376508, 7377134, 7377759, 7378384, 7379008, 7379632, 7380256, 7380879, 7381502, 7382124, 7382746, 7383368, 7383989,
  7384610, 7385231, 7385851, 7386471, 7387090, 7387709, 7388328, 7388946, 7389564, 7390181, 7390799, 7391415, 7392032, 7392648,
  7393263, 7393878, 7394493, 7395108, 7395722, 7396335, 7396949, 7397562, 7398174, 7398786, 7399398, 7400010, 7400621, 7401231,
  7401842, 7402452, 7403061, 7403670, 7404279, 7404888, 7405496, 7406103, 7406711, 7407318, 7407924, 7408531, 7409136, 7409742,
  7410347, 7410952, 7411556, 7412160, 7412764, 7413367, 7413970, 7414573, 7415175, 7415777, 7416378, 7416980, 7417580, 7418181,
  7418781, 7419381, 7419980, 7420579, 7421178, 7421776, 7422374, 7422971, 7423568, 7424165, 7424762, 7425358, 7425954, 7426549,
  7427144, 7427739, 7428333, 7428927, 7429521, 7430114, 7430707, 7431300, 7431892, 7432484, 7433075, 7433667, 7434257, 7434848,
  7435438, 7436028, 7436617, 7437206, 7437795, 7438384, 7438972, 7439559, 7440147, 7440734, 7441320, 7441907, 7442493, 7443078,
  7443664, 7444249, 7444833, 7445418, 7446001, 7446585, 7447168, 7447751, 7448334, 7448916, 7449498, 7450080, 7450661, 7451242,
  7451822, 7452402, 7452982, 7453562, 7454141, 7454720, 7455298, 7455877, 7456455, 7457032, 7457609, 7458186, 7458763, 7459339,
  7459915, 7460490, 7461066, 7461640, 7462215, 7462789, 7463363, 7463937, 7464510, 7465083, 7465655, 7466228, 7466799, 7467371,
  7467942, 7468513, 7469084, 7469654, 7470224, 7470794, 7471363, 7471932, 7472501, 7473069, 7473637, 7474205, 7474772, 7475339,
  7475906, 7476472, 7477038, 7477604, 7478170, 7478735, 7479300, 7479864, 7480428, 7480992, 7481556, 7482119, 7482682, 7483244,
  7483807, 7484369, 7484930, 7485492, 7486053, 7486613, 7487174, 7487734, 7488294, 7488853, 7489412, 7489971, 7490529, 7491088,
  7491645, 7492203, 7492760, 7493317, 7493874, 7494430, 7494986, 7495542, 7496097, 7496652, 7497207, 7497762, 7498316, 7498870,
  7499423, 7499977, 7500529, 7501082, 7501634, 7502186, 7502738, 7503290, 7503841, 7504392, 7504942, 7505492, 7506042, 7506592,
  7507141, 7507690, 7508239, 7508787, 7509335, 7509883, 7510431, 7510978, 7511525, 7512071, 7512618, 7513164, 7513709, 7514255,
  7514800, 7515345, 7515889, 7516433, 7516977, 7517521, 7518064, 7518607, 7519150, 7519692, 7520235, 7520776, 7521318, 7521859,
  7522400, 7522941, 7523481, 7524021, 7524561, 7525101, 7525640, 7526179, 7526718, 7527256, 7527794, 7528332, 7528869, 7529406,
  7529943, 7530480, 7531016, 7531552, 7532088, 7532624, 7533159, 7533694, 7534228, 7534763, 7535297, 7535830, 7536364, 7536897,
  7537430, 7537963, 7538495, 7539027, 7539559, 7540090, 7540622, 7541152, 7541683, 7542213, 7542744, 7543273, 7543803, 7544332,
  7544861, 7545390, 7545918, 7546446, 7546974, 7547502, 7548029, 7548556, 7549083, 7549609, 7550135, 7550661, 7551187, 7551712,
  7552237, 7552762, 7553287, 7553811, 7554335, 7554859, 7555382, 7555905, 7556428, 7556951, 7557473, 7557995, 7558517, 7559038,
  7559559, 7560080, 7560601, 7561122, 7561642, 7562162, 7562681, 7563201, 7563720, 7564238, 7564757, 7565275, 7565793, 7566311,
  7566828, 7567346, 7567863, 7568379, 7568896, 7569412, 7569928, 7570443, 7570959, 7571474, 7571988, 7572503, 7573017, 7573531,
  7574045, 7574558, 7575072, 7575585, 7576097, 7576610, 7577122, 7577634, 7578145, 7578657, 7579168, 7579679, 7580189, 7580700,
  7581210, 7581720, 7582229, 7582738, 7583248, 7583756, 7584265, 7584773, 7585281, 7585789, 7586296, 7586804, 7587311, 7587817,
  7588324, 7588830, 7589336, 7589842, 7590347, 7590852, 7591357, 7591862, 7592366, 7592870, 7593374, 7593878, 7594381, 7594884,
  7595387, 7595890, 7596392, 7596894, 7597396, 7597898, 7598399, 7598900, 7599401, 7599902, 7600402, 7600902, 7601402, 7601902,
  7602401, 7602900, 7603399, 7603898, 7604396, 7604894, 7605392, 7605890, 7606387, 7606885, 7607381, 7607878, 7608374, 7608871,
  7609367, 7609862, 7610358, 7610853, 7611348, 7611842, 7612337, 7612831, 7613325, 7613819, 7614312, 7614805, 7615298, 7615791,
  7616284, 7616776, 7617268, 7617760, 7618251, 7618742, 7619233, 7619724, 7620215, 7620705, 7621195, 7621685, 7622175, 7622664,
  7623153, 7623642, 7624131
>>
Ln2 == 693147
LnPi == 1144730
Ln2Pi == 1837877
LnOne == 13815511
RECURSIVE Shifted(_, _)
\* <<k, y>> with y = x div 2^k in 1024..2047
Shifted(x, k) == IF x \div (2 ^ k) <= 2047 THEN k ELSE Shifted(x, k + 1)
LnOfInt(x) ==                      \* any integer 1 .. 2^31 - 1
  IF x <= 2047 THEN LnIntTab[x]
  ELSE LET k == Shifted(x, 1)
           m == x \div (2 ^ k)
           f == FracDigits(x % (2 ^ k), 2 ^ k, 6)
           r == f \div m
       IN k * Ln2 + (k * 18) \div 100 + LnIntTab[m] + r - (r * (r \div 2000)) \div 1000
\* logarithm of a value given in micro units
LnM(x) == LnOfInt(x) - LnOne
RECURSIVE LnFactI(_)
LnFactI(n) == IF n <= 1 THEN 0 ELSE LnIntTab[n] + LnFactI(n - 1)
RECURSIVE LnHalfProd(_)
LnHalfProd(k) == IF k = 0 THEN 0 ELSE LnIntTab[2 * k - 1] - Ln2 + LnHalfProd(k - 1)
\* ln Gamma(h/2 + 1) for a non-negative count given in halves
LnGammaHalf(h) == IF h % 2 = 0 THEN LnFactI(h \div 2) ELSE LnPi \div 2 + LnHalfProd((h + 1) \div 2)
====

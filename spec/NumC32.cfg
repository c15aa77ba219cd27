SPECIFICATION Spec
CONSTANTS
  What = "bits"
  Bound = {0, 1, 2, 3, 4, 7, 8, 14, 15, 16, 21, 28, 31, 32, 35, 42, 49, 56, 63, 64, 70, 77, 84, 91, 98, 105, 112, 119, 126, 127, 128, 133, 140, 147, 154, 161, 168, 175, 182, 189, 196, 203, 210, 217, 224, 231, 238, 245, 252, 255, 256, 259, 266, 273, 280, 287, 294, 301, 308, 315, 322, 329, 336, 343, 350, 357, 364, 371, 378, 385, 392, 399, 406, 413, 420, 427, 434, 441, 448, 455, 462, 469, 476, 483, 490, 497, 504, 511, 512, 518, 525, 532, 539, 546, 553, 560, 567, 574, 581, 588, 595, 602, 609, 616, 623, 630, 637, 644, 651, 658, 665, 672, 679, 686, 693, 700, 707, 714, 721, 728, 735, 742, 749, 756, 763, 770, 777, 784, 791, 798, 805, 812, 819, 826, 833, 840, 847, 854, 861, 868, 875, 882, 889, 896, 903, 910, 917, 924, 931, 938, 945, 952, 959, 966, 973, 980, 987, 994, 1001, 1008, 1015, 1022, 1023, 1024, 1029, 1036, 1043, 1050, 1057, 1064, 1071, 1078, 1085, 1092, 1099, 1106, 1113, 1120, 1127, 1134, 1141, 1148, 1155, 1162, 1169, 1176, 1183, 1190, 1197, 1204, 1211, 1218, 1225, 1232, 1239, 1246, 1253, 1260, 1267, 1274, 1281, 1288, 1295, 1302, 1309, 1316, 1323, 1330, 1337, 1344, 1351, 1358, 1365, 1372, 1379, 1386, 1393, 1400, 1407, 1414, 1421, 1428, 1435, 1442, 1449, 1456, 1463, 1470, 1477, 1484, 1491, 1498, 1505, 1512, 1519, 1526, 1533, 1540, 1547, 1554, 1561, 1568, 1575, 1582, 1589, 1596, 1603, 1610, 1617, 1624, 1631, 1638, 1645, 1652, 1659, 1666, 1673, 1680, 1687, 1694, 1701, 1708, 1715, 1722, 1729, 1736, 1743, 1750, 1757, 1764, 1771, 1778, 1785, 1792, 1799, 1806, 1813, 1820, 1827, 1834, 1841, 1848, 1855, 1862, 1869, 1876, 1883, 1890, 1897, 1904, 1911, 1918, 1925, 1932, 1939, 1946, 1953, 1960, 1967, 1974, 1981, 1988, 1995, 2002, 2009, 2016, 2023, 2030, 2037, 2044, 2047, 2048, 2051, 2058, 2065, 2072, 2079, 2086, 2093, 2100, 2107, 2114, 2121, 2128, 2135, 2142, 2149, 2156, 2163, 2170, 2177, 2184, 2191, 2198, 2205, 2212, 2219, 2226, 2233, 2240, 2247, 2254, 2261, 2268, 2275, 2282, 2289, 2296, 2303, 2310, 2317, 2324, 2331, 2338, 2345, 2352, 2359, 2366, 2373, 2380, 2387, 2394, 2401, 2408, 2415, 2422, 2429, 2436, 2443, 2450, 2457, 2464, 2471, 2478, 2485, 2492, 2499, 2506, 2513, 2520, 2527, 2534, 2541, 2548, 2555, 2562, 2569, 2576, 2583, 2590, 2597, 2604, 2611, 2618, 2625, 2632, 2639, 2646, 2653, 2660, 2667, 2674, 2681, 2688, 2695, 2702, 2709, 2716, 2723, 2730, 2737, 2744, 2751, 2758, 2765, 2772, 2779, 2786, 2793, 2800, 2807, 2814, 2821, 2828, 2835, 2842, 2849, 2856, 2863, 2870, 2877, 2884, 2891, 2898, 2905, 2912, 2919, 2926, 2933, 2940, 2947, 2954, 2961, 2968, 2975, 2982, 2989, 2996, 3003, 3010, 3017, 3024, 3031, 3038, 3045, 3052, 3059, 3066, 3073, 3080, 3087, 3094, 3101, 3108, 3115, 3122, 3129, 3136, 3143, 3150, 3157, 3164, 3171, 3178, 3185, 3192, 3199, 3206, 3213, 3220, 3227, 3234, 3241, 3248, 3255, 3262, 3269, 3276, 3283, 3290, 3297, 3304, 3311, 3318, 3325, 3332, 3339, 3346, 3353, 3360, 3367, 3374, 3381, 3388, 3395, 3402, 3409, 3416, 3423, 3430, 3437, 3444, 3451, 3458, 3465, 3472, 3479, 3486, 3493, 3500, 3507, 3514, 3521, 3528, 3535, 3542, 3549, 3556, 3563, 3570, 3577, 3584, 3591, 3598, 3605, 3612, 3619, 3626, 3633, 3640, 3647, 3654, 3661, 3668, 3675, 3682, 3689, 3696, 3703, 3710, 3717, 3724, 3731, 3738, 3745, 3752, 3759, 3766, 3773, 3780, 3787, 3794, 3801, 3808, 3815, 3822, 3829, 3836, 3843, 3850, 3857, 3864, 3871, 3878, 3885, 3892, 3899, 3906, 3913, 3920, 3927, 3934, 3941, 3948, 3955, 3962, 3969, 3976, 3983, 3990, 3997, 4004, 4011, 4018, 4025, 4032, 4039, 4046, 4053, 4060, 4067, 4074, 4081, 4088, 4095, 4096, 4102, 4109, 4116, 4123, 4130, 4137, 4144, 4151, 4158, 4165, 4172, 4179, 4186, 4193, 4200, 4207, 4214, 4221, 4228, 4235, 4242, 4249, 4256, 4263, 4270, 4277, 4284, 4291, 4298, 4305, 4312, 4319, 4326, 4333, 4340, 4347, 4354, 4361, 4368, 4375, 4382, 4389, 4396, 4403, 4410, 4417, 4424, 4431, 4438, 4445, 4452, 4459, 4466, 4473, 4480, 4487, 4494, 4501, 4508, 4515, 4522, 4529, 4536, 4543, 4550, 4557, 4564, 4571, 4578, 4585, 4592, 4599, 4606, 4613, 4620, 4627, 4634, 4641, 4648, 4655, 4662, 4669, 4676, 4683, 4690, 4697, 4704, 4711, 4718, 4725, 4732, 4739, 4746, 4753, 4760, 4767, 4774, 4781, 4788, 4795, 4802, 4809, 4816, 4823, 4830, 4837, 4844, 4851, 4858, 4865, 4872, 4879, 4886, 4893, 4900, 4907, 4914, 4921, 4928, 4935, 4942, 4949, 4956, 4963, 4970, 4977, 4984, 4991, 4998, 5005, 5012, 5019, 5026, 5033, 5040, 5047, 5054, 5061, 5068, 5075, 5082, 5089, 5096, 5103, 5110, 5117, 5124, 5131, 5138, 5145, 5152, 5159, 5166, 5173, 5180, 5187, 5194, 5201, 5208, 5215, 5222, 5229, 5236, 5243, 5250, 5257, 5264, 5271, 5278, 5285, 5292, 5299, 5306, 5313, 5320, 5327, 5334, 5341, 5348, 5355, 5362, 5369, 5376, 5383, 5390, 5397, 5404, 5411, 5418, 5425, 5432, 5439, 5446, 5453, 5460, 5467, 5474, 5481, 5488, 5495, 5502, 5509, 5516, 5523, 5530, 5537, 5544, 5551, 5558, 5565, 5572, 5579, 5586, 5593, 5600, 5607, 5614, 5621, 5628, 5635, 5642, 5649, 5656, 5663, 5670, 5677, 5684, 5691, 5698, 5705, 5712, 5719, 5726, 5733, 5740, 5747, 5754, 5761, 5768, 5775, 5782, 5789, 5796, 5803, 5810, 5817, 5824, 5831, 5838, 5845, 5852, 5859, 5866, 5873, 5880, 5887, 5894, 5901, 5908, 5915, 5922, 5929, 5936, 5943, 5950, 5957, 5964, 5971, 5978, 5985, 5992, 5999, 6006, 6013, 6020, 6027, 6034, 6041, 6048, 6055, 6062, 6069, 6076, 6083, 6090, 6097, 6104, 6111, 6118, 6125, 6132, 6139, 6146, 6153, 6160, 6167, 6174, 6181, 6188, 6195, 6202, 6209, 6216, 6223, 6230, 6237, 6244, 6251, 6258, 6265, 6272, 6279, 6286, 6293, 6300, 6307, 6314, 6321, 6328, 6335, 6342, 6349, 6356, 6363, 6370, 6377, 6384, 6391, 6398, 6405, 6412, 6419, 6426, 6433, 6440, 6447, 6454, 6461, 6468, 6475, 6482, 6489, 6496, 6503, 6510, 6517, 6524, 6531, 6538, 6545, 6552, 6559, 6566, 6573, 6580, 6587, 6594, 6601, 6608, 6615, 6622, 6629, 6636, 6643, 6650, 6657, 6664, 6671, 6678, 6685, 6692, 6699, 6706, 6713, 6720, 6727, 6734, 6741, 6748, 6755, 6762, 6769, 6776, 6783, 6790, 6797, 6804, 6811, 6818, 6825, 6832, 6839, 6846, 6853, 6860, 6867, 6874, 6881, 6888, 6895, 6902, 6909, 6916, 6923, 6930, 6937, 6944, 6951, 6958, 6965, 6972, 6979, 6986, 6993, 7000, 7007, 7014, 7021, 7028, 7035, 7042, 7049, 7056, 7063, 7070, 7077, 7084, 7091, 7098, 7105, 7112, 7119, 7126, 7133, 7140, 7147, 7154, 7161, 7168, 7175, 7182, 7189, 7196, 7203, 7210, 7217, 7224, 7231, 7238, 7245, 7252, 7259, 7266, 7273, 7280, 7287, 7294, 7301, 7308, 7315, 7322, 7329, 7336, 7343, 7350, 7357, 7364, 7371, 7378, 7385, 7392, 7399, 7406, 7413, 7420, 7427, 7434, 7441, 7448, 7455, 7462, 7469, 7476, 7483, 7490, 7497, 7504, 7511, 7518, 7525, 7532, 7539, 7546, 7553, 7560, 7567, 7574, 7581, 7588, 7595, 7602, 7609, 7616, 7623, 7630, 7637, 7644, 7651, 7658, 7665, 7672, 7679, 7686, 7693, 7700, 7707, 7714, 7721, 7728, 7735, 7742, 7749, 7756, 7763, 7770, 7777, 7784, 7791, 7798, 7805, 7812, 7819, 7826, 7833, 7840, 7847, 7854, 7861, 7868, 7875, 7882, 7889, 7896, 7903, 7910, 7917, 7924, 7931, 7938, 7945, 7952, 7959, 7966, 7973, 7980, 7987, 7994, 8001, 8008, 8015, 8022, 8029, 8036, 8043, 8050, 8057, 8064, 8071, 8078, 8085, 8092, 8099, 8106, 8113, 8120, 8127, 8134, 8141, 8148, 8155, 8162, 8169, 8176, 8183, 8190, 8191, 8192, 8197, 8204, 8211, 8218, 8225, 8232, 8239, 8246, 8253, 8260, 8267, 8274, 8281, 8288, 8295, 8302, 8309, 8316, 8323, 8330, 8337, 8344, 8351, 8358, 8365, 8372, 8379, 8386, 8393, 8400, 8407, 8414, 8421, 8428, 8435, 8442, 8449, 8456, 8463, 8470, 8477, 8484, 8491, 8498, 8505, 8512, 8519, 8526, 8533, 8540, 8547, 8554, 8561, 8568, 8575, 8582, 8589, 8596, 8603, 8610, 8617, 8624, 8631, 8638, 8645, 8652, 8659, 8666, 8673, 8680, 8687, 8694, 8701, 8708, 8715, 8722, 8729, 8736, 8743, 8750, 8757, 8764, 8771, 8778, 8785, 8792, 8799, 8806, 8813, 8820, 8827, 8834, 8841, 8848, 8855, 8862, 8869, 8876, 8883, 8890, 8897, 8904, 8911, 8918, 8925, 8932, 8939, 8946, 8953, 8960, 8967, 8974, 8981, 8988, 8995, 9002, 9009, 9016, 9023, 9030, 9037, 9044, 9051, 9058, 9065, 9072, 9079, 9086, 9093, 9100, 9107, 9114, 9121, 9128, 9135, 9142, 9149, 9156, 9163, 9170, 9177, 9184, 9191, 9198, 9205, 9212, 9219, 9226, 9233, 9240, 9247, 9254, 9261, 9268, 9275, 9282, 9289, 9296, 9303, 9310, 9317, 9324, 9331, 9338, 9345, 9352, 9359, 9366, 9373, 9380, 9387, 9394, 9401, 9408, 9415, 9422, 9429, 9436, 9443, 9450, 9457, 9464, 9471, 9478, 9485, 9492, 9499, 9506, 9513, 9520, 9527, 9534, 9541, 9548, 9555, 9562, 9569, 9576, 9583, 9590, 9597, 9604, 9611, 9618, 9625, 9632, 9639, 9646, 9653, 9660, 9667, 9674, 9681, 9688, 9695, 9702, 9709, 9716, 9723, 9730, 9737, 9744, 9751, 9758, 9765, 9772, 9779, 9786, 9793, 9800, 9807, 9814, 9821, 9828, 9835, 9842, 9849, 9856, 9863, 9870, 9877, 9884, 9891, 9898, 9905, 9912, 9919, 9926, 9933, 9940, 9947, 9954, 9961, 9968, 9975, 9982, 9989, 9996, 10003, 10010, 10017, 10024, 10031, 10038, 10045, 10052, 10059, 10066, 10073, 10080, 10087, 10094, 10101, 10108, 10115, 10122, 10129, 10136, 10143, 10150, 10157, 10164, 10171, 10178, 10185, 10192, 10199, 10206, 10213, 10220, 10227, 10234, 10241, 10248, 10255, 10262, 10269, 10276, 10283, 10290, 10297, 10304, 10311, 10318, 10325, 10332, 10339, 10346, 10353, 10360, 10367, 10374, 10381, 10388, 10395, 10402, 10409, 10416, 10423, 10430, 10437, 10444, 10451, 10458, 10465, 10472, 10479, 10486, 10493, 10500, 10507, 10514, 10521, 10528, 10535, 10542, 10549, 10556, 10563, 10570, 10577, 10584, 10591, 10598, 10605, 10612, 10619, 10626, 10633, 10640, 10647, 10654, 10661, 10668, 10675, 10682, 10689, 10696, 10703, 10710, 10717, 10724, 10731, 10738, 10745, 10752, 10759, 10766, 10773, 10780, 10787, 10794, 10801, 10808, 10815, 10822, 10829, 10836, 10843, 10850, 10857, 10864, 10871, 10878, 10885, 10892, 10899, 10906, 10913, 10920, 10927, 10934, 10941, 10948, 10955, 10962, 10969, 10976, 10983, 10990, 10997, 11004, 11011, 11018, 11025, 11032, 11039, 11046, 11053, 11060, 11067, 11074, 11081, 11088, 11095, 11102, 11109, 11116, 11123, 11130, 11137, 11144, 11151, 11158, 11165, 11172, 11179, 11186, 11193, 11200, 11207, 11214, 11221, 11228, 11235, 11242, 11249, 11256, 11263, 11270, 11277, 11284, 11291, 11298, 11305, 11312, 11319, 11326, 11333, 11340, 11347, 11354, 11361, 11368, 11375, 11382, 11389, 11396, 11403, 11410, 11417, 11424, 11431, 11438, 11445, 11452, 11459, 11466, 11473, 11480, 11487, 11494, 11501, 11508, 11515, 11522, 11529, 11536, 11543, 11550, 11557, 11564, 11571, 11578, 11585, 11592, 11599, 11606, 11613, 11620, 11627, 11634, 11641, 11648, 11655, 11662, 11669, 11676, 11683, 11690, 11697, 11704, 11711, 11718, 11725, 11732, 11739, 11746, 11753, 11760, 11767, 11774, 11781, 11788, 11795, 11802, 11809, 11816, 11823, 11830, 11837, 11844, 11851, 11858, 11865, 11872, 11879, 11886, 11893, 11900, 11907, 11914, 11921, 11928, 11935, 11942, 11949, 11956, 11963, 11970, 11977, 11984, 11991, 11998, 12005, 12012, 12019, 12026, 12033, 12040, 12047, 12054, 12061, 12068, 12075, 12082, 12089, 12096, 12103, 12110, 12117, 12124, 12131, 12138, 12145, 12152, 12159, 12166, 12173, 12180, 12187, 12194, 12201, 12208, 12215, 12222, 12229, 12236, 12243, 12250, 12257, 12264, 12271, 12278, 12285, 12292, 12299, 12306, 12313, 12320, 12327, 12334, 12341, 12348, 12355, 12362, 12369, 12376, 12383, 12390, 12397, 12404, 12411, 12418, 12425, 12432, 12439, 12446, 12453, 12460, 12467, 12474, 12481, 12488, 12495, 12502, 12509, 12516, 12523, 12530, 12537, 12544, 12551, 12558, 12565, 12572, 12579, 12586, 12593, 12600, 12607, 12614, 12621, 12628, 12635, 12642, 12649, 12656, 12663, 12670, 12677, 12684, 12691, 12698, 12705, 12712, 12719, 12726, 12733, 12740, 12747, 12754, 12761, 12768, 12775, 12782, 12789, 12796, 12803, 12810, 12817, 12824, 12831, 12838, 12845, 12852, 12859, 12866, 12873, 12880, 12887, 12894, 12901, 12908, 12915, 12922, 12929, 12936, 12943, 12950, 12957, 12964, 12971, 12978, 12985, 12992, 12999, 13006, 13013, 13020, 13027, 13034, 13041, 13048, 13055, 13062, 13069, 13076, 13083, 13090, 13097, 13104, 13111, 13118, 13125, 13132, 13139, 13146, 13153, 13160, 13167, 13174, 13181, 13188, 13195, 13202, 13209, 13216, 13223, 13230, 13237, 13244, 13251, 13258, 13265, 13272, 13279, 13286, 13293, 13300, 13307, 13314, 13321, 13328, 13335, 13342, 13349, 13356, 13363, 13370, 13377, 13384, 13391, 13398, 13405, 13412, 13419, 13426, 13433, 13440, 13447, 13454, 13461, 13468, 13475, 13482, 13489, 13496, 13503, 13510, 13517, 13524, 13531, 13538, 13545, 13552, 13559, 13566, 13573, 13580, 13587, 13594, 13601, 13608, 13615, 13622, 13629, 13636, 13643, 13650, 13657, 13664, 13671, 13678, 13685, 13692, 13699, 13706, 13713, 13720, 13727, 13734, 13741, 13748, 13755, 13762, 13769, 13776, 13783, 13790, 13797, 13804, 13811, 13818, 13825, 13832, 13839, 13846, 13853, 13860, 13867, 13874, 13881, 13888, 13895, 13902, 13909, 13916, 13923, 13930, 13937, 13944, 13951, 13958, 13965, 13972, 13979, 13986, 13993, 14000, 14007, 14014, 14021, 14028, 14035, 14042, 14049, 14056, 14063, 14070, 14077, 14084, 14091, 14098, 14105, 14112, 14119, 14126, 14133, 14140, 14147, 14154, 14161, 14168, 14175, 14182, 14189, 14196, 14203, 14210, 14217, 14224, 14231, 14238, 14245, 14252, 14259, 14266, 14273, 14280, 14287, 14294, 14301, 14308, 14315, 14322, 14329, 14336, 14343, 14350, 14357, 14364, 14371, 14378, 14385, 14392, 14399, 14406, 14413, 14420, 14427, 14434, 14441, 14448, 14455, 14462, 14469, 14476, 14483, 14490, 14497, 14504, 14511, 14518, 14525, 14532, 14539, 14546, 14553, 14560, 14567, 14574, 14581, 14588, 14595, 14602, 14609, 14616, 14623, 14630, 14637, 14644, 14651, 14658, 14665, 14672, 14679, 14686, 14693, 14700, 14707, 14714, 14721, 14728, 14735, 14742, 14749, 14756, 14763, 14770, 14777, 14784, 14791, 14798, 14805, 14812, 14819, 14826, 14833, 14840, 14847, 14854, 14861, 14868, 14875, 14882, 14889, 14896, 14903, 14910, 14917, 14924, 14931, 14938, 14945, 14952, 14959, 14966, 14973, 14980, 14987, 14994, 15001, 15008, 15015, 15022, 15029, 15036, 15043, 15050, 15057, 15064, 15071, 15078, 15085, 15092, 15099, 15106, 15113, 15120, 15127, 15134, 15141, 15148, 15155, 15162, 15169, 15176, 15183, 15190, 15197, 15204, 15211, 15218, 15225, 15232, 15239, 15246, 15253, 15260, 15267, 15274, 15281, 15288, 15295, 15302, 15309, 15316, 15323, 15330, 15337, 15344, 15351, 15358, 15365, 15372, 15379, 15386, 15393, 15400, 15407, 15414, 15421, 15428, 15435, 15442, 15449, 15456, 15463, 15470, 15477, 15484, 15491, 15498, 15505, 15512, 15519, 15526, 15533, 15540, 15547, 15554, 15561, 15568, 15575, 15582, 15589, 15596, 15603, 15610, 15617, 15624, 15631, 15638, 15645, 15652, 15659, 15666, 15673, 15680, 15687, 15694, 15701, 15708, 15715, 15722, 15729, 15736, 15743, 15750, 15757, 15764, 15771, 15778, 15785, 15792, 15799, 15806, 15813, 15820, 15827, 15834, 15841, 15848, 15855, 15862, 15869, 15876, 15883, 15890, 15897, 15904, 15911, 15918, 15925, 15932, 15939, 15946, 15953, 15960, 15967, 15974, 15981, 15988, 15995, 16002, 16009, 16016, 16023, 16030, 16037, 16044, 16051, 16058, 16065, 16072, 16079, 16086, 16093, 16100, 16107, 16114, 16121, 16128, 16135, 16142, 16149, 16156, 16163, 16170, 16177, 16184, 16191, 16198, 16205, 16212, 16219, 16226, 16233, 16240, 16247, 16254, 16261, 16268, 16275, 16282, 16289, 16296, 16303, 16310, 16317, 16324, 16331, 16338, 16345, 16352, 16359, 16366, 16373, 16380, 16383, 16384, 16387, 16394, 16401, 16408, 16415, 16422, 16429, 16436, 16443, 16450, 16457, 16464, 16471, 16478, 16485, 16492, 16499, 16506, 16513, 16520, 16527, 16534, 16541, 16548, 16555, 16562, 16569, 16576, 16583, 16590, 16597, 16604, 16611, 16618, 16625, 16632, 16639, 16646, 16653, 16660, 16667, 16674, 16681, 16688, 16695, 16702, 16709, 16716, 16723, 16730, 16737, 16744, 16751, 16758, 16765, 16772, 16779, 16786, 16793, 16800, 16807, 16814, 16821, 16828, 16835, 16842, 16849, 16856, 16863, 16870, 16877, 16884, 16891, 16898, 16905, 16912, 16919, 16926, 16933, 16940, 16947, 16954, 16961, 16968, 16975, 16982, 16989, 16996, 17003, 17010, 17017, 17024, 17031, 17038, 17045, 17052, 17059, 17066, 17073, 17080, 17087, 17094, 17101, 17108, 17115, 17122, 17129, 17136, 17143, 17150, 17157, 17164, 17171, 17178, 17185, 17192, 17199, 17206, 17213, 17220, 17227, 17234, 17241, 17248, 17255, 17262, 17269, 17276, 17283, 17290, 17297, 17304, 17311, 17318, 17325, 17332, 17339, 17346, 17353, 17360, 17367, 17374, 17381, 17388, 17395, 17402, 17409, 17416, 17423, 17430, 17437, 17444, 17451, 17458, 17465, 17472, 17479, 17486, 17493, 17500, 17507, 17514, 17521, 17528, 17535, 17542, 17549, 17556, 17563, 17570, 17577, 17584, 17591, 17598, 17605, 17612, 17619, 17626, 17633, 17640, 17647, 17654, 17661, 17668, 17675, 17682, 17689, 17696, 17703, 17710, 17717, 17724, 17731, 17738, 17745, 17752, 17759, 17766, 17773, 17780, 17787, 17794, 17801, 17808, 17815, 17822, 17829, 17836, 17843, 17850, 17857, 17864, 17871, 17878, 17885, 17892, 17899, 17906, 17913, 17920, 17927, 17934, 17941, 17948, 17955, 17962, 17969, 17976, 17983, 17990, 17997, 18004, 18011, 18018, 18025, 18032, 18039, 18046, 18053, 18060, 18067, 18074, 18081, 18088, 18095, 18102, 18109, 18116, 18123, 18130, 18137, 18144, 18151, 18158, 18165, 18172, 18179, 18186, 18193, 18200, 18207, 18214, 18221, 18228, 18235, 18242, 18249, 18256, 18263, 18270, 18277, 18284, 18291, 18298, 18305, 18312, 18319, 18326, 18333, 18340, 18347, 18354, 18361, 18368, 18375, 18382, 18389, 18396, 18403, 18410, 18417, 18424, 18431, 18438, 18445, 18452, 18459, 18466, 18473, 18480, 18487, 18494, 18501, 18508, 18515, 18522, 18529, 18536, 18543, 18550, 18557, 18564, 18571, 18578, 18585, 18592, 18599, 18606, 18613, 18620, 18627, 18634, 18641, 18648, 18655, 18662, 18669, 18676, 18683, 18690, 18697, 18704, 18711, 18718, 18725, 18732, 18739, 18746, 18753, 18760, 18767, 18774, 18781, 18788, 18795, 18802, 18809, 18816, 18823, 18830, 18837, 18844, 18851, 18858, 18865, 18872, 18879, 18886, 18893, 18900, 18907, 18914, 18921, 18928, 18935, 18942, 18949, 18956, 18963, 18970, 18977, 18984, 18991, 18998, 19005, 19012, 19019, 19026, 19033, 19040, 19047, 19054, 19061, 19068, 19075, 19082, 19089, 19096, 19103, 19110, 19117, 19124, 19131, 19138, 19145, 19152, 19159, 19166, 19173, 19180, 19187, 19194, 19201, 19208, 19215, 19222, 19229, 19236, 19243, 19250, 19257, 19264, 19271, 19278, 19285, 19292, 19299, 19306, 19313, 19320, 19327, 19334, 19341, 19348, 19355, 19362, 19369, 19376, 19383, 19390, 19397, 19404, 19411, 19418, 19425, 19432, 19439, 19446, 19453, 19460, 19467, 19474, 19481, 19488, 19495, 19502, 19509, 19516, 19523, 19530, 19537, 19544, 19551, 19558, 19565, 19572, 19579, 19586, 19593, 19600, 19607, 19614, 19621, 19628, 19635, 19642, 19649, 19656, 19663, 19670, 19677, 19684, 19691, 19698, 19705, 19712, 19719, 19726, 19733, 19740, 19747, 19754, 19761, 19768, 19775, 19782, 19789, 19796, 19803, 19810, 19817, 19824, 19831, 19838, 19845, 19852, 19859, 19866, 19873, 19880, 19887, 19894, 19901, 19908, 19915, 19922, 19929, 19936, 19943, 19950, 19957, 19964, 19971, 19978, 19985, 19992, 19999, 20006, 20013, 20020, 20027, 20034, 20041, 20048, 20055, 20062, 20069, 20076, 20083, 20090, 20097, 20104, 20111, 20118, 20125, 20132, 20139, 20146, 20153, 20160, 20167, 20174, 20181, 20188, 20195, 20202, 20209, 20216, 20223, 20230, 20237, 20244, 20251, 20258, 20265, 20272, 20279, 20286, 20293, 20300, 20307, 20314, 20321, 20328, 20335, 20342, 20349, 20356, 20363, 20370, 20377, 20384, 20391, 20398, 20405, 20412, 20419, 20426, 20433, 20440, 20447, 20454, 20461, 20468, 20475, 20482, 20489, 20496, 20503, 20510, 20517, 20524, 20531, 20538, 20545, 20552, 20559, 20566, 20573, 20580, 20587, 20594, 20601, 20608, 20615, 20622, 20629, 20636, 20643, 20650, 20657, 20664, 20671, 20678, 20685, 20692, 20699, 20706, 20713, 20720, 20727, 20734, 20741, 20748, 20755, 20762, 20769, 20776, 20783, 20790, 20797, 20804, 20811, 20818, 20825, 20832, 20839, 20846, 20853, 20860, 20867, 20874, 20881, 20888, 20895, 20902, 20909, 20916, 20923, 20930, 20937, 20944, 20951, 20958, 20965, 20972, 20979, 20986, 20993, 21000, 21007, 21014, 21021, 21028, 21035, 21042, 21049, 21056, 21063, 21070, 21077, 21084, 21091, 21098, 21105, 21112, 21119, 21126, 21133, 21140, 21147, 21154, 21161, 21168, 21175, 21182, 21189, 21196, 21203, 21210, 21217, 21224, 21231, 21238, 21245, 21252, 21259, 21266, 21273, 21280, 21287, 21294, 21301, 21308, 21315, 21322, 21329, 21336, 21343, 21350, 21357, 21364, 21371, 21378, 21385, 21392, 21399, 21406, 21413, 21420, 21427, 21434, 21441, 21448, 21455, 21462, 21469, 21476, 21483, 21490, 21497, 21504, 21511, 21518, 21525, 21532, 21539, 21546, 21553, 21560, 21567, 21574, 21581, 21588, 21595, 21602, 21609, 21616, 21623, 21630, 21637, 21644, 21651, 21658, 21665, 21672, 21679, 21686, 21693, 21700, 21707, 21714, 21721, 21728, 21735, 21742, 21749, 21756, 21763, 21770, 21777, 21784, 21791, 21798, 21805, 21812, 21819, 21826, 21833, 21840, 21847, 21854, 21861, 21868, 21875, 21882, 21889, 21896, 21903, 21910, 21917, 21924, 21931, 21938, 21945, 21952, 21959, 21966, 21973, 21980, 21987, 21994, 22001, 22008, 22015, 22022, 22029, 22036, 22043, 22050, 22057, 22064, 22071, 22078, 22085, 22092, 22099, 22106, 22113, 22120, 22127, 22134, 22141, 22148, 22155, 22162, 22169, 22176, 22183, 22190, 22197, 22204, 22211, 22218, 22225, 22232, 22239, 22246, 22253, 22260, 22267, 22274, 22281, 22288, 22295, 22302, 22309, 22316, 22323, 22330, 22337, 22344, 22351, 22358, 22365, 22372, 22379, 22386, 22393, 22400, 22407, 22414, 22421, 22428, 22435, 22442, 22449, 22456, 22463, 22470, 22477, 22484, 22491, 22498, 22505, 22512, 22519, 22526, 22533, 22540, 22547, 22554, 22561, 22568, 22575, 22582, 22589, 22596, 22603, 22610, 22617, 22624, 22631, 22638, 22645, 22652, 22659, 22666, 22673, 22680, 22687, 22694, 22701, 22708, 22715, 22722, 22729, 22736, 22743, 22750, 22757, 22764, 22771, 22778, 22785, 22792, 22799, 22806, 22813, 22820, 22827, 22834, 22841, 22848, 22855, 22862, 22869, 22876, 22883, 22890, 22897, 22904, 22911, 22918, 22925, 22932, 22939, 22946, 22953, 22960, 22967, 22974, 22981, 22988, 22995, 23002, 23009, 23016, 23023, 23030, 23037, 23044, 23051, 23058, 23065, 23072, 23079, 23086, 23093, 23100, 23107, 23114, 23121, 23128, 23135, 23142, 23149, 23156, 23163, 23170, 23177, 23184, 23191, 23198, 23205, 23212, 23219, 23226, 23233, 23240, 23247, 23254, 23261, 23268, 23275, 23282, 23289, 23296, 23303, 23310, 23317, 23324, 23331, 23338, 23345, 23352, 23359, 23366, 23373, 23380, 23387, 23394, 23401, 23408, 23415, 23422, 23429, 23436, 23443, 23450, 23457, 23464, 23471, 23478, 23485, 23492, 23499, 23506, 23513, 23520, 23527, 23534, 23541, 23548, 23555, 23562, 23569, 23576, 23583, 23590, 23597, 23604, 23611, 23618, 23625, 23632, 23639, 23646, 23653, 23660, 23667, 23674, 23681, 23688, 23695, 23702, 23709, 23716, 23723, 23730, 23737, 23744, 23751, 23758, 23765, 23772, 23779, 23786, 23793, 23800, 23807, 23814, 23821, 23828, 23835, 23842, 23849, 23856, 23863, 23870, 23877, 23884, 23891, 23898, 23905, 23912, 23919, 23926, 23933, 23940, 23947, 23954, 23961, 23968, 23975, 23982, 23989, 23996, 24003, 24010, 24017, 24024, 24031, 24038, 24045, 24052, 24059, 24066, 24073, 24080, 24087, 24094, 24101, 24108, 24115, 24122, 24129, 24136, 24143, 24150, 24157, 24164, 24171, 24178, 24185, 24192, 24199, 24206, 24213, 24220, 24227, 24234, 24241, 24248, 24255, 24262, 24269, 24276, 24283, 24290, 24297, 24304, 24311, 24318, 24325, 24332, 24339, 24346, 24353, 24360, 24367, 24374, 24381, 24388, 24395, 24402, 24409, 24416, 24423, 24430, 24437, 24444, 24451, 24458, 24465, 24472, 24479, 24486, 24493, 24500, 24507, 24514, 24521, 24528, 24535, 24542, 24549, 24556, 24563, 24570, 24577, 24584, 24591, 24598, 24605, 24612, 24619, 24626, 24633, 24640, 24647, 24654, 24661, 24668, 24675, 24682, 24689, 24696, 24703, 24710, 24717, 24724, 24731, 24738, 24745, 24752, 24759, 24766, 24773, 24780, 24787, 24794, 24801, 24808, 24815, 24822, 24829, 24836, 24843, 24850, 24857, 24864, 24871, 24878, 24885, 24892, 24899, 24906, 24913, 24920, 24927, 24934, 24941, 24948, 24955, 24962, 24969, 24976, 24983, 24990, 24997, 25004, 25011, 25018, 25025, 25032, 25039, 25046, 25053, 25060, 25067, 25074, 25081, 25088, 25095, 25102, 25109, 25116, 25123, 25130, 25137, 25144, 25151, 25158, 25165, 25172, 25179, 25186, 25193, 25200, 25207, 25214, 25221, 25228, 25235, 25242, 25249, 25256, 25263, 25270, 25277, 25284, 25291, 25298, 25305, 25312, 25319, 25326, 25333, 25340, 25347, 25354, 25361, 25368, 25375, 25382, 25389, 25396, 25403, 25410, 25417, 25424, 25431, 25438, 25445, 25452, 25459, 25466, 25473, 25480, 25487, 25494, 25501, 25508, 25515, 25522, 25529, 25536, 25543, 25550, 25557, 25564, 25571, 25578, 25585, 25592, 25599, 25606, 25613, 25620, 25627, 25634, 25641, 25648, 25655, 25662, 25669, 25676, 25683, 25690, 25697, 25704, 25711, 25718, 25725, 25732, 25739, 25746, 25753, 25760, 25767, 25774, 25781, 25788, 25795, 25802, 25809, 25816, 25823, 25830, 25837, 25844, 25851, 25858, 25865, 25872, 25879, 25886, 25893, 25900, 25907, 25914, 25921, 25928, 25935, 25942, 25949, 25956, 25963, 25970, 25977, 25984, 25991, 25998, 26005, 26012, 26019, 26026, 26033, 26040, 26047, 26054, 26061, 26068, 26075, 26082, 26089, 26096, 26103, 26110, 26117, 26124, 26131, 26138, 26145, 26152, 26159, 26166, 26173, 26180, 26187, 26194, 26201, 26208, 26215, 26222, 26229, 26236, 26243, 26250, 26257, 26264, 26271, 26278, 26285, 26292, 26299, 26306, 26313, 26320, 26327, 26334, 26341, 26348, 26355, 26362, 26369, 26376, 26383, 26390, 26397, 26404, 26411, 26418, 26425, 26432, 26439, 26446, 26453, 26460, 26467, 26474, 26481, 26488, 26495, 26502, 26509, 26516, 26523, 26530, 26537, 26544, 26551, 26558, 26565, 26572, 26579, 26586, 26593, 26600, 26607, 26614, 26621, 26628, 26635, 26642, 26649, 26656, 26663, 26670, 26677, 26684, 26691, 26698, 26705, 26712, 26719, 26726, 26733, 26740, 26747, 26754, 26761, 26768, 26775, 26782, 26789, 26796, 26803, 26810, 26817, 26824, 26831, 26838, 26845, 26852, 26859, 26866, 26873, 26880, 26887, 26894, 26901, 26908, 26915, 26922, 26929, 26936, 26943, 26950, 26957, 26964, 26971, 26978, 26985, 26992, 26999, 27006, 27013, 27020, 27027, 27034, 27041, 27048, 27055, 27062, 27069, 27076, 27083, 27090, 27097, 27104, 27111, 27118, 27125, 27132, 27139, 27146, 27153, 27160, 27167, 27174, 27181, 27188, 27195, 27202, 27209, 27216, 27223, 27230, 27237, 27244, 27251, 27258, 27265, 27272, 27279, 27286, 27293, 27300, 27307, 27314, 27321, 27328, 27335, 27342, 27349, 27356, 27363, 27370, 27377, 27384, 27391, 27398, 27405, 27412, 27419, 27426, 27433, 27440, 27447, 27454, 27461, 27468, 27475, 27482, 27489, 27496, 27503, 27510, 27517, 27524, 27531, 27538, 27545, 27552, 27559, 27566, 27573, 27580, 27587, 27594, 27601, 27608, 27615, 27622, 27629, 27636, 27643, 27650, 27657, 27664, 27671, 27678, 27685, 27692, 27699, 27706, 27713, 27720, 27727, 27734, 27741, 27748, 27755, 27762, 27769, 27776, 27783, 27790, 27797, 27804, 27811, 27818, 27825, 27832, 27839, 27846, 27853, 27860, 27867, 27874, 27881, 27888, 27895, 27902, 27909, 27916, 27923, 27930, 27937, 27944, 27951, 27958, 27965, 27972, 27979, 27986, 27993, 28000, 28007, 28014, 28021, 28028, 28035, 28042, 28049, 28056, 28063, 28070, 28077, 28084, 28091, 28098, 28105, 28112, 28119, 28126, 28133, 28140, 28147, 28154, 28161, 28168, 28175, 28182, 28189, 28196, 28203, 28210, 28217, 28224, 28231, 28238, 28245, 28252, 28259, 28266, 28273, 28280, 28287, 28294, 28301, 28308, 28315, 28322, 28329, 28336, 28343, 28350, 28357, 28364, 28371, 28378, 28385, 28392, 28399, 28406, 28413, 28420, 28427, 28434, 28441, 28448, 28455, 28462, 28469, 28476, 28483, 28490, 28497, 28504, 28511, 28518, 28525, 28532, 28539, 28546, 28553, 28560, 28567, 28574, 28581, 28588, 28595, 28602, 28609, 28616, 28623, 28630, 28637, 28644, 28651, 28658, 28665, 28672, 28679, 28686, 28693, 28700, 28707, 28714, 28721, 28728, 28735, 28742, 28749, 28756, 28763, 28770, 28777, 28784, 28791, 28798, 28805, 28812, 28819, 28826, 28833, 28840, 28847, 28854, 28861, 28868, 28875, 28882, 28889, 28896, 28903, 28910, 28917, 28924, 28931, 28938, 28945, 28952, 28959, 28966, 28973, 28980, 28987, 28994, 29001, 29008, 29015, 29022, 29029, 29036, 29043, 29050, 29057, 29064, 29071, 29078, 29085, 29092, 29099, 29106, 29113, 29120, 29127, 29134, 29141, 29148, 29155, 29162, 29169, 29176, 29183, 29190, 29197, 29204, 29211, 29218, 29225, 29232, 29239, 29246, 29253, 29260, 29267, 29274, 29281, 29288, 29295, 29302, 29309, 29316, 29323, 29330, 29337, 29344, 29351, 29358, 29365, 29372, 29379, 29386, 29393, 29400, 29407, 29414, 29421, 29428, 29435, 29442, 29449, 29456, 29463, 29470, 29477, 29484, 29491, 29498, 29505, 29512, 29519, 29526, 29533, 29540, 29547, 29554, 29561, 29568, 29575, 29582, 29589, 29596, 29603, 29610, 29617, 29624, 29631, 29638, 29645, 29652, 29659, 29666, 29673, 29680, 29687, 29694, 29701, 29708, 29715, 29722, 29729, 29736, 29743, 29750, 29757, 29764, 29771, 29778, 29785, 29792, 29799, 29806, 29813, 29820, 29827, 29834, 29841, 29848, 29855, 29862, 29869, 29876, 29883, 29890, 29897, 29904, 29911, 29918, 29925, 29932, 29939, 29946, 29953, 29960, 29967, 29974, 29981, 29988, 29995, 30002, 30009, 30016, 30023, 30030, 30037, 30044, 30051, 30058, 30065, 30072, 30079, 30086, 30093, 30100, 30107, 30114, 30121, 30128, 30135, 30142, 30149, 30156, 30163, 30170, 30177, 30184, 30191, 30198, 30205, 30212, 30219, 30226, 30233, 30240, 30247, 30254, 30261, 30268, 30275, 30282, 30289, 30296, 30303, 30310, 30317, 30324, 30331, 30338, 30345, 30352, 30359, 30366, 30373, 30380, 30387, 30394, 30401, 30408, 30415, 30422, 30429, 30436, 30443, 30450, 30457, 30464, 30471, 30478, 30485, 30492, 30499, 30506, 30513, 30520, 30527, 30534, 30541, 30548, 30555, 30562, 30569, 30576, 30583, 30590, 30597, 30604, 30611, 30618, 30625, 30632, 30639, 30646, 30653, 30660, 30667, 30674, 30681, 30688, 30695, 30702, 30709, 30716, 30723, 30730, 30737, 30744, 30751, 30758, 30765, 30772, 30779, 30786, 30793, 30800, 30807, 30814, 30821, 30828, 30835, 30842, 30849, 30856, 30863, 30870, 30877, 30884, 30891, 30898, 30905, 30912, 30919, 30926, 30933, 30940, 30947, 30954, 30961, 30968, 30975, 30982, 30989, 30996, 31003, 31010, 31017, 31024, 31031, 31038, 31045, 31052, 31059, 31066, 31073, 31080, 31087, 31094, 31101, 31108, 31115, 31122, 31129, 31136, 31143, 31150, 31157, 31164, 31171, 31178, 31185, 31192, 31199, 31206, 31213, 31220, 31227, 31234, 31241, 31248, 31255, 31262, 31269, 31276, 31283, 31290, 31297, 31304, 31311, 31318, 31325, 31332, 31339, 31346, 31353, 31360, 31367, 31374, 31381, 31388, 31395, 31402, 31409, 31416, 31423, 31430, 31437, 31444, 31451, 31458, 31465, 31472, 31479, 31486, 31493, 31500, 31507, 31514, 31521, 31528, 31535, 31542, 31549, 31556, 31563, 31570, 31577, 31584, 31591, 31598, 31605, 31612, 31619, 31626, 31633, 31640, 31647, 31654, 31661, 31668, 31675, 31682, 31689, 31696, 31703, 31710, 31717, 31724, 31731, 31738, 31745, 31752, 31759, 31766, 31773, 31780, 31787, 31794, 31801, 31808, 31815, 31822, 31829, 31836, 31843, 31850, 31857, 31864, 31871, 31878, 31885, 31892, 31899, 31906, 31913, 31920, 31927, 31934, 31941, 31948, 31955, 31962, 31969, 31976, 31983, 31990, 31997, 32004, 32011, 32018, 32025, 32032, 32039, 32046, 32053, 32060, 32067, 32074, 32081, 32088, 32095, 32102, 32109, 32116, 32123, 32130, 32137, 32144, 32151, 32158, 32165, 32172, 32179, 32186, 32193, 32200, 32207, 32214, 32221, 32228, 32235, 32242, 32249, 32256, 32263, 32270, 32277, 32284, 32291, 32298, 32305, 32312, 32319, 32326, 32333, 32340, 32347, 32354, 32361, 32368, 32375, 32382, 32389, 32396, 32403, 32410, 32417, 32424, 32431, 32438, 32445, 32452, 32459, 32466, 32473, 32480, 32487, 32494, 32501, 32508, 32515, 32522, 32529, 32536, 32543, 32550, 32557, 32564, 32571, 32578, 32585, 32592, 32599, 32606, 32613, 32620, 32627, 32634, 32641, 32648, 32655, 32662, 32669, 32676, 32683, 32690, 32697, 32704, 32711, 32718, 32725, 32732, 32739, 32746, 32753, 32760, 32767, 32768, 32774, 32781, 32788, 32795, 32802, 32809, 32816, 32823, 32830, 32837, 32844, 32851, 32858, 32865, 32872, 32879, 32886, 32893, 32900, 32907, 32914, 32921, 32928, 32935, 32942, 32949, 32956, 32963, 32970, 32977, 32984, 32991, 32998, 33005, 33012, 33019, 33026, 33033, 33040, 33047, 33054, 33061, 33068, 33075, 33082, 33089, 33096, 33103, 33110, 33117, 33124, 33131, 33138, 33145, 33152, 33159, 33166, 33173, 33180, 33187, 33194, 33201, 33208, 33215, 33222, 33229, 33236, 33243, 33250, 33257, 33264, 33271, 33278, 33285, 33292, 33299, 33306, 33313, 33320, 33327, 33334, 33341, 33348, 33355, 33362, 33369, 33376, 33383, 33390, 33397, 33404, 33411, 33418, 33425, 33432, 33439, 33446, 33453, 33460, 33467, 33474, 33481, 33488, 33495, 33502, 33509, 33516, 33523, 33530, 33537, 33544, 33551, 33558, 33565, 33572, 33579, 33586, 33593, 33600, 33607, 33614, 33621, 33628, 33635, 33642, 33649, 33656, 33663, 33670, 33677, 33684, 33691, 33698, 33705, 33712, 33719, 33726, 33733, 33740, 33747, 33754, 33761, 33768, 33775, 33782, 33789, 33796, 33803, 33810, 33817, 33824, 33831, 33838, 33845, 33852, 33859, 33866, 33873, 33880, 33887, 33894, 33901, 33908, 33915, 33922, 33929, 33936, 33943, 33950, 33957, 33964, 33971, 33978, 33985, 33992, 33999, 34006, 34013, 34020, 34027, 34034, 34041, 34048, 34055, 34062, 34069, 34076, 34083, 34090, 34097, 34104, 34111, 34118, 34125, 34132, 34139, 34146, 34153, 34160, 34167, 34174, 34181, 34188, 34195, 34202, 34209, 34216, 34223, 34230, 34237, 34244, 34251, 34258, 34265, 34272, 34279, 34286, 34293, 34300, 34307, 34314, 34321, 34328, 34335, 34342, 34349, 34356, 34363, 34370, 34377, 34384, 34391, 34398, 34405, 34412, 34419, 34426, 34433, 34440, 34447, 34454, 34461, 34468, 34475, 34482, 34489, 34496, 34503, 34510, 34517, 34524, 34531, 34538, 34545, 34552, 34559, 34566, 34573, 34580, 34587, 34594, 34601, 34608, 34615, 34622, 34629, 34636, 34643, 34650, 34657, 34664, 34671, 34678, 34685, 34692, 34699, 34706, 34713, 34720, 34727, 34734, 34741, 34748, 34755, 34762, 34769, 34776, 34783, 34790, 34797, 34804, 34811, 34818, 34825, 34832, 34839, 34846, 34853, 34860, 34867, 34874, 34881, 34888, 34895, 34902, 34909, 34916, 34923, 34930, 34937, 34944, 34951, 34958, 34965, 34972, 34979, 34986, 34993, 35000, 35007, 35014, 35021, 35028, 35035, 35042, 35049, 35056, 35063, 35070, 35077, 35084, 35091, 35098, 35105, 35112, 35119, 35126, 35133, 35140, 35147, 35154, 35161, 35168, 35175, 35182, 35189, 35196, 35203, 35210, 35217, 35224, 35231, 35238, 35245, 35252, 35259, 35266, 35273, 35280, 35287, 35294, 35301, 35308, 35315, 35322, 35329, 35336, 35343, 35350, 35357, 35364, 35371, 35378, 35385, 35392, 35399, 35406, 35413, 35420, 35427, 35434, 35441, 35448, 35455, 35462, 35469, 35476, 35483, 35490, 35497, 35504, 35511, 35518, 35525, 35532, 35539, 35546, 35553, 35560, 35567, 35574, 35581, 35588, 35595, 35602, 35609, 35616, 35623, 35630, 35637, 35644, 35651, 35658, 35665, 35672, 35679, 35686, 35693, 35700, 35707, 35714, 35721, 35728, 35735, 35742, 35749, 35756, 35763, 35770, 35777, 35784, 35791, 35798, 35805, 35812, 35819, 35826, 35833, 35840, 35847, 35854, 35861, 35868, 35875, 35882, 35889, 35896, 35903, 35910, 35917, 35924, 35931, 35938, 35945, 35952, 35959, 35966, 35973, 35980, 35987, 35994, 36001, 36008, 36015, 36022, 36029, 36036, 36043, 36050, 36057, 36064, 36071, 36078, 36085, 36092, 36099, 36106, 36113, 36120, 36127, 36134, 36141, 36148, 36155, 36162, 36169, 36176, 36183, 36190, 36197, 36204, 36211, 36218, 36225, 36232, 36239, 36246, 36253, 36260, 36267, 36274, 36281, 36288, 36295, 36302, 36309, 36316, 36323, 36330, 36337, 36344, 36351, 36358, 36365, 36372, 36379, 36386, 36393, 36400, 36407, 36414, 36421, 36428, 36435, 36442, 36449, 36456, 36463, 36470, 36477, 36484, 36491, 36498, 36505, 36512, 36519, 36526, 36533, 36540, 36547, 36554, 36561, 36568, 36575, 36582, 36589, 36596, 36603, 36610, 36617, 36624, 36631, 36638, 36645, 36652, 36659, 36666, 36673, 36680, 36687, 36694, 36701, 36708, 36715, 36722, 36729, 36736, 36743, 36750, 36757, 36764, 36771, 36778, 36785, 36792, 36799, 36806, 36813, 36820, 36827, 36834, 36841, 36848, 36855, 36862, 36869, 36876, 36883, 36890, 36897, 36904, 36911, 36918, 36925, 36932, 36939, 36946, 36953, 36960, 36967, 36974, 36981, 36988, 36995, 37002, 37009, 37016, 37023, 37030, 37037, 37044, 37051, 37058, 37065, 37072, 37079, 37086, 37093, 37100, 37107, 37114, 37121, 37128, 37135, 37142, 37149, 37156, 37163, 37170, 37177, 37184, 37191, 37198, 37205, 37212, 37219, 37226, 37233, 37240, 37247, 37254, 37261, 37268, 37275, 37282, 37289, 37296, 37303, 37310, 37317, 37324, 37331, 37338, 37345, 37352, 37359, 37366, 37373, 37380, 37387, 37394, 37401, 37408, 37415, 37422, 37429, 37436, 37443, 37450, 37457, 37464, 37471, 37478, 37485, 37492, 37499, 37506, 37513, 37520, 37527, 37534, 37541, 37548, 37555, 37562, 37569, 37576, 37583, 37590, 37597, 37604, 37611, 37618, 37625, 37632, 37639, 37646, 37653, 37660, 37667, 37674, 37681, 37688, 37695, 37702, 37709, 37716, 37723, 37730, 37737, 37744, 37751, 37758, 37765, 37772, 37779, 37786, 37793, 37800, 37807, 37814, 37821, 37828, 37835, 37842, 37849, 37856, 37863, 37870, 37877, 37884, 37891, 37898, 37905, 37912, 37919, 37926, 37933, 37940, 37947, 37954, 37961, 37968, 37975, 37982, 37989, 37996, 38003, 38010, 38017, 38024, 38031, 38038, 38045, 38052, 38059, 38066, 38073, 38080, 38087, 38094, 38101, 38108, 38115, 38122, 38129, 38136, 38143, 38150, 38157, 38164, 38171, 38178, 38185, 38192, 38199, 38206, 38213, 38220, 38227, 38234, 38241, 38248, 38255, 38262, 38269, 38276, 38283, 38290, 38297, 38304, 38311, 38318, 38325, 38332, 38339, 38346, 38353, 38360, 38367, 38374, 38381, 38388, 38395, 38402, 38409, 38416, 38423, 38430, 38437, 38444, 38451, 38458, 38465, 38472, 38479, 38486, 38493, 38500, 38507, 38514, 38521, 38528, 38535, 38542, 38549, 38556, 38563, 38570, 38577, 38584, 38591, 38598, 38605, 38612, 38619, 38626, 38633, 38640, 38647, 38654, 38661, 38668, 38675, 38682, 38689, 38696, 38703, 38710, 38717, 38724, 38731, 38738, 38745, 38752, 38759, 38766, 38773, 38780, 38787, 38794, 38801, 38808, 38815, 38822, 38829, 38836, 38843, 38850, 38857, 38864, 38871, 38878, 38885, 38892, 38899, 38906, 38913, 38920, 38927, 38934, 38941, 38948, 38955, 38962, 38969, 38976, 38983, 38990, 38997, 39004, 39011, 39018, 39025, 39032, 39039, 39046, 39053, 39060, 39067, 39074, 39081, 39088, 39095, 39102, 39109, 39116, 39123, 39130, 39137, 39144, 39151, 39158, 39165, 39172, 39179, 39186, 39193, 39200, 39207, 39214, 39221, 39228, 39235, 39242, 39249, 39256, 39263, 39270, 39277, 39284, 39291, 39298, 39305, 39312, 39319, 39326, 39333, 39340, 39347, 39354, 39361, 39368, 39375, 39382, 39389, 39396, 39403, 39410, 39417, 39424, 39431, 39438, 39445, 39452, 39459, 39466, 39473, 39480, 39487, 39494, 39501, 39508, 39515, 39522, 39529, 39536, 39543, 39550, 39557, 39564, 39571, 39578, 39585, 39592, 39599, 39606, 39613, 39620, 39627, 39634, 39641, 39648, 39655, 39662, 39669, 39676, 39683, 39690, 39697, 39704, 39711, 39718, 39725, 39732, 39739, 39746, 39753, 39760, 39767, 39774, 39781, 39788, 39795, 39802, 39809, 39816, 39823, 39830, 39837, 39844, 39851, 39858, 39865, 39872, 39879, 39886, 39893, 39900, 39907, 39914, 39921, 39928, 39935, 39942, 39949, 39956, 39963, 39970, 39977, 39984, 39991, 39998, 40005, 40012, 40019, 40026, 40033, 40040, 40047, 40054, 40061, 40068, 40075, 40082, 40089, 40096, 40103, 40110, 40117, 40124, 40131, 40138, 40145, 40152, 40159, 40166, 40173, 40180, 40187, 40194, 40201, 40208, 40215, 40222, 40229, 40236, 40243, 40250, 40257, 40264, 40271, 40278, 40285, 40292, 40299, 40306, 40313, 40320, 40327, 40334, 40341, 40348, 40355, 40362, 40369, 40376, 40383, 40390, 40397, 40404, 40411, 40418, 40425, 40432, 40439, 40446, 40453, 40460, 40467, 40474, 40481, 40488, 40495, 40502, 40509, 40516, 40523, 40530, 40537, 40544, 40551, 40558, 40565, 40572, 40579, 40586, 40593, 40600, 40607, 40614, 40621, 40628, 40635, 40642, 40649, 40656, 40663, 40670, 40677, 40684, 40691, 40698, 40705, 40712, 40719, 40726, 40733, 40740, 40747, 40754, 40761, 40768, 40775, 40782, 40789, 40796, 40803, 40810, 40817, 40824, 40831, 40838, 40845, 40852, 40859, 40866, 40873, 40880, 40887, 40894, 40901, 40908, 40915, 40922, 40929, 40936, 40943, 40950, 40957, 40964, 40971, 40978, 40985, 40992, 40999, 41006, 41013, 41020, 41027, 41034, 41041, 41048, 41055, 41062, 41069, 41076, 41083, 41090, 41097, 41104, 41111, 41118, 41125, 41132, 41139, 41146, 41153, 41160, 41167, 41174, 41181, 41188, 41195, 41202, 41209, 41216, 41223, 41230, 41237, 41244, 41251, 41258, 41265, 41272, 41279, 41286, 41293, 41300, 41307, 41314, 41321, 41328, 41335, 41342, 41349, 41356, 41363, 41370, 41377, 41384, 41391, 41398, 41405, 41412, 41419, 41426, 41433, 41440, 41447, 41454, 41461, 41468, 41475, 41482, 41489, 41496, 41503, 41510, 41517, 41524, 41531, 41538, 41545, 41552, 41559, 41566, 41573, 41580, 41587, 41594, 41601, 41608, 41615, 41622, 41629, 41636, 41643, 41650, 41657, 41664, 41671, 41678, 41685, 41692, 41699, 41706, 41713, 41720, 41727, 41734, 41741, 41748, 41755, 41762, 41769, 41776, 41783, 41790, 41797, 41804, 41811, 41818, 41825, 41832, 41839, 41846, 41853, 41860, 41867, 41874, 41881, 41888, 41895, 41902, 41909, 41916, 41923, 41930, 41937, 41944, 41951, 41958, 41965, 41972, 41979, 41986, 41993, 42000, 42007, 42014, 42021, 42028, 42035, 42042, 42049, 42056, 42063, 42070, 42077, 42084, 42091, 42098, 42105, 42112, 42119, 42126, 42133, 42140, 42147, 42154, 42161, 42168, 42175, 42182, 42189, 42196, 42203, 42210, 42217, 42224, 42231, 42238, 42245, 42252, 42259, 42266, 42273, 42280, 42287, 42294, 42301, 42308, 42315, 42322, 42329, 42336, 42343, 42350, 42357, 42364, 42371, 42378, 42385, 42392, 42399, 42406, 42413, 42420, 42427, 42434, 42441, 42448, 42455, 42462, 42469, 42476, 42483, 42490, 42497, 42504, 42511, 42518, 42525, 42532, 42539, 42546, 42553, 42560, 42567, 42574, 42581, 42588, 42595, 42602, 42609, 42616, 42623, 42630, 42637, 42644, 42651, 42658, 42665, 42672, 42679, 42686, 42693, 42700, 42707, 42714, 42721, 42728, 42735, 42742, 42749, 42756, 42763, 42770, 42777, 42784, 42791, 42798, 42805, 42812, 42819, 42826, 42833, 42840, 42847, 42854, 42861, 42868, 42875, 42882, 42889, 42896, 42903, 42910, 42917, 42924, 42931, 42938, 42945, 42952, 42959, 42966, 42973, 42980, 42987, 42994, 43001, 43008, 43015, 43022, 43029, 43036, 43043, 43050, 43057, 43064, 43071, 43078, 43085, 43092, 43099, 43106, 43113, 43120, 43127, 43134, 43141, 43148, 43155, 43162, 43169, 43176, 43183, 43190, 43197, 43204, 43211, 43218, 43225, 43232, 43239, 43246, 43253, 43260, 43267, 43274, 43281, 43288, 43295, 43302, 43309, 43316, 43323, 43330, 43337, 43344, 43351, 43358, 43365, 43372, 43379, 43386, 43393, 43400, 43407, 43414, 43421, 43428, 43435, 43442, 43449, 43456, 43463, 43470, 43477, 43484, 43491, 43498, 43505, 43512, 43519, 43526, 43533, 43540, 43547, 43554, 43561, 43568, 43575, 43582, 43589, 43596, 43603, 43610, 43617, 43624, 43631, 43638, 43645, 43652, 43659, 43666, 43673, 43680, 43687, 43694, 43701, 43708, 43715, 43722, 43729, 43736, 43743, 43750, 43757, 43764, 43771, 43778, 43785, 43792, 43799, 43806, 43813, 43820, 43827, 43834, 43841, 43848, 43855, 43862, 43869, 43876, 43883, 43890, 43897, 43904, 43911, 43918, 43925, 43932, 43939, 43946, 43953, 43960, 43967, 43974, 43981, 43988, 43995, 44002, 44009, 44016, 44023, 44030, 44037, 44044, 44051, 44058, 44065, 44072, 44079, 44086, 44093, 44100, 44107, 44114, 44121, 44128, 44135, 44142, 44149, 44156, 44163, 44170, 44177, 44184, 44191, 44198, 44205, 44212, 44219, 44226, 44233, 44240, 44247, 44254, 44261, 44268, 44275, 44282, 44289, 44296, 44303, 44310, 44317, 44324, 44331, 44338, 44345, 44352, 44359, 44366, 44373, 44380, 44387, 44394, 44401, 44408, 44415, 44422, 44429, 44436, 44443, 44450, 44457, 44464, 44471, 44478, 44485, 44492, 44499, 44506, 44513, 44520, 44527, 44534, 44541, 44548, 44555, 44562, 44569, 44576, 44583, 44590, 44597, 44604, 44611, 44618, 44625, 44632, 44639, 44646, 44653, 44660, 44667, 44674, 44681, 44688, 44695, 44702, 44709, 44716, 44723, 44730, 44737, 44744, 44751, 44758, 44765, 44772, 44779, 44786, 44793, 44800, 44807, 44814, 44821, 44828, 44835, 44842, 44849, 44856, 44863, 44870, 44877, 44884, 44891, 44898, 44905, 44912, 44919, 44926, 44933, 44940, 44947, 44954, 44961, 44968, 44975, 44982, 44989, 44996, 45003, 45010, 45017, 45024, 45031, 45038, 45045, 45052, 45059, 45066, 45073, 45080, 45087, 45094, 45101, 45108, 45115, 45122, 45129, 45136, 45143, 45150, 45157, 45164, 45171, 45178, 45185, 45192, 45199, 45206, 45213, 45220, 45227, 45234, 45241, 45248, 45255, 45262, 45269, 45276, 45283, 45290, 45297, 45304, 45311, 45318, 45325, 45332, 45339, 45346, 45353, 45360, 45367, 45374, 45381, 45388, 45395, 45402, 45409, 45416, 45423, 45430, 45437, 45444, 45451, 45458, 45465, 45472, 45479, 45486, 45493, 45500, 45507, 45514, 45521, 45528, 45535, 45542, 45549, 45556, 45563, 45570, 45577, 45584, 45591, 45598, 45605, 45612, 45619, 45626, 45633, 45640, 45647, 45654, 45661, 45668, 45675, 45682, 45689, 45696, 45703, 45710, 45717, 45724, 45731, 45738, 45745, 45752, 45759, 45766, 45773, 45780, 45787, 45794, 45801, 45808, 45815, 45822, 45829, 45836, 45843, 45850, 45857, 45864, 45871, 45878, 45885, 45892, 45899, 45906, 45913, 45920, 45927, 45934, 45941, 45948, 45955, 45962, 45969, 45976, 45983, 45990, 45997, 46004, 46011, 46018, 46025, 46032, 46039, 46046, 46053, 46060, 46067, 46074, 46081, 46088, 46095, 46102, 46109, 46116, 46123, 46130, 46137, 46144, 46151, 46158, 46165, 46172, 46179, 46186, 46193, 46200, 46207, 46214, 46221, 46228, 46235, 46242, 46249, 46256, 46263, 46270, 46277, 46284, 46291, 46298, 46305, 46312, 46319, 46326, 46333, 46340, 46347, 46354, 46361, 46368, 46375, 46382, 46389, 46396, 46403, 46410, 46417, 46424, 46431, 46438, 46445, 46452, 46459, 46466, 46473, 46480, 46487, 46494, 46501, 46508, 46515, 46522, 46529, 46536, 46543, 46550, 46557, 46564, 46571, 46578, 46585, 46592, 46599, 46606, 46613, 46620, 46627, 46634, 46641, 46648, 46655, 46662, 46669, 46676, 46683, 46690, 46697, 46704, 46711, 46718, 46725, 46732, 46739, 46746, 46753, 46760, 46767, 46774, 46781, 46788, 46795, 46802, 46809, 46816, 46823, 46830, 46837, 46844, 46851, 46858, 46865, 46872, 46879, 46886, 46893, 46900, 46907, 46914, 46921, 46928, 46935, 46942, 46949, 46956, 46963, 46970, 46977, 46984, 46991, 46998, 47005, 47012, 47019, 47026, 47033, 47040, 47047, 47054, 47061, 47068, 47075, 47082, 47089, 47096, 47103, 47110, 47117, 47124, 47131, 47138, 47145, 47152, 47159, 47166, 47173, 47180, 47187, 47194, 47201, 47208, 47215, 47222, 47229, 47236, 47243, 47250, 47257, 47264, 47271, 47278, 47285, 47292, 47299, 47306, 47313, 47320, 47327, 47334, 47341, 47348, 47355, 47362, 47369, 47376, 47383, 47390, 47397, 47404, 47411, 47418, 47425, 47432, 47439, 47446, 47453, 47460, 47467, 47474, 47481, 47488, 47495, 47502, 47509, 47516, 47523, 47530, 47537, 47544, 47551, 47558, 47565, 47572, 47579, 47586, 47593, 47600, 47607, 47614, 47621, 47628, 47635, 47642, 47649, 47656, 47663, 47670, 47677, 47684, 47691, 47698, 47705, 47712, 47719, 47726, 47733, 47740, 47747, 47754, 47761, 47768, 47775, 47782, 47789, 47796, 47803, 47810, 47817, 47824, 47831, 47838, 47845, 47852, 47859, 47866, 47873, 47880, 47887, 47894, 47901, 47908, 47915, 47922, 47929, 47936, 47943, 47950, 47957, 47964, 47971, 47978, 47985, 47992, 47999, 48006, 48013, 48020, 48027, 48034, 48041, 48048, 48055, 48062, 48069, 48076, 48083, 48090, 48097, 48104, 48111, 48118, 48125, 48132, 48139, 48146, 48153, 48160, 48167, 48174, 48181, 48188, 48195, 48202, 48209, 48216, 48223, 48230, 48237, 48244, 48251, 48258, 48265, 48272, 48279, 48286, 48293, 48300, 48307, 48314, 48321, 48328, 48335, 48342, 48349, 48356, 48363, 48370, 48377, 48384, 48391, 48398, 48405, 48412, 48419, 48426, 48433, 48440, 48447, 48454, 48461, 48468, 48475, 48482, 48489, 48496, 48503, 48510, 48517, 48524, 48531, 48538, 48545, 48552, 48559, 48566, 48573, 48580, 48587, 48594, 48601, 48608, 48615, 48622, 48629, 48636, 48643, 48650, 48657, 48664, 48671, 48678, 48685, 48692, 48699, 48706, 48713, 48720, 48727, 48734, 48741, 48748, 48755, 48762, 48769, 48776, 48783, 48790, 48797, 48804, 48811, 48818, 48825, 48832, 48839, 48846, 48853, 48860, 48867, 48874, 48881, 48888, 48895, 48902, 48909, 48916, 48923, 48930, 48937, 48944, 48951, 48958, 48965, 48972, 48979, 48986, 48993, 49000, 49007, 49014, 49021, 49028, 49035, 49042, 49049, 49056, 49063, 49070, 49077, 49084, 49091, 49098, 49105, 49112, 49119, 49126, 49133, 49140, 49147, 49154, 49161, 49168, 49175, 49182, 49189, 49196, 49203, 49210, 49217, 49224, 49231, 49238, 49245, 49252, 49259, 49266, 49273, 49280, 49287, 49294, 49301, 49308, 49315, 49322, 49329, 49336, 49343, 49350, 49357, 49364, 49371, 49378, 49385, 49392, 49399, 49406, 49413, 49420, 49427, 49434, 49441, 49448, 49455, 49462, 49469, 49476, 49483, 49490, 49497, 49504, 49511, 49518, 49525, 49532, 49539, 49546, 49553, 49560, 49567, 49574, 49581, 49588, 49595, 49602, 49609, 49616, 49623, 49630, 49637, 49644, 49651, 49658, 49665, 49672, 49679, 49686, 49693, 49700, 49707, 49714, 49721, 49728, 49735, 49742, 49749, 49756, 49763, 49770, 49777, 49784, 49791, 49798, 49805, 49812, 49819, 49826, 49833, 49840, 49847, 49854, 49861, 49868, 49875, 49882, 49889, 49896, 49903, 49910, 49917, 49924, 49931, 49938, 49945, 49952, 49959, 49966, 49973, 49980, 49987, 49994, 50001, 50008, 50015, 50022, 50029, 50036, 50043, 50050, 50057, 50064, 50071, 50078, 50085, 50092, 50099, 50106, 50113, 50120, 50127, 50134, 50141, 50148, 50155, 50162, 50169, 50176, 50183, 50190, 50197, 50204, 50211, 50218, 50225, 50232, 50239, 50246, 50253, 50260, 50267, 50274, 50281, 50288, 50295, 50302, 50309, 50316, 50323, 50330, 50337, 50344, 50351, 50358, 50365, 50372, 50379, 50386, 50393, 50400, 50407, 50414, 50421, 50428, 50435, 50442, 50449, 50456, 50463, 50470, 50477, 50484, 50491, 50498, 50505, 50512, 50519, 50526, 50533, 50540, 50547, 50554, 50561, 50568, 50575, 50582, 50589, 50596, 50603, 50610, 50617, 50624, 50631, 50638, 50645, 50652, 50659, 50666, 50673, 50680, 50687, 50694, 50701, 50708, 50715, 50722, 50729, 50736, 50743, 50750, 50757, 50764, 50771, 50778, 50785, 50792, 50799, 50806, 50813, 50820, 50827, 50834, 50841, 50848, 50855, 50862, 50869, 50876, 50883, 50890, 50897, 50904, 50911, 50918, 50925, 50932, 50939, 50946, 50953, 50960, 50967, 50974, 50981, 50988, 50995, 51002, 51009, 51016, 51023, 51030, 51037, 51044, 51051, 51058, 51065, 51072, 51079, 51086, 51093, 51100, 51107, 51114, 51121, 51128, 51135, 51142, 51149, 51156, 51163, 51170, 51177, 51184, 51191, 51198, 51205, 51212, 51219, 51226, 51233, 51240, 51247, 51254, 51261, 51268, 51275, 51282, 51289, 51296, 51303, 51310, 51317, 51324, 51331, 51338, 51345, 51352, 51359, 51366, 51373, 51380, 51387, 51394, 51401, 51408, 51415, 51422, 51429, 51436, 51443, 51450, 51457, 51464, 51471, 51478, 51485, 51492, 51499, 51506, 51513, 51520, 51527, 51534, 51541, 51548, 51555, 51562, 51569, 51576, 51583, 51590, 51597, 51604, 51611, 51618, 51625, 51632, 51639, 51646, 51653, 51660, 51667, 51674, 51681, 51688, 51695, 51702, 51709, 51716, 51723, 51730, 51737, 51744, 51751, 51758, 51765, 51772, 51779, 51786, 51793, 51800, 51807, 51814, 51821, 51828, 51835, 51842, 51849, 51856, 51863, 51870, 51877, 51884, 51891, 51898, 51905, 51912, 51919, 51926, 51933, 51940, 51947, 51954, 51961, 51968, 51975, 51982, 51989, 51996, 52003, 52010, 52017, 52024, 52031, 52038, 52045, 52052, 52059, 52066, 52073, 52080, 52087, 52094, 52101, 52108, 52115, 52122, 52129, 52136, 52143, 52150, 52157, 52164, 52171, 52178, 52185, 52192, 52199, 52206, 52213, 52220, 52227, 52234, 52241, 52248, 52255, 52262, 52269, 52276, 52283, 52290, 52297, 52304, 52311, 52318, 52325, 52332, 52339, 52346, 52353, 52360, 52367, 52374, 52381, 52388, 52395, 52402, 52409, 52416, 52423, 52430, 52437, 52444, 52451, 52458, 52465, 52472, 52479, 52486, 52493, 52500, 52507, 52514, 52521, 52528, 52535, 52542, 52549, 52556, 52563, 52570, 52577, 52584, 52591, 52598, 52605, 52612, 52619, 52626, 52633, 52640, 52647, 52654, 52661, 52668, 52675, 52682, 52689, 52696, 52703, 52710, 52717, 52724, 52731, 52738, 52745, 52752, 52759, 52766, 52773, 52780, 52787, 52794, 52801, 52808, 52815, 52822, 52829, 52836, 52843, 52850, 52857, 52864, 52871, 52878, 52885, 52892, 52899, 52906, 52913, 52920, 52927, 52934, 52941, 52948, 52955, 52962, 52969, 52976, 52983, 52990, 52997, 53004, 53011, 53018, 53025, 53032, 53039, 53046, 53053, 53060, 53067, 53074, 53081, 53088, 53095, 53102, 53109, 53116, 53123, 53130, 53137, 53144, 53151, 53158, 53165, 53172, 53179, 53186, 53193, 53200, 53207, 53214, 53221, 53228, 53235, 53242, 53249, 53256, 53263, 53270, 53277, 53284, 53291, 53298, 53305, 53312, 53319, 53326, 53333, 53340, 53347, 53354, 53361, 53368, 53375, 53382, 53389, 53396, 53403, 53410, 53417, 53424, 53431, 53438, 53445, 53452, 53459, 53466, 53473, 53480, 53487, 53494, 53501, 53508, 53515, 53522, 53529, 53536, 53543, 53550, 53557, 53564, 53571, 53578, 53585, 53592, 53599, 53606, 53613, 53620, 53627, 53634, 53641, 53648, 53655, 53662, 53669, 53676, 53683, 53690, 53697, 53704, 53711, 53718, 53725, 53732, 53739, 53746, 53753, 53760, 53767, 53774, 53781, 53788, 53795, 53802, 53809, 53816, 53823, 53830, 53837, 53844, 53851, 53858, 53865, 53872, 53879, 53886, 53893, 53900, 53907, 53914, 53921, 53928, 53935, 53942, 53949, 53956, 53963, 53970, 53977, 53984, 53991, 53998, 54005, 54012, 54019, 54026, 54033, 54040, 54047, 54054, 54061, 54068, 54075, 54082, 54089, 54096, 54103, 54110, 54117, 54124, 54131, 54138, 54145, 54152, 54159, 54166, 54173, 54180, 54187, 54194, 54201, 54208, 54215, 54222, 54229, 54236, 54243, 54250, 54257, 54264, 54271, 54278, 54285, 54292, 54299, 54306, 54313, 54320, 54327, 54334, 54341, 54348, 54355, 54362, 54369, 54376, 54383, 54390, 54397, 54404, 54411, 54418, 54425, 54432, 54439, 54446, 54453, 54460, 54467, 54474, 54481, 54488, 54495, 54502, 54509, 54516, 54523, 54530, 54537, 54544, 54551, 54558, 54565, 54572, 54579, 54586, 54593, 54600, 54607, 54614, 54621, 54628, 54635, 54642, 54649, 54656, 54663, 54670, 54677, 54684, 54691, 54698, 54705, 54712, 54719, 54726, 54733, 54740, 54747, 54754, 54761, 54768, 54775, 54782, 54789, 54796, 54803, 54810, 54817, 54824, 54831, 54838, 54845, 54852, 54859, 54866, 54873, 54880, 54887, 54894, 54901, 54908, 54915, 54922, 54929, 54936, 54943, 54950, 54957, 54964, 54971, 54978, 54985, 54992, 54999, 55006, 55013, 55020, 55027, 55034, 55041, 55048, 55055, 55062, 55069, 55076, 55083, 55090, 55097, 55104, 55111, 55118, 55125, 55132, 55139, 55146, 55153, 55160, 55167, 55174, 55181, 55188, 55195, 55202, 55209, 55216, 55223, 55230, 55237, 55244, 55251, 55258, 55265, 55272, 55279, 55286, 55293, 55300, 55307, 55314, 55321, 55328, 55335, 55342, 55349, 55356, 55363, 55370, 55377, 55384, 55391, 55398, 55405, 55412, 55419, 55426, 55433, 55440, 55447, 55454, 55461, 55468, 55475, 55482, 55489, 55496, 55503, 55510, 55517, 55524, 55531, 55538, 55545, 55552, 55559, 55566, 55573, 55580, 55587, 55594, 55601, 55608, 55615, 55622, 55629, 55636, 55643, 55650, 55657, 55664, 55671, 55678, 55685, 55692, 55699, 55706, 55713, 55720, 55727, 55734, 55741, 55748, 55755, 55762, 55769, 55776, 55783, 55790, 55797, 55804, 55811, 55818, 55825, 55832, 55839, 55846, 55853, 55860, 55867, 55874, 55881, 55888, 55895, 55902, 55909, 55916, 55923, 55930, 55937, 55944, 55951, 55958, 55965, 55972, 55979, 55986, 55993, 56000, 56007, 56014, 56021, 56028, 56035, 56042, 56049, 56056, 56063, 56070, 56077, 56084, 56091, 56098, 56105, 56112, 56119, 56126, 56133, 56140, 56147, 56154, 56161, 56168, 56175, 56182, 56189, 56196, 56203, 56210, 56217, 56224, 56231, 56238, 56245, 56252, 56259, 56266, 56273, 56280, 56287, 56294, 56301, 56308, 56315, 56322, 56329, 56336, 56343, 56350, 56357, 56364, 56371, 56378, 56385, 56392, 56399, 56406, 56413, 56420, 56427, 56434, 56441, 56448, 56455, 56462, 56469, 56476, 56483, 56490, 56497, 56504, 56511, 56518, 56525, 56532, 56539, 56546, 56553, 56560, 56567, 56574, 56581, 56588, 56595, 56602, 56609, 56616, 56623, 56630, 56637, 56644, 56651, 56658, 56665, 56672, 56679, 56686, 56693, 56700, 56707, 56714, 56721, 56728, 56735, 56742, 56749, 56756, 56763, 56770, 56777, 56784, 56791, 56798, 56805, 56812, 56819, 56826, 56833, 56840, 56847, 56854, 56861, 56868, 56875, 56882, 56889, 56896, 56903, 56910, 56917, 56924, 56931, 56938, 56945, 56952, 56959, 56966, 56973, 56980, 56987, 56994, 57001, 57008, 57015, 57022, 57029, 57036, 57043, 57050, 57057, 57064, 57071, 57078, 57085, 57092, 57099, 57106, 57113, 57120, 57127, 57134, 57141, 57148, 57155, 57162, 57169, 57176, 57183, 57190, 57197, 57204, 57211, 57218, 57225, 57232, 57239, 57246, 57253, 57260, 57267, 57274, 57281, 57288, 57295, 57302, 57309, 57316, 57323, 57330, 57337, 57344, 57351, 57358, 57365, 57372, 57379, 57386, 57393, 57400, 57407, 57414, 57421, 57428, 57435, 57442, 57449, 57456, 57463, 57470, 57477, 57484, 57491, 57498, 57505, 57512, 57519, 57526, 57533, 57540, 57547, 57554, 57561, 57568, 57575, 57582, 57589, 57596, 57603, 57610, 57617, 57624, 57631, 57638, 57645, 57652, 57659, 57666, 57673, 57680, 57687, 57694, 57701, 57708, 57715, 57722, 57729, 57736, 57743, 57750, 57757, 57764, 57771, 57778, 57785, 57792, 57799, 57806, 57813, 57820, 57827, 57834, 57841, 57848, 57855, 57862, 57869, 57876, 57883, 57890, 57897, 57904, 57911, 57918, 57925, 57932, 57939, 57946, 57953, 57960, 57967, 57974, 57981, 57988, 57995, 58002, 58009, 58016, 58023, 58030, 58037, 58044, 58051, 58058, 58065, 58072, 58079, 58086, 58093, 58100, 58107, 58114, 58121, 58128, 58135, 58142, 58149, 58156, 58163, 58170, 58177, 58184, 58191, 58198, 58205, 58212, 58219, 58226, 58233, 58240, 58247, 58254, 58261, 58268, 58275, 58282, 58289, 58296, 58303, 58310, 58317, 58324, 58331, 58338, 58345, 58352, 58359, 58366, 58373, 58380, 58387, 58394, 58401, 58408, 58415, 58422, 58429, 58436, 58443, 58450, 58457, 58464, 58471, 58478, 58485, 58492, 58499, 58506, 58513, 58520, 58527, 58534, 58541, 58548, 58555, 58562, 58569, 58576, 58583, 58590, 58597, 58604, 58611, 58618, 58625, 58632, 58639, 58646, 58653, 58660, 58667, 58674, 58681, 58688, 58695, 58702, 58709, 58716, 58723, 58730, 58737, 58744, 58751, 58758, 58765, 58772, 58779, 58786, 58793, 58800, 58807, 58814, 58821, 58828, 58835, 58842, 58849, 58856, 58863, 58870, 58877, 58884, 58891, 58898, 58905, 58912, 58919, 58926, 58933, 58940, 58947, 58954, 58961, 58968, 58975, 58982, 58989, 58996, 59003, 59010, 59017, 59024, 59031, 59038, 59045, 59052, 59059, 59066, 59073, 59080, 59087, 59094, 59101, 59108, 59115, 59122, 59129, 59136, 59143, 59150, 59157, 59164, 59171, 59178, 59185, 59192, 59199, 59206, 59213, 59220, 59227, 59234, 59241, 59248, 59255, 59262, 59269, 59276, 59283, 59290, 59297, 59304, 59311, 59318, 59325, 59332, 59339, 59346, 59353, 59360, 59367, 59374, 59381, 59388, 59395, 59402, 59409, 59416, 59423, 59430, 59437, 59444, 59451, 59458, 59465, 59472, 59479, 59486, 59493, 59500, 59507, 59514, 59521, 59528, 59535, 59542, 59549, 59556, 59563, 59570, 59577, 59584, 59591, 59598, 59605, 59612, 59619, 59626, 59633, 59640, 59647, 59654, 59661, 59668, 59675, 59682, 59689, 59696, 59703, 59710, 59717, 59724, 59731, 59738, 59745, 59752, 59759, 59766, 59773, 59780, 59787, 59794, 59801, 59808, 59815, 59822, 59829, 59836, 59843, 59850, 59857, 59864, 59871, 59878, 59885, 59892, 59899, 59906, 59913, 59920, 59927, 59934, 59941, 59948, 59955, 59962, 59969, 59976, 59983, 59990, 59997, 60004, 60011, 60018, 60025, 60032, 60039, 60046, 60053, 60060, 60067, 60074, 60081, 60088, 60095, 60102, 60109, 60116, 60123, 60130, 60137, 60144, 60151, 60158, 60165, 60172, 60179, 60186, 60193, 60200, 60207, 60214, 60221, 60228, 60235, 60242, 60249, 60256, 60263, 60270, 60277, 60284, 60291, 60298, 60305, 60312, 60319, 60326, 60333, 60340, 60347, 60354, 60361, 60368, 60375, 60382, 60389, 60396, 60403, 60410, 60417, 60424, 60431, 60438, 60445, 60452, 60459, 60466, 60473, 60480, 60487, 60494, 60501, 60508, 60515, 60522, 60529, 60536, 60543, 60550, 60557, 60564, 60571, 60578, 60585, 60592, 60599, 60606, 60613, 60620, 60627, 60634, 60641, 60648, 60655, 60662, 60669, 60676, 60683, 60690, 60697, 60704, 60711, 60718, 60725, 60732, 60739, 60746, 60753, 60760, 60767, 60774, 60781, 60788, 60795, 60802, 60809, 60816, 60823, 60830, 60837, 60844, 60851, 60858, 60865, 60872, 60879, 60886, 60893, 60900, 60907, 60914, 60921, 60928, 60935, 60942, 60949, 60956, 60963, 60970, 60977, 60984, 60991, 60998, 61005, 61012, 61019, 61026, 61033, 61040, 61047, 61054, 61061, 61068, 61075, 61082, 61089, 61096, 61103, 61110, 61117, 61124, 61131, 61138, 61145, 61152, 61159, 61166, 61173, 61180, 61187, 61194, 61201, 61208, 61215, 61222, 61229, 61236, 61243, 61250, 61257, 61264, 61271, 61278, 61285, 61292, 61299, 61306, 61313, 61320, 61327, 61334, 61341, 61348, 61355, 61362, 61369, 61376, 61383, 61390, 61397, 61404, 61411, 61418, 61425, 61432, 61439, 61446, 61453, 61460, 61467, 61474, 61481, 61488, 61495, 61502, 61509, 61516, 61523, 61530, 61537, 61544, 61551, 61558, 61565, 61572, 61579, 61586, 61593, 61600, 61607, 61614, 61621, 61628, 61635, 61642, 61649, 61656, 61663, 61670, 61677, 61684, 61691, 61698, 61705, 61712, 61719, 61726, 61733, 61740, 61747, 61754, 61761, 61768, 61775, 61782, 61789, 61796, 61803, 61810, 61817, 61824, 61831, 61838, 61845, 61852, 61859, 61866, 61873, 61880, 61887, 61894, 61901, 61908, 61915, 61922, 61929, 61936, 61943, 61950, 61957, 61964, 61971, 61978, 61985, 61992, 61999, 62006, 62013, 62020, 62027, 62034, 62041, 62048, 62055, 62062, 62069, 62076, 62083, 62090, 62097, 62104, 62111, 62118, 62125, 62132, 62139, 62146, 62153, 62160, 62167, 62174, 62181, 62188, 62195, 62202, 62209, 62216, 62223, 62230, 62237, 62244, 62251, 62258, 62265, 62272, 62279, 62286, 62293, 62300, 62307, 62314, 62321, 62328, 62335, 62342, 62349, 62356, 62363, 62370, 62377, 62384, 62391, 62398, 62405, 62412, 62419, 62426, 62433, 62440, 62447, 62454, 62461, 62468, 62475, 62482, 62489, 62496, 62503, 62510, 62517, 62524, 62531, 62538, 62545, 62552, 62559, 62566, 62573, 62580, 62587, 62594, 62601, 62608, 62615, 62622, 62629, 62636, 62643, 62650, 62657, 62664, 62671, 62678, 62685, 62692, 62699, 62706, 62713, 62720, 62727, 62734, 62741, 62748, 62755, 62762, 62769, 62776, 62783, 62790, 62797, 62804, 62811, 62818, 62825, 62832, 62839, 62846, 62853, 62860, 62867, 62874, 62881, 62888, 62895, 62902, 62909, 62916, 62923, 62930, 62937, 62944, 62951, 62958, 62965, 62972, 62979, 62986, 62993, 63000, 63007, 63014, 63021, 63028, 63035, 63042, 63049, 63056, 63063, 63070, 63077, 63084, 63091, 63098, 63105, 63112, 63119, 63126, 63133, 63140, 63147, 63154, 63161, 63168, 63175, 63182, 63189, 63196, 63203, 63210, 63217, 63224, 63231, 63238, 63245, 63252, 63259, 63266, 63273, 63280, 63287, 63294, 63301, 63308, 63315, 63322, 63329, 63336, 63343, 63350, 63357, 63364, 63371, 63378, 63385, 63392, 63399, 63406, 63413, 63420, 63427, 63434, 63441, 63448, 63455, 63462, 63469, 63476, 63483, 63490, 63497, 63504, 63511, 63518, 63525, 63532, 63539, 63546, 63553, 63560, 63567, 63574, 63581, 63588, 63595, 63602, 63609, 63616, 63623, 63630, 63637, 63644, 63651, 63658, 63665, 63672, 63679, 63686, 63693, 63700, 63707, 63714, 63721, 63728, 63735, 63742, 63749, 63756, 63763, 63770, 63777, 63784, 63791, 63798, 63805, 63812, 63819, 63826, 63833, 63840, 63847, 63854, 63861, 63868, 63875, 63882, 63889, 63896, 63903, 63910, 63917, 63924, 63931, 63938, 63945, 63952, 63959, 63966, 63973, 63980, 63987, 63994, 64001, 64008, 64015, 64022, 64029, 64036, 64043, 64050, 64057, 64064, 64071, 64078, 64085, 64092, 64099, 64106, 64113, 64120, 64127, 64134, 64141, 64148, 64155, 64162, 64169, 64176, 64183, 64190, 64197, 64204, 64211, 64218, 64225, 64232, 64239, 64246, 64253, 64260, 64267, 64274, 64281, 64288, 64295, 64302, 64309, 64316, 64323, 64330, 64337, 64344, 64351, 64358, 64365, 64372, 64379, 64386, 64393, 64400, 64407, 64414, 64421, 64428, 64435, 64442, 64449, 64456, 64463, 64470, 64477, 64484, 64491, 64498, 64505, 64512, 64519, 64526, 64533, 64540, 64547, 64554, 64561, 64568, 64575, 64582, 64589, 64596, 64603, 64610, 64617, 64624, 64631, 64638, 64645, 64652, 64659, 64666, 64673, 64680, 64687, 64694, 64701, 64708, 64715, 64722, 64729, 64736, 64743, 64750, 64757, 64764, 64771, 64778, 64785, 64792, 64799, 64806, 64813, 64820, 64827, 64834, 64841, 64848, 64855, 64862, 64869, 64876, 64883, 64890, 64897, 64904, 64911, 64918, 64925, 64932, 64939, 64946, 64953, 64960, 64967, 64974, 64981, 64988, 64995, 65002, 65009, 65016, 65023, 65030, 65037, 65044, 65051, 65058, 65065, 65072, 65079, 65086, 65093, 65100, 65107, 65114, 65121, 65128, 65135, 65142, 65149, 65156, 65163, 65170, 65177, 65184, 65191, 65198, 65205, 65212, 65219, 65226, 65233, 65240, 65247, 65254, 65261, 65268, 65275, 65282, 65289, 65296, 65303, 65310, 65317, 65324, 65331, 65338, 65345, 65352, 65359, 65366, 65373, 65380, 65387, 65394, 65401, 65408, 65415, 65422, 65429, 65436, 65443, 65450, 65457, 65464, 65471, 65478, 65485, 65492, 65499, 65506, 65513, 65520, 65527, 65534, 65535}
  Alphabet = {}
INVARIANTS Good
CHECK_DEADLOCK FALSE

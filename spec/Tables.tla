------------------------------- MODULE Tables -------------------------------
(* Generated by bin/mktables.py: entry k is f((k - 769) / 64) * 2^16.          *)
LogisticTable == << \* 1 / (1 + exp(x))
    65536, 65536, 65536, 65536, 65536, 65536, 65536, 65536, 65536, 65536, 65536, 65536, 65536, 65536, 65535, 65535,
    65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535,
    65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535,
    65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535,
    65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535, 65535,
    65535, 65535, 65535, 65535, 65535, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534,
    65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534, 65534,
    65534, 65534, 65534, 65534, 65534, 65533, 65533, 65533, 65533, 65533, 65533, 65533, 65533, 65533, 65533, 65533,
    65533, 65533, 65533, 65533, 65533, 65533, 65533, 65533, 65533, 65533, 65533, 65532, 65532, 65532, 65532, 65532,
    65532, 65532, 65532, 65532, 65532, 65532, 65532, 65532, 65532, 65532, 65532, 65531, 65531, 65531, 65531, 65531,
    65531, 65531, 65531, 65531, 65531, 65531, 65531, 65531, 65530, 65530, 65530, 65530, 65530, 65530, 65530, 65530,
    65530, 65530, 65530, 65529, 65529, 65529, 65529, 65529, 65529, 65529, 65529, 65529, 65528, 65528, 65528, 65528,
    65528, 65528, 65528, 65528, 65527, 65527, 65527, 65527, 65527, 65527, 65527, 65526, 65526, 65526, 65526, 65526,
    65526, 65525, 65525, 65525, 65525, 65525, 65525, 65524, 65524, 65524, 65524, 65524, 65523, 65523, 65523, 65523,
    65523, 65522, 65522, 65522, 65522, 65522, 65521, 65521, 65521, 65521, 65520, 65520, 65520, 65520, 65519, 65519,
    65519, 65519, 65518, 65518, 65518, 65517, 65517, 65517, 65517, 65516, 65516, 65516, 65515, 65515, 65515, 65514,
    65514, 65514, 65513, 65513, 65513, 65512, 65512, 65511, 65511, 65511, 65510, 65510, 65509, 65509, 65509, 65508,
    65508, 65507, 65507, 65506, 65506, 65505, 65505, 65505, 65504, 65504, 65503, 65502, 65502, 65501, 65501, 65500,
    65500, 65499, 65499, 65498, 65497, 65497, 65496, 65496, 65495, 65494, 65494, 65493, 65492, 65492, 65491, 65490,
    65489, 65489, 65488, 65487, 65486, 65486, 65485, 65484, 65483, 65482, 65482, 65481, 65480, 65479, 65478, 65477,
    65476, 65475, 65474, 65473, 65472, 65471, 65470, 65469, 65468, 65467, 65466, 65465, 65464, 65463, 65462, 65461,
    65459, 65458, 65457, 65456, 65454, 65453, 65452, 65451, 65449, 65448, 65446, 65445, 65444, 65442, 65441, 65439,
    65438, 65436, 65435, 65433, 65431, 65430, 65428, 65426, 65425, 65423, 65421, 65419, 65417, 65416, 65414, 65412,
    65410, 65408, 65406, 65404, 65402, 65399, 65397, 65395, 65393, 65391, 65388, 65386, 65384, 65381, 65379, 65376,
    65374, 65371, 65369, 65366, 65364, 65361, 65358, 65355, 65352, 65350, 65347, 65344, 65341, 65338, 65334, 65331,
    65328, 65325, 65321, 65318, 65315, 65311, 65308, 65304, 65300, 65297, 65293, 65289, 65285, 65281, 65277, 65273,
    65269, 65265, 65261, 65257, 65252, 65248, 65243, 65239, 65234, 65229, 65224, 65219, 65215, 65209, 65204, 65199,
    65194, 65189, 65183, 65178, 65172, 65166, 65160, 65155, 65149, 65143, 65136, 65130, 65124, 65117, 65111, 65104,
    65097, 65091, 65084, 65076, 65069, 65062, 65055, 65047, 65039, 65032, 65024, 65016, 65008, 64999, 64991, 64983,
    64974, 64965, 64956, 64947, 64938, 64929, 64919, 64910, 64900, 64890, 64880, 64870, 64859, 64849, 64838, 64827,
    64816, 64805, 64793, 64782, 64770, 64758, 64746, 64734, 64721, 64709, 64696, 64683, 64669, 64656, 64642, 64628,
    64614, 64600, 64585, 64571, 64556, 64541, 64525, 64509, 64494, 64477, 64461, 64444, 64427, 64410, 64393, 64375,
    64357, 64339, 64321, 64302, 64283, 64263, 64244, 64224, 64203, 64183, 64162, 64141, 64119, 64098, 64075, 64053,
    64030, 64007, 63983, 63960, 63935, 63911, 63886, 63861, 63835, 63809, 63782, 63755, 63728, 63700, 63672, 63644,
    63615, 63586, 63556, 63526, 63495, 63464, 63432, 63400, 63368, 63335, 63301, 63267, 63233, 63198, 63162, 63126,
    63090, 63053, 63015, 62977, 62938, 62899, 62859, 62819, 62778, 62736, 62694, 62651, 62608, 62564, 62519, 62474,
    62428, 62381, 62334, 62286, 62238, 62188, 62138, 62088, 62036, 61984, 61931, 61878, 61823, 61768, 61712, 61656,
    61598, 61540, 61481, 61421, 61360, 61299, 61237, 61173, 61109, 61044, 60979, 60912, 60844, 60776, 60706, 60636,
    60565, 60492, 60419, 60345, 60270, 60194, 60116, 60038, 59959, 59879, 59797, 59715, 59632, 59547, 59462, 59375,
    59287, 59198, 59108, 59017, 58925, 58831, 58737, 58641, 58544, 58446, 58346, 58246, 58144, 58041, 57936, 57831,
    57724, 57616, 57506, 57396, 57284, 57170, 57055, 56939, 56822, 56703, 56583, 56462, 56339, 56215, 56089, 55962,
    55834, 55704, 55572, 55440, 55306, 55170, 55033, 54894, 54754, 54613, 54470, 54325, 54179, 54032, 53883, 53733,
    53581, 53427, 53272, 53116, 52957, 52798, 52637, 52474, 52310, 52144, 51977, 51808, 51638, 51466, 51293, 51118,
    50941, 50763, 50584, 50402, 50220, 50036, 49850, 49663, 49474, 49284, 49092, 48899, 48704, 48508, 48310, 48111,
    47911, 47709, 47505, 47300, 47094, 46886, 46677, 46466, 46254, 46041, 45826, 45610, 45393, 45174, 44954, 44733,
    44511, 44287, 44062, 43836, 43608, 43380, 43150, 42919, 42687, 42454, 42220, 41985, 41748, 41511, 41273, 41034,
    40793, 40552, 40310, 40068, 39824, 39579, 39334, 39088, 38841, 38593, 38345, 38096, 37847, 37597, 37346, 37095,
    36843, 36591, 36338, 36085, 35831, 35577, 35323, 35068, 34813, 34558, 34303, 34047, 33792, 33536, 33280, 33024,
    32768, 32512, 32256, 32000, 31744, 31489, 31233, 30978, 30723, 30468, 30213, 29959, 29705, 29451, 29198, 28945,
    28693, 28441, 28190, 27939, 27689, 27440, 27191, 26943, 26695, 26448, 26202, 25957, 25712, 25468, 25226, 24984,
    24743, 24502, 24263, 24025, 23788, 23551, 23316, 23082, 22849, 22617, 22386, 22156, 21928, 21700, 21474, 21249,
    21025, 20803, 20582, 20362, 20143, 19926, 19710, 19495, 19282, 19070, 18859, 18650, 18442, 18236, 18031, 17827,
    17625, 17425, 17226, 17028, 16832, 16637, 16444, 16252, 16062, 15873, 15686, 15500, 15316, 15134, 14952, 14773,
    14595, 14418, 14243, 14070, 13898, 13728, 13559, 13392, 13226, 13062, 12899, 12738, 12579, 12420, 12264, 12109,
    11955, 11803, 11653, 11504, 11357, 11211, 11066, 10923, 10782, 10642, 10503, 10366, 10230, 10096, 9964, 9832,
    9702, 9574, 9447, 9321, 9197, 9074, 8953, 8833, 8714, 8597, 8481, 8366, 8252, 8140, 8030, 7920,
    7812, 7705, 7600, 7495, 7392, 7290, 7190, 7090, 6992, 6895, 6799, 6705, 6611, 6519, 6428, 6338,
    6249, 6161, 6074, 5989, 5904, 5821, 5739, 5657, 5577, 5498, 5420, 5342, 5266, 5191, 5117, 5044,
    4971, 4900, 4830, 4760, 4692, 4624, 4557, 4492, 4427, 4363, 4299, 4237, 4176, 4115, 4055, 3996,
    3938, 3880, 3824, 3768, 3713, 3658, 3605, 3552, 3500, 3448, 3398, 3348, 3298, 3250, 3202, 3155,
    3108, 3062, 3017, 2972, 2928, 2885, 2842, 2800, 2758, 2717, 2677, 2637, 2598, 2559, 2521, 2483,
    2446, 2410, 2374, 2338, 2303, 2269, 2235, 2201, 2168, 2136, 2104, 2072, 2041, 2010, 1980, 1950,
    1921, 1892, 1864, 1836, 1808, 1781, 1754, 1727, 1701, 1675, 1650, 1625, 1601, 1576, 1553, 1529,
    1506, 1483, 1461, 1438, 1417, 1395, 1374, 1353, 1333, 1312, 1292, 1273, 1253, 1234, 1215, 1197,
    1179, 1161, 1143, 1126, 1109, 1092, 1075, 1059, 1042, 1027, 1011, 995, 980, 965, 951, 936,
    922, 908, 894, 880, 867, 853, 840, 827, 815, 802, 790, 778, 766, 754, 743, 731,
    720, 709, 698, 687, 677, 666, 656, 646, 636, 626, 617, 607, 598, 589, 580, 571,
    562, 553, 545, 537, 528, 520, 512, 504, 497, 489, 481, 474, 467, 460, 452, 445,
    439, 432, 425, 419, 412, 406, 400, 393, 387, 381, 376, 370, 364, 358, 353, 347,
    342, 337, 332, 327, 321, 317, 312, 307, 302, 297, 293, 288, 284, 279, 275, 271,
    267, 263, 259, 255, 251, 247, 243, 239, 236, 232, 228, 225, 221, 218, 215, 211,
    208, 205, 202, 198, 195, 192, 189, 186, 184, 181, 178, 175, 172, 170, 167, 165,
    162, 160, 157, 155, 152, 150, 148, 145, 143, 141, 139, 137, 134, 132, 130, 128,
    126, 124, 122, 120, 119, 117, 115, 113, 111, 110, 108, 106, 105, 103, 101, 100,
    98, 97, 95, 94, 92, 91, 90, 88, 87, 85, 84, 83, 82, 80, 79, 78,
    77, 75, 74, 73, 72, 71, 70, 69, 68, 67, 66, 65, 64, 63, 62, 61,
    60, 59, 58, 57, 56, 55, 54, 54, 53, 52, 51, 50, 50, 49, 48, 47,
    47, 46, 45, 44, 44, 43, 42, 42, 41, 40, 40, 39, 39, 38, 37, 37,
    36, 36, 35, 35, 34, 34, 33, 32, 32, 31, 31, 31, 30, 30, 29, 29,
    28, 28, 27, 27, 27, 26, 26, 25, 25, 25, 24, 24, 23, 23, 23, 22,
    22, 22, 21, 21, 21, 20, 20, 20, 19, 19, 19, 19, 18, 18, 18, 17,
    17, 17, 17, 16, 16, 16, 16, 15, 15, 15, 15, 14, 14, 14, 14, 14,
    13, 13, 13, 13, 13, 12, 12, 12, 12, 12, 11, 11, 11, 11, 11, 11,
    10, 10, 10, 10, 10, 10, 9, 9, 9, 9, 9, 9, 9, 8, 8, 8,
    8, 8, 8, 8, 8, 7, 7, 7, 7, 7, 7, 7, 7, 7, 6, 6,
    6, 6, 6, 6, 6, 6, 6, 6, 6, 5, 5, 5, 5, 5, 5, 5,
    5, 5, 5, 5, 5, 5, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4,
    4, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
    3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2,
    2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
    2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
    1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
    0 >>

SoftplusTable == << \* ln(1 + exp(x))
    0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
    1, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
    2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2,
    2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3,
    3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 4, 4, 4,
    4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 4, 5, 5, 5, 5, 5,
    5, 5, 5, 5, 5, 5, 5, 5, 6, 6, 6, 6, 6, 6, 6, 6,
    6, 6, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 8, 8, 8, 8,
    8, 8, 8, 8, 9, 9, 9, 9, 9, 9, 9, 10, 10, 10, 10, 10,
    10, 11, 11, 11, 11, 11, 11, 12, 12, 12, 12, 12, 13, 13, 13, 13,
    13, 14, 14, 14, 14, 14, 15, 15, 15, 15, 16, 16, 16, 16, 17, 17,
    17, 17, 18, 18, 18, 19, 19, 19, 19, 20, 20, 20, 21, 21, 21, 22,
    22, 22, 23, 23, 23, 24, 24, 25, 25, 25, 26, 26, 27, 27, 27, 28,
    28, 29, 29, 30, 30, 31, 31, 31, 32, 32, 33, 34, 34, 35, 35, 36,
    36, 37, 37, 38, 39, 39, 40, 40, 41, 42, 42, 43, 44, 44, 45, 46,
    47, 47, 48, 49, 50, 50, 51, 52, 53, 54, 54, 55, 56, 57, 58, 59,
    60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 76,
    77, 78, 79, 80, 82, 83, 84, 86, 87, 88, 90, 91, 92, 94, 95, 97,
    98, 100, 102, 103, 105, 106, 108, 110, 112, 113, 115, 117, 119, 121, 123, 124,
    126, 128, 130, 132, 135, 137, 139, 141, 143, 145, 148, 150, 152, 155, 157, 160,
    162, 165, 167, 170, 173, 175, 178, 181, 184, 187, 190, 193, 196, 199, 202, 205,
    208, 212, 215, 218, 222, 225, 229, 232, 236, 240, 243, 247, 251, 255, 259, 263,
    267, 271, 276, 280, 284, 289, 293, 298, 303, 308, 312, 317, 322, 327, 332, 338,
    343, 348, 354, 359, 365, 371, 377, 383, 389, 395, 401, 407, 414, 420, 427, 433,
    440, 447, 454, 461, 468, 476, 483, 491, 498, 506, 514, 522, 530, 539, 547, 556,
    565, 573, 582, 592, 601, 610, 620, 629, 639, 649, 660, 670, 680, 691, 702, 713,
    724, 735, 747, 759, 770, 783, 795, 807, 820, 833, 846, 859, 872, 886, 900, 914,
    928, 943, 957, 972, 988, 1003, 1019, 1035, 1051, 1067, 1084, 1101, 1118, 1135, 1153, 1171,
    1189, 1208, 1227, 1246, 1265, 1285, 1305, 1326, 1346, 1367, 1389, 1410, 1432, 1454, 1477, 1500,
    1523, 1547, 1571, 1596, 1620, 1646, 1671, 1697, 1724, 1750, 1778, 1805, 1833, 1862, 1891, 1920,
    1950, 1980, 2011, 2042, 2074, 2106, 2138, 2171, 2205, 2239, 2274, 2309, 2345, 2381, 2418, 2455,
    2493, 2532, 2571, 2610, 2651, 2692, 2733, 2775, 2818, 2861, 2905, 2950, 2996, 3042, 3089, 3136,
    3184, 3233, 3283, 3333, 3384, 3436, 3489, 3542, 3597, 3652, 3708, 3765, 3822, 3881, 3940, 4000,
    4061, 4123, 4186, 4250, 4315, 4380, 4447, 4515, 4583, 4653, 4724, 4795, 4868, 4942, 5017, 5093,
    5170, 5248, 5328, 5408, 5490, 5573, 5657, 5742, 5829, 5917, 6006, 6096, 6187, 6280, 6375, 6470,
    6567, 6665, 6765, 6866, 6969, 7073, 7178, 7285, 7394, 7504, 7615, 7729, 7843, 7960, 8078, 8197,
    8318, 8441, 8566, 8692, 8820, 8950, 9082, 9215, 9350, 9487, 9626, 9767, 9910, 10055, 10201, 10350,
    10500, 10653, 10808, 10964, 11123, 11284, 11447, 11612, 11780, 11949, 12121, 12295, 12471, 12650, 12831, 13014,
    13200, 13388, 13578, 13771, 13966, 14164, 14364, 14567, 14773, 14981, 15191, 15404, 15620, 15839, 16060, 16284,
    16510, 16740, 16972, 17207, 17445, 17686, 17929, 18176, 18425, 18678, 18933, 19192, 19453, 19718, 19985, 20256,
    20530, 20807, 21087, 21370, 21657, 21947, 22240, 22536, 22836, 23139, 23445, 23755, 24068, 24384, 24704, 25027,
    25354, 25684, 26018, 26355, 26696, 27041, 27389, 27740, 28095, 28454, 28817, 29183, 29553, 29926, 30303, 30684,
    31069, 31458, 31850, 32246, 32646, 33049, 33457, 33868, 34283, 34702, 35125, 35552, 35983, 36417, 36856, 37298,
    37745, 38195, 38649, 39108, 39570, 40036, 40506, 40980, 41458, 41940, 42426, 42916, 43410, 43908, 44410, 44916,
    45426, 45940, 46458, 46980, 47506, 48036, 48570, 49108, 49650, 50196, 50746, 51300, 51858, 52420, 52985, 53555,
    54129, 54706, 55288, 55873, 56463, 57056, 57653, 58254, 58859, 59468, 60081, 60697, 61318, 61942, 62570, 63202,
    63837, 64476, 65119, 65766, 66417, 67071, 67729, 68390, 69055, 69724, 70397, 71073, 71752, 72435, 73122, 73812,
    74506, 75203, 75904, 76608, 77316, 78027, 78741, 79459, 80180, 80904, 81632, 82363, 83097, 83834, 84575, 85319,
    86066, 86816, 87569, 88326, 89085, 89848, 90613, 91382, 92153, 92928, 93705, 94486, 95269, 96055, 96844, 97636,
    98430, 99228, 100028, 100831, 101636, 102444, 103255, 104069, 104885, 105703, 106524, 107348, 108174, 109003, 109834, 110668,
    111504, 112342, 113183, 114026, 114871, 115719, 116569, 117421, 118276, 119132, 119991, 120852, 121715, 122580, 123448, 124317,
    125188, 126062, 126937, 127815, 128694, 129575, 130458, 131343, 132230, 133119, 134010, 134902, 135796, 136692, 137590, 138489,
    139390, 140293, 141198, 142104, 143011, 143921, 144831, 145744, 146658, 147573, 148490, 149409, 150329, 151250, 152173, 153097,
    154023, 154950, 155879, 156808, 157739, 158672, 159606, 160541, 161477, 162414, 163353, 164293, 165234, 166176, 167120, 168064,
    169010, 169957, 170905, 171854, 172804, 173755, 174708, 175661, 176615, 177571, 178527, 179484, 180443, 181402, 182362, 183323,
    184285, 185248, 186212, 187177, 188142, 189109, 190076, 191044, 192013, 192982, 193953, 194924, 195896, 196869, 197843, 198817,
    199792, 200768, 201745, 202722, 203700, 204678, 205657, 206637, 207618, 208599, 209581, 210564, 211547, 212530, 213515, 214500,
    215485, 216471, 217458, 218445, 219433, 220421, 221410, 222399, 223389, 224379, 225370, 226362, 227354, 228346, 229339, 230332,
    231326, 232320, 233315, 234310, 235305, 236301, 237298, 238294, 239292, 240289, 241287, 242286, 243284, 244284, 245283, 246283,
    247283, 248284, 249285, 250286, 251288, 252290, 253293, 254295, 255298, 256302, 257305, 258309, 259313, 260318, 261323, 262328,
    263333, 264339, 265345, 266351, 267358, 268365, 269372, 270379, 271387, 272395, 273403, 274411, 275420, 276428, 277437, 278447,
    279456, 280466, 281476, 282486, 283496, 284507, 285518, 286529, 287540, 288551, 289563, 290575, 291586, 292599, 293611, 294623,
    295636, 296649, 297662, 298675, 299688, 300702, 301716, 302729, 303743, 304757, 305772, 306786, 307801, 308816, 309830, 310845,
    311861, 312876, 313891, 314907, 315922, 316938, 317954, 318970, 319986, 321003, 322019, 323036, 324052, 325069, 326086, 327103,
    328120, 329137, 330155, 331172, 332190, 333207, 334225, 335243, 336261, 337279, 338297, 339315, 340333, 341351, 342370, 343388,
    344407, 345426, 346444, 347463, 348482, 349501, 350520, 351540, 352559, 353578, 354597, 355617, 356636, 357656, 358676, 359695,
    360715, 361735, 362755, 363775, 364795, 365815, 366835, 367856, 368876, 369896, 370917, 371937, 372958, 373978, 374999, 376020,
    377040, 378061, 379082, 380103, 381124, 382145, 383166, 384187, 385208, 386229, 387250, 388271, 389293, 390314, 391335, 392357,
    393378, 394400, 395421, 396443, 397464, 398486, 399508, 400529, 401551, 402573, 403595, 404617, 405639, 406660, 407682, 408704,
    409726, 410748, 411771, 412793, 413815, 414837, 415859, 416881, 417904, 418926, 419948, 420970, 421993, 423015, 424038, 425060,
    426082, 427105, 428127, 429150, 430172, 431195, 432218, 433240, 434263, 435286, 436308, 437331, 438354, 439376, 440399, 441422,
    442445, 443468, 444490, 445513, 446536, 447559, 448582, 449605, 450628, 451651, 452674, 453697, 454720, 455743, 456766, 457789,
    458812, 459835, 460858, 461881, 462904, 463927, 464950, 465974, 466997, 468020, 469043, 470066, 471090, 472113, 473136, 474159,
    475183, 476206, 477229, 478252, 479276, 480299, 481322, 482346, 483369, 484392, 485416, 486439, 487463, 488486, 489509, 490533,
    491556, 492580, 493603, 494627, 495650, 496674, 497697, 498720, 499744, 500767, 501791, 502815, 503838, 504862, 505885, 506909,
    507932, 508956, 509979, 511003, 512027, 513050, 514074, 515097, 516121, 517145, 518168, 519192, 520215, 521239, 522263, 523286,
    524310, 525334, 526357, 527381, 528405, 529428, 530452, 531476, 532499, 533523, 534547, 535571, 536594, 537618, 538642, 539665,
    540689, 541713, 542737, 543760, 544784, 545808, 546832, 547855, 548879, 549903, 550927, 551950, 552974, 553998, 555022, 556046,
    557069, 558093, 559117, 560141, 561165, 562188, 563212, 564236, 565260, 566284, 567307, 568331, 569355, 570379, 571403, 572427,
    573450, 574474, 575498, 576522, 577546, 578570, 579593, 580617, 581641, 582665, 583689, 584713, 585737, 586760, 587784, 588808,
    589832, 590856, 591880, 592904, 593928, 594951, 595975, 596999, 598023, 599047, 600071, 601095, 602119, 603143, 604166, 605190,
    606214, 607238, 608262, 609286, 610310, 611334, 612358, 613382, 614406, 615429, 616453, 617477, 618501, 619525, 620549, 621573,
    622597, 623621, 624645, 625669, 626693, 627717, 628740, 629764, 630788, 631812, 632836, 633860, 634884, 635908, 636932, 637956,
    638980, 640004, 641028, 642052, 643076, 644100, 645123, 646147, 647171, 648195, 649219, 650243, 651267, 652291, 653315, 654339,
    655363, 656387, 657411, 658435, 659459, 660483, 661507, 662531, 663555, 664579, 665603, 666627, 667650, 668674, 669698, 670722,
    671746, 672770, 673794, 674818, 675842, 676866, 677890, 678914, 679938, 680962, 681986, 683010, 684034, 685058, 686082, 687106,
    688130, 689154, 690178, 691202, 692226, 693250, 694274, 695298, 696322, 697346, 698370, 699394, 700417, 701441, 702465, 703489,
    704513, 705537, 706561, 707585, 708609, 709633, 710657, 711681, 712705, 713729, 714753, 715777, 716801, 717825, 718849, 719873,
    720897, 721921, 722945, 723969, 724993, 726017, 727041, 728065, 729089, 730113, 731137, 732161, 733185, 734209, 735233, 736257,
    737281, 738305, 739329, 740353, 741377, 742401, 743425, 744449, 745473, 746497, 747521, 748545, 749569, 750593, 751617, 752641,
    753665, 754689, 755713, 756737, 757761, 758785, 759809, 760833, 761857, 762881, 763905, 764929, 765953, 766977, 768001, 769025,
    770049, 771073, 772097, 773120, 774144, 775168, 776192, 777216, 778240, 779264, 780288, 781312, 782336, 783360, 784384, 785408,
    786432 >>
=============================================================================

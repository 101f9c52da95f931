/* 2048 * log2(1024 / range), rounded to nearest */
const uint16_t vp_cost[1025] = {
65535, 20480, 18432, 17234, 16384, 15725, 15186, 14731, 14336, 13988, 13677, 13395, 13138, 12901, 12683, 12479,
12288, 12109, 11940, 11780, 11629, 11485, 11347, 11216, 11090, 10969, 10853, 10742, 10635, 10531, 10431, 10334,
10240, 10149, 10061, 9975, 9892, 9811, 9732, 9655, 9581, 9508, 9437, 9367, 9299, 9233, 9168, 9104,
9042, 8981, 8921, 8863, 8805, 8749, 8694, 8640, 8587, 8534, 8483, 8432, 8383, 8334, 8286, 8239,
8192, 8146, 8101, 8057, 8013, 7970, 7927, 7885, 7844, 7803, 7763, 7723, 7684, 7646, 7607, 7570,
7533, 7496, 7460, 7424, 7389, 7354, 7319, 7285, 7251, 7218, 7185, 7152, 7120, 7088, 7056, 7025,
6994, 6963, 6933, 6903, 6873, 6844, 6815, 6786, 6757, 6729, 6701, 6673, 6646, 6619, 6592, 6565,
6539, 6512, 6486, 6460, 6435, 6409, 6384, 6359, 6335, 6310, 6286, 6262, 6238, 6214, 6191, 6167,
6144, 6121, 6098, 6076, 6053, 6031, 6009, 5987, 5965, 5943, 5922, 5900, 5879, 5858, 5837, 5817,
5796, 5776, 5755, 5735, 5715, 5695, 5675, 5656, 5636, 5617, 5598, 5578, 5559, 5541, 5522, 5503,
5485, 5466, 5448, 5430, 5412, 5394, 5376, 5358, 5341, 5323, 5306, 5288, 5271, 5254, 5237, 5220,
5203, 5186, 5170, 5153, 5137, 5120, 5104, 5088, 5072, 5056, 5040, 5024, 5008, 4993, 4977, 4961,
4946, 4931, 4915, 4900, 4885, 4870, 4855, 4840, 4825, 4811, 4796, 4781, 4767, 4752, 4738, 4724,
4709, 4695, 4681, 4667, 4653, 4639, 4625, 4612, 4598, 4584, 4571, 4557, 4544, 4530, 4517, 4504,
4491, 4477, 4464, 4451, 4438, 4425, 4412, 4400, 4387, 4374, 4361, 4349, 4336, 4324, 4311, 4299,
4287, 4274, 4262, 4250, 4238, 4226, 4214, 4202, 4190, 4178, 4166, 4154, 4143, 4131, 4119, 4108,
4096, 4084, 4073, 4062, 4050, 4039, 4028, 4016, 4005, 3994, 3983, 3972, 3961, 3950, 3939, 3928,
3917, 3906, 3895, 3884, 3874, 3863, 3852, 3842, 3831, 3821, 3810, 3800, 3789, 3779, 3769, 3758,
3748, 3738, 3728, 3717, 3707, 3697, 3687, 3677, 3667, 3657, 3647, 3637, 3627, 3618, 3608, 3598,
3588, 3579, 3569, 3559, 3550, 3540, 3530, 3521, 3511, 3502, 3493, 3483, 3474, 3465, 3455, 3446,
3437, 3427, 3418, 3409, 3400, 3391, 3382, 3373, 3364, 3355, 3346, 3337, 3328, 3319, 3310, 3301,
3293, 3284, 3275, 3266, 3258, 3249, 3240, 3232, 3223, 3214, 3206, 3197, 3189, 3180, 3172, 3163,
3155, 3147, 3138, 3130, 3122, 3113, 3105, 3097, 3089, 3080, 3072, 3064, 3056, 3048, 3040, 3032,
3024, 3016, 3008, 3000, 2992, 2984, 2976, 2968, 2960, 2952, 2945, 2937, 2929, 2921, 2913, 2906,
2898, 2890, 2883, 2875, 2867, 2860, 2852, 2845, 2837, 2830, 2822, 2815, 2807, 2800, 2792, 2785,
2777, 2770, 2763, 2755, 2748, 2741, 2733, 2726, 2719, 2712, 2704, 2697, 2690, 2683, 2676, 2669,
2661, 2654, 2647, 2640, 2633, 2626, 2619, 2612, 2605, 2598, 2591, 2584, 2577, 2571, 2564, 2557,
2550, 2543, 2536, 2530, 2523, 2516, 2509, 2502, 2496, 2489, 2482, 2476, 2469, 2462, 2456, 2449,
2443, 2436, 2429, 2423, 2416, 2410, 2403, 2397, 2390, 2384, 2377, 2371, 2364, 2358, 2352, 2345,
2339, 2332, 2326, 2320, 2313, 2307, 2301, 2295, 2288, 2282, 2276, 2270, 2263, 2257, 2251, 2245,
2239, 2233, 2226, 2220, 2214, 2208, 2202, 2196, 2190, 2184, 2178, 2172, 2166, 2160, 2154, 2148,
2142, 2136, 2130, 2124, 2118, 2112, 2106, 2100, 2095, 2089, 2083, 2077, 2071, 2065, 2060, 2054,
2048, 2042, 2036, 2031, 2025, 2019, 2014, 2008, 2002, 1997, 1991, 1985, 1980, 1974, 1968, 1963,
1957, 1951, 1946, 1940, 1935, 1929, 1924, 1918, 1913, 1907, 1902, 1896, 1891, 1885, 1880, 1874,
1869, 1863, 1858, 1853, 1847, 1842, 1836, 1831, 1826, 1820, 1815, 1810, 1804, 1799, 1794, 1789,
1783, 1778, 1773, 1767, 1762, 1757, 1752, 1747, 1741, 1736, 1731, 1726, 1721, 1715, 1710, 1705,
1700, 1695, 1690, 1685, 1680, 1674, 1669, 1664, 1659, 1654, 1649, 1644, 1639, 1634, 1629, 1624,
1619, 1614, 1609, 1604, 1599, 1594, 1589, 1584, 1579, 1574, 1570, 1565, 1560, 1555, 1550, 1545,
1540, 1535, 1531, 1526, 1521, 1516, 1511, 1506, 1502, 1497, 1492, 1487, 1482, 1478, 1473, 1468,
1463, 1459, 1454, 1449, 1445, 1440, 1435, 1431, 1426, 1421, 1417, 1412, 1407, 1403, 1398, 1393,
1389, 1384, 1379, 1375, 1370, 1366, 1361, 1357, 1352, 1347, 1343, 1338, 1334, 1329, 1325, 1320,
1316, 1311, 1307, 1302, 1298, 1293, 1289, 1284, 1280, 1275, 1271, 1267, 1262, 1258, 1253, 1249,
1245, 1240, 1236, 1231, 1227, 1223, 1218, 1214, 1210, 1205, 1201, 1197, 1192, 1188, 1184, 1179,
1175, 1171, 1166, 1162, 1158, 1154, 1149, 1145, 1141, 1137, 1132, 1128, 1124, 1120, 1115, 1111,
1107, 1103, 1099, 1095, 1090, 1086, 1082, 1078, 1074, 1070, 1065, 1061, 1057, 1053, 1049, 1045,
1041, 1037, 1032, 1028, 1024, 1020, 1016, 1012, 1008, 1004, 1000, 996, 992, 988, 984, 980,
976, 972, 968, 964, 960, 956, 952, 948, 944, 940, 936, 932, 928, 924, 920, 916,
912, 908, 904, 900, 897, 893, 889, 885, 881, 877, 873, 869, 865, 862, 858, 854,
850, 846, 842, 838, 835, 831, 827, 823, 819, 816, 812, 808, 804, 800, 797, 793,
789, 785, 782, 778, 774, 770, 767, 763, 759, 755, 752, 748, 744, 740, 737, 733,
729, 726, 722, 718, 715, 711, 707, 704, 700, 696, 693, 689, 685, 682, 678, 674,
671, 667, 664, 660, 656, 653, 649, 646, 642, 638, 635, 631, 628, 624, 621, 617,
613, 610, 606, 603, 599, 596, 592, 589, 585, 582, 578, 575, 571, 568, 564, 561,
557, 554, 550, 547, 543, 540, 536, 533, 529, 526, 523, 519, 516, 512, 509, 505,
502, 499, 495, 492, 488, 485, 482, 478, 475, 471, 468, 465, 461, 458, 454, 451,
448, 444, 441, 438, 434, 431, 428, 424, 421, 418, 414, 411, 408, 404, 401, 398,
395, 391, 388, 385, 381, 378, 375, 372, 368, 365, 362, 358, 355, 352, 349, 345,
342, 339, 336, 333, 329, 326, 323, 320, 316, 313, 310, 307, 304, 300, 297, 294,
291, 288, 284, 281, 278, 275, 272, 269, 265, 262, 259, 256, 253, 250, 247, 243,
240, 237, 234, 231, 228, 225, 222, 219, 215, 212, 209, 206, 203, 200, 197, 194,
191, 188, 185, 181, 178, 175, 172, 169, 166, 163, 160, 157, 154, 151, 148, 145,
142, 139, 136, 133, 130, 127, 124, 121, 118, 115, 112, 109, 106, 103, 100, 97,
94, 91, 88, 85, 82, 79, 76, 73, 70, 67, 64, 61, 58, 55, 52, 49,
47, 44, 41, 38, 35, 32, 29, 26, 23, 20, 17, 14, 12, 9, 6, 3,
0
};

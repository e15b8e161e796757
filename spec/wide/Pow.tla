-------------------------------- MODULE Pow --------------------------------
(***************************************************************************)
(* The powers of two from 2^0 to 2^120 in groups of four decimal digits,   *)
(* the lowest first; a table, so that TLC does not compute them again and  *)
(* again. That each row is twice the one before is checked by WTrace.tla.  *)
(***************************************************************************)
Table == <<
  <<1>>,
  <<2>>,
  <<4>>,
  <<8>>,
  <<16>>,
  <<32>>,
  <<64>>,
  <<128>>,
  <<256>>,
  <<512>>,
  <<1024>>,
  <<2048>>,
  <<4096>>,
  <<8192>>,
  <<6384, 1>>,
  <<2768, 3>>,
  <<5536, 6>>,
  <<1072, 13>>,
  <<2144, 26>>,
  <<4288, 52>>,
  <<8576, 104>>,
  <<7152, 209>>,
  <<4304, 419>>,
  <<8608, 838>>,
  <<7216, 1677>>,
  <<4432, 3355>>,
  <<8864, 6710>>,
  <<7728, 3421, 1>>,
  <<5456, 6843, 2>>,
  <<912, 3687, 5>>,
  <<1824, 7374, 10>>,
  <<3648, 4748, 21>>,
  <<7296, 9496, 42>>,
  <<4592, 8993, 85>>,
  <<9184, 7986, 171>>,
  <<8368, 5973, 343>>,
  <<6736, 1947, 687>>,
  <<3472, 3895, 1374>>,
  <<6944, 7790, 2748>>,
  <<3888, 5581, 5497>>,
  <<7776, 1162, 995, 1>>,
  <<5552, 2325, 1990, 2>>,
  <<1104, 4651, 3980, 4>>,
  <<2208, 9302, 7960, 8>>,
  <<4416, 8604, 5921, 17>>,
  <<8832, 7208, 1843, 35>>,
  <<7664, 4417, 3687, 70>>,
  <<5328, 8835, 7374, 140>>,
  <<656, 7671, 4749, 281>>,
  <<1312, 5342, 9499, 562>>,
  <<2624, 684, 8999, 1125>>,
  <<5248, 1368, 7998, 2251>>,
  <<496, 2737, 5996, 4503>>,
  <<992, 5474, 1992, 9007>>,
  <<1984, 948, 3985, 8014, 1>>,
  <<3968, 1896, 7970, 6028, 3>>,
  <<7936, 3792, 5940, 2057, 7>>,
  <<5872, 7585, 1880, 4115, 14>>,
  <<1744, 5171, 3761, 8230, 28>>,
  <<3488, 342, 7523, 6460, 57>>,
  <<6976, 684, 5046, 2921, 115>>,
  <<3952, 1369, 92, 5843, 230>>,
  <<7904, 2738, 184, 1686, 461>>,
  <<5808, 5477, 368, 3372, 922>>,
  <<1616, 955, 737, 6744, 1844>>,
  <<3232, 1910, 1474, 3488, 3689>>,
  <<6464, 3820, 2948, 6976, 7378>>,
  <<2928, 7641, 5896, 3952, 4757, 1>>,
  <<5856, 5282, 1793, 7905, 9514, 2>>,
  <<1712, 565, 3587, 5810, 9029, 5>>,
  <<3424, 1130, 7174, 1620, 8059, 11>>,
  <<6848, 2260, 4348, 3241, 6118, 23>>,
  <<3696, 4521, 8696, 6482, 2236, 47>>,
  <<7392, 9042, 7392, 2965, 4473, 94>>,
  <<4784, 8085, 4785, 5931, 8946, 188>>,
  <<9568, 6170, 9571, 1862, 7893, 377>>,
  <<9136, 2341, 9143, 3725, 5786, 755>>,
  <<8272, 4683, 8286, 7451, 1572, 1511>>,
  <<6544, 9367, 6572, 4903, 3145, 3022>>,
  <<3088, 8735, 3145, 9807, 6290, 6044>>,
  <<6176, 7470, 6291, 9614, 2581, 2089, 1>>,
  <<2352, 4941, 2583, 9229, 5163, 4178, 2>>,
  <<4704, 9882, 5166, 8458, 327, 8357, 4>>,
  <<9408, 9764, 333, 6917, 655, 6714, 9>>,
  <<8816, 9529, 667, 3834, 1311, 3428, 19>>,
  <<7632, 9059, 1335, 7668, 2622, 6856, 38>>,
  <<5264, 8119, 2671, 5336, 5245, 3712, 77>>,
  <<528, 6239, 5343, 672, 491, 7425, 154>>,
  <<1056, 2478, 687, 1345, 982, 4850, 309>>,
  <<2112, 4956, 1374, 2690, 1964, 9700, 618>>,
  <<4224, 9912, 2748, 5380, 3928, 9400, 1237>>,
  <<8448, 9824, 5497, 760, 7857, 8800, 2475>>,
  <<6896, 9649, 995, 1521, 5714, 7601, 4951>>,
  <<3792, 9299, 1991, 3042, 1428, 5203, 9903>>,
  <<7584, 8598, 3983, 6084, 2856, 406, 9807, 1>>,
  <<5168, 7197, 7967, 2168, 5713, 812, 9614, 3>>,
  <<336, 4395, 5935, 4337, 1426, 1625, 9228, 7>>,
  <<672, 8790, 1870, 8675, 2852, 3250, 8456, 15>>,
  <<1344, 7580, 3741, 7350, 5705, 6500, 6912, 31>>,
  <<2688, 5160, 7483, 4700, 1411, 3001, 3825, 63>>,
  <<5376, 320, 4967, 9401, 2822, 6002, 7650, 126>>,
  <<752, 641, 9934, 8802, 5645, 2004, 5301, 253>>,
  <<1504, 1282, 9868, 7605, 1291, 4009, 602, 507>>,
  <<3008, 2564, 9736, 5211, 2583, 8018, 1204, 1014>>,
  <<6016, 5128, 9472, 423, 5167, 6036, 2409, 2028>>,
  <<2032, 257, 8945, 847, 334, 2073, 4819, 4056>>,
  <<4064, 514, 7890, 1695, 668, 4146, 9638, 8112>>,
  <<8128, 1028, 5780, 3391, 1336, 8292, 9276, 6225, 1>>,
  <<6256, 2057, 1560, 6783, 2672, 6584, 8553, 2451, 3>>,
  <<2512, 4115, 3120, 3566, 5345, 3168, 7107, 4903, 6>>,
  <<5024, 8230, 6240, 7132, 690, 6337, 4214, 9807, 12>>,
  <<48, 6461, 2481, 4265, 1381, 2674, 8429, 9614, 25>>,
  <<96, 2922, 4963, 8530, 2762, 5348, 6858, 9229, 51>>,
  <<192, 5844, 9926, 7060, 5525, 696, 3717, 8459, 103>>,
  <<384, 1688, 9853, 4121, 1051, 1393, 7434, 6918, 207>>,
  <<768, 3376, 9706, 8243, 2102, 2786, 4868, 3837, 415>>,
  <<1536, 6752, 9412, 6487, 4205, 5572, 9736, 7674, 830>>,
  <<3072, 3504, 8825, 2975, 8411, 1144, 9473, 5349, 1661>>,
  <<6144, 7008, 7650, 5951, 6822, 2289, 8946, 699, 3323>>,
  <<2288, 4017, 5301, 1903, 3645, 4579, 7892, 1399, 6646>>,
  <<4576, 8034, 602, 3807, 7290, 9158, 5784, 2799, 3292, 1>>>>
=============================================================================

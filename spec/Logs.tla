-------------------------------- MODULE Logs --------------------------------
(* Binary logarithms and powers in fixed point: tables with linear interpolation. The tables are
   checked by MC_Likelihood (the logarithm of a product, powers as inverses of logarithms, ...). *)
EXTENDS Integers, Sequences, Sums

U == 100000                       \* logarithms are in units of 1/U
\* log2(1 + i/256) U
LogTab == <<
  0, 562, 1123, 1681, 2237, 2791, 3342, 3892, 4439, 4985, 5528, 6070, 6609, 7146, 7682, 8215, 8746, 9276, 9803,
  10329, 10852, 11374, 11894, 12412, 12928, 13443, 13955, 14466, 14975, 15482, 15987, 16491, 16993, 17493, 17991,
  18488, 18982, 19476, 19967, 20457, 20945, 21432, 21917, 22400, 22882, 23362, 23840, 24317, 24793, 25267, 25739,
  26209, 26679, 27146, 27612, 28077, 28540, 29002, 29462, 29921, 30378, 30834, 31288, 31741, 32193, 32643, 33092,
  33539, 33985, 34430, 34873, 35315, 35755, 36194, 36632, 37069, 37504, 37938, 38370, 38802, 39232, 39660, 40088,
  40514, 40939, 41363, 41785, 42206, 42626, 43045, 43463, 43879, 44294, 44708, 45121, 45533, 45943, 46352, 46761,
  47168, 47573, 47978, 48382, 48784, 49185, 49586, 49985, 50383, 50779, 51175, 51570, 51964, 52356, 52748, 53138,
  53528, 53916, 54303, 54689, 55075, 55459, 55842, 56224, 56605, 56986, 57365, 57743, 58120, 58496, 58871, 59246,
  59619, 59991, 60363, 60733, 61102, 61471, 61839, 62205, 62571, 62936, 63300, 63662, 64024, 64386, 64746, 65105,
  65464, 65821, 66178, 66534, 66888, 67243, 67596, 67948, 68299, 68650, 69000, 69349, 69697, 70044, 70390, 70736,
  71081, 71425, 71768, 72110, 72451, 72792, 73132, 73471, 73809, 74147, 74483, 74819, 75154, 75489, 75822, 76155,
  76487, 76818, 77149, 77479, 77808, 78136, 78463, 78790, 79116, 79442, 79766, 80090, 80413, 80735, 81057, 81378,
  81698, 82018, 82337, 82655, 82972, 83289, 83605, 83920, 84235, 84549, 84862, 85175, 85487, 85798, 86109, 86419,
  86728, 87036, 87344, 87652, 87958, 88264, 88570, 88874, 89178, 89482, 89785, 90087, 90388, 90689, 90989, 91289,
  91588, 91886, 92184, 92481, 92778, 93074, 93369, 93664, 93958, 94251, 94544, 94837, 95128, 95420, 95710, 96000,
  96290, 96578, 96867, 97154, 97441, 97728, 98014, 98299, 98584, 98868, 99152, 99435, 99718, 100000 >>
\* 2^(-i/128) 2^20
ExpTab == <<
  1048576, 1042913, 1037281, 1031679, 1026107, 1020566, 1015054, 1009572, 1004120, 998697, 993303, 987939, 982604,
  977297, 972019, 966770, 961548, 956356, 951191, 946054, 940944, 935863, 930809, 925782, 920782, 915809, 910863,
  905944, 901051, 896185, 891345, 886532, 881744, 876982, 872246, 867535, 862850, 858190, 853555, 848946, 844361,
  839801, 835265, 830754, 826268, 821806, 817367, 812953, 808563, 804196, 799853, 795533, 791237, 786964, 782714,
  778487, 774282, 770101, 765942, 761805, 757691, 753599, 749529, 745481, 741455, 737451, 733468, 729507, 725567,
  721649, 717752, 713875, 710020, 706185, 702372, 698578, 694806, 691053, 687321, 683609, 679917, 676245, 672593,
  668961, 665348, 661755, 658181, 654627, 651091, 647575, 644078, 640599, 637140, 633699, 630276, 626872, 623487,
  620120, 616771, 613440, 610127, 606832, 603555, 600295, 597053, 593829, 590622, 587432, 584260, 581104, 577966,
  574845, 571740, 568652, 565581, 562527, 559489, 556467, 553462, 550473, 547500, 544543, 541603, 538678, 535768,
  532875, 529997, 527135, 524288 >>

RECURSIVE Two(_)
Two(n) == IF n <= 0 THEN 1 ELSE 2 * Two(n - 1)
RECURSIVE Bits(_)
Bits(p) == IF p < 2 THEN 0 ELSE 1 + Bits(p \div 2)        \* floor of log2

\* log2 p, of a whole number p > 0, in units of 1/U
Log2(p) == LET e == Bits(p)
               q == IF e >= 20 THEN p \div Two(e - 20) ELSE p * Two(20 - e)
               i == (q - 1048576) \div 4096   r == q % 4096
           IN e * U + LogTab[i + 1] + ((LogTab[i + 2] - LogTab[i + 1]) * r) \div 4096

\* 2^(-d) 2^20 for d >= 0 in units of 1/U
Exp2Neg(d) == LET i == d \div U  f == d % U
                  j == (f * 128) \div U  r == (f * 128) % U
                  v == ExpTab[j + 1] - ((ExpTab[j + 1] - ExpTab[j + 2]) * (r \div 100)) \div (U \div 100)
              IN IF i > 25 THEN 0 ELSE v \div Two(i)

E8 == 100000000
\* a b / 10^8, for 0 <= a, b <= 10^8 (two units of error)
Mul8(a, b) == LET a1 == a \div 10000 a0 == a % 10000 b1 == b \div 10000 b0 == b % 10000
              IN a1 * b1 + (a1 * b0 + a0 * b1) \div 10000 + (a0 * b0) \div E8

\* n l / 10
Tenth(n, l) == n * (l \div 10) + (n * (l % 10)) \div 10
=============================================================================

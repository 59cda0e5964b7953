---------------------------- MODULE CurvesTable ----------------------------
(* Written by tools/mkcurves.py: values of the documented curves, in units of
   10^-6, by type, parameter choice and level (sequences, so offset by one). *)
EXTENDS Integers, Sequences
\* effective saturation at capillary pressure level l
SeTable == <<<<<<1000000, 1000000, 1000000, 980199, 687289, 472367, 263597, 90718, 45, 0>>,
  <<1000000, 1000000, 1000000, 995012, 910510, 829029, 716531, 548812, 82085, 0>>,
  <<1000000, 1000000, 1000000, 990050, 829029, 687289, 513417, 301194, 6738, 0>>,
  <<1000000, 1000000, 1000000, 951229, 391606, 153355, 35674, 2479, 0, 0>>>>,
  <<<<1000000, 1000000, 1000000, 999800, 936329, 800000, 600000, 384615, 99504, 12499>>,
  <<1000000, 1000000, 1000000, 1000000, 999074, 985421, 873544, 430789, 7990, 16>>,
  <<1000000, 1000000, 1000000, 996609, 878175, 778888, 679240, 575806, 366726, 184149>>,
  <<1000000, 1000000, 1000000, 1000000, 1000000, 999994, 999897, 998060, 326502, 100>>>>>>
\* relative permeability at effective saturation level l
KrTable == <<<<<<0, 2500, 40000, 250000, 640000, 864900, 921600, 970225, 984064, 996004, 1000000>>,
  <<0, 125, 8000, 125000, 512000, 804357, 884736, 955672, 976191, 994012, 1000000>>,
  <<0, 50000, 200000, 500000, 800000, 930000, 960000, 985000, 992000, 998000, 1000000>>,
  <<0, 11180, 89443, 353553, 715542, 896860, 940604, 977585, 988024, 997002, 1000000>>>>,
  <<<<0, 0, 183, 12692, 143108, 385728, 507926, 679512, 777553, 976300, 1000000>>,
  <<0, 43, 3548, 70424, 364852, 668589, 775363, 889902, 934779, 993471, 1000000>>,
  <<0, 0, 0, 181, 13627, 81955, 139250, 255976, 393767, 931735, 1000000>>,
  <<0, 80, 5266, 88432, 410065, 710898, 810192, 911861, 949351, 994995, 1000000>>,
  <<0, 4, 775, 29158, 227381, 584940, 821680, 969909, 991041, 999419, 1000000>>>>>>
\* relative permeability at the effective saturation of saturation model (t, q) at level l
KrOfTable == <<<<<<<<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<960789, 941765, 980199, 970446>>, <<636778, 864907, 221903, 890207, 949241>>>>, <<<<472367, 324652, 687289, 569783>>, <<62066, 209917, 3102, 245782, 112618>>>>, <<<<223130, 105399, 472367, 324652>>, <<9667, 58231, 111, 73956, 23105>>>>, <<<<69483, 18316, 263597, 135335>>, <<642, 8630, 1, 12207, 2271>>>>, <<<<8230, 747, 90718, 27324>>, <<5, 284, 0, 483, 37>>>>, <<<<0, 0, 45, 0>>, <<0, 0, 0, 0, 0>>>>, <<<<0, 0, 0, 0>>, <<0, 0, 0, 0, 0>>>>>>,
  <<<<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<990050, 985112, 995012, 992528>>, <<882950, 966992, 669529, 974571, 996451>>>>, <<<<829029, 754840, 910510, 868815>>, <<328246, 609631, 60692, 654553, 460782>>>>, <<<<687289, 569783, 829029, 754840>>, <<176912, 417877, 19868, 464480, 271231>>>>, <<<<513417, 367879, 716531, 606531>>, <<77430, 243541, 4591, 282182, 135769>>>>, <<<<301194, 165299, 548812, 406570>>, <<19938, 96412, 409, 118765, 42879>>>>, <<<<6738, 553, 82085, 23518>>, <<3, 207, 0, 357, 25>>>>, <<<<0, 0, 0, 0>>, <<0, 0, 0, 0, 0>>>>>>,
  <<<<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<980199, 970446, 990050, 985112>>, <<734697, 918837, 306543, 936444, 986314>>>>, <<<<687289, 569783, 829029, 754840>>, <<176912, 417877, 19868, 464480, 271231>>>>, <<<<472367, 324652, 687289, 569783>>, <<62066, 209917, 3102, 245782, 112618>>>>, <<<<263597, 135335, 513417, 367879>>, <<14420, 76975, 228, 96140, 32517>>>>, <<<<90718, 27324, 301194, 165299>>, <<1183, 13289, 2, 18358, 3831>>>>, <<<<45, 0, 6738, 553>>, <<0, 0, 0, 0, 0>>>>, <<<<0, 0, 0, 0>>, <<0, 0, 0, 0, 0>>>>>>,
  <<<<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<904837, 860708, 951229, 927743>>, <<466387, 741648, 117774, 779248, 753505>>>>, <<<<153355, 60055, 391606, 245061>>, <<3992, 31308, 22, 41223, 10843>>>>, <<<<23518, 3607, 153355, 60055>>, <<55, 1516, 0, 2355, 277>>>>, <<<<1273, 45, 35674, 6738>>, <<0, 15, 0, 29, 1>>>>, <<<<6, 0, 2479, 123>>, <<0, 0, 0, 0, 0>>>>, <<<<0, 0, 0, 0>>, <<0, 0, 0, 0, 0>>>>, <<<<0, 0, 0, 0>>, <<0, 0, 0, 0, 0>>>>>>>>,
  <<<<<<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<999600, 999400, 999800, 999700>>, <<999734, 999927, 999227, 999944, 999994>>>>, <<<<876712, 820891, 936329, 906031>>, <<407416, 689280, 90871, 730427, 633730>>>>, <<<<640000, 512000, 800000, 715542>>, <<143108, 364852, 13627, 410065, 227381>>>>, <<<<360000, 216000, 600000, 464758>>, <<30984, 130724, 901, 157967, 62434>>>>, <<<<147929, 56896, 384615, 238528>>, <<3670, 29509, 19, 38986, 10090>>>>, <<<<9901, 985, 99504, 31388>>, <<8, 382, 0, 638, 52>>>>, <<<<156, 2, 12499, 1397>>, <<0, 1, 0, 1, 0>>>>>>,
  <<<<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<998149, 997225, 999074, 998611>>, <<994544, 998506, 984202, 998857, 999875>>>>, <<<<971054, 956896, 985421, 978211>>, <<683635, 892193, 259480, 913828, 971493>>>>, <<<<763080, 666584, 873544, 816446>>, <<246212, 513429, 35930, 560484, 356128>>>>, <<<<185579, 79945, 430789, 282746>>, <<6245, 42879, 50, 55445, 15902>>>>, <<<<64, 1, 7990, 714>>, <<0, 0, 0, 0, 0>>>>, <<<<0, 0, 16, 0>>, <<0, 0, 0, 0, 0>>>>>>,
  <<<<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<993229, 989861, 996609, 994918>>, <<938399, 982865, 824001, 986839, 998343>>>>, <<<<771191, 677240, 878175, 822946>>, <<255015, 524534, 38285, 571475, 366501>>>>, <<<<606666, 472524, 778888, 687404>>, <<122680, 330142, 10370, 373979, 199919>>>>, <<<<461367, 313379, 679240, 559803>>, <<58351, 201348, 2780, 236428, 106885>>>>, <<<<331552, 190910, 575806, 436932>>, <<25249, 113527, 625, 138425, 52445>>>>, <<<<134488, 49320, 366726, 222082>>, <<2940, 25242, 13, 33645, 8345>>>>, <<<<33911, 6245, 184149, 79023>>, <<126, 2723, 0, 4099, 562>>>>>>,
  <<<<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 1000000, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<1000000, 999999, 1000000, 1000000>>, <<1000000, 1000000, 1000000, 1000000, 1000000>>>>, <<<<999988, 999983, 999994, 999991>>, <<1000000, 1000000, 999999, 1000000, 1000000>>>>, <<<<999794, 999691, 999897, 999846>>, <<999929, 999981, 999794, 999985, 999998>>>>, <<<<996124, 994192, 998060, 997092>>, <<977614, 993835, 935499, 995275, 999453>>>>, <<<<106603, 34806, 326502, 186564>>, <<1716, 17274, 5, 23518, 5265>>>>, <<<<0, 0, 100, 1>>, <<0, 0, 0, 0, 0>>>>>>>>>>
PcLevels == 10
SeLevels == 11
NSat == <<4, 4>>
NKr == <<4, 5>>
=============================================================================

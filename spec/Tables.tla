-------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The elementary functions and powers to three decimal places, in         *)
(* thousandths, of some numbers given in quarters.  U: not defined, or too *)
(* near the half way between two thousandths, or too large                 *)
(***************************************************************************)
EXTENDS Values
TabX == <<-12, -8, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 8, 10, 12, 16, 20>>
TabR ==
    [ sin |-> <<-141, -909, U, -949, U, -682, -479, -247, 0, 247, 479, 682, U, 949, U, 909, U, 141, -757, -959>>,
     cos |-> <<-990, -416, 71, 315, 540, 732, 878, 969, 1000, 969, 878, 732, 540, 315, 71, -416, -801, -990, -654, 284>>,
     tan |-> <<143, 2185, -14101, -3010, -1557, -932, -546, -255, 0, 255, 546, 932, 1557, 3010, 14101, -2185, -747, -143, 1158, U>>,
     atan |-> <<-1249, -1107, -983, -896, -785, U, -464, -245, 0, 245, 464, U, 785, 896, 983, 1107, 1190, 1249, 1326, 1373>>,
     exp |-> <<50, 135, 223, U, 368, 472, 607, 779, 1000, 1284, 1649, 2117, 2718, 3490, 4482, 7389, U, 20086, 54598, 148413>>,
     log |-> <<U, U, U, U, U, U, U, U, U, -1386, -693, -288, 0, 223, 405, 693, 916, 1099, 1386, 1609>>,
     sqrt |-> <<U, U, U, U, U, U, U, U, 0, 500, 707, 866, 1000, 1118, 1225, 1414, 1581, 1732, 2000, 2236>>,
     arg |-> <<3142, 3142, 3142, 3142, 3142, 3142, 3142, 3142, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>> ]
TabZ == <<<<-6, -8>>, <<-6, -3>>, <<-6, 0>>, <<-6, 1>>, <<-6, 4>>, <<-2, -8>>, <<-2, -3>>, <<-2, 0>>, <<-2, 1>>, <<-2, 4>>, <<0, -8>>, <<0, -3>>, <<0, 0>>, <<0, 1>>, <<0, 4>>, <<3, -8>>, <<3, -3>>, <<3, 0>>, <<3, 1>>, <<3, 4>>, <<8, -8>>, <<8, -3>>, <<8, 0>>, <<8, 1>>, <<8, 4>>>>
TabC ==
    [ sin |-> <<<<-3753, -257>>, <<-1291, -58>>, <<U, U>>, <<-1029, 18>>, <<-1539, 83>>, <<-1804, -3183>>, <<-621, -722>>, <<-479, 0>>, <<U, U>>, <<-740, 1031>>, <<0, -3627>>, <<0, -822>>, <<0, 0>>, <<0, 253>>, <<0, 1175>>, <<2564, -2654>>, <<U, U>>, <<682, 0>>, <<703, 185>>, <<1052, 860>>, <<3421, 1509>>, <<1177, 342>>, <<909, 0>>, <<938, -105>>, <<1403, -489>>>>,
     cos |-> <<<<266, -3618>>, <<92, -820>>, <<71, 0>>, <<73, 252>>, <<109, 1172>>, <<3302, -1739>>, <<1136, -394>>, <<878, 0>>, <<905, 121>>, <<1354, 563>>, <<3762, 0>>, <<1295, 0>>, <<1000, 0>>, <<1031, 0>>, <<1543, 0>>, <<2753, 2472>>, <<U, U>>, <<732, 0>>, <<755, -172>>, <<1129, -801>>, <<-1566, 3298>>, <<-539, 748>>, <<-416, 0>>, <<-429, -230>>, <<-642, -1069>>>>,
     tan |-> <<<<-5, -1037>>, <<-104, -1563>>, <<-14101, 0>>, <<-1025, 3786>>, <<-51, 1308>>, <<-30, -980>>, <<-291, -736>>, <<-546, 0>>, <<U, U>>, <<-196, 843>>, <<0, -964>>, <<0, -635>>, <<0, 0>>, <<0, 245>>, <<0, 762>>, <<36, -997>>, <<412, -879>>, <<932, 0>>, <<832, 435>>, <<260, 946>>, <<-28, -1024>>, <<U, U>>, <<-2185, 0>>, <<-1597, 1099>>, <<-243, 1167>>>>,
     atan |-> <<<<-1311, -310>>, <<-1057, -208>>, <<-983, 0>>, <<-992, 76>>, <<-1107, 255>>, <<-1422, -500>>, <<-693, -590>>, <<-464, 0>>, <<-484, 201>>, <<-908, 708>>, <<U, U>>, <<0, -973>>, <<0, 0>>, <<0, 255>>, <<U, U>>, <<1372, -453>>, <<827, -439>>, <<U, U>>, <<663, 159>>, <<965, 523>>, <<1311, -239>>, <<1149, -138>>, <<1107, 0>>, <<1112, 50>>, <<1178, 173>>>>,
     exp |-> <<<<-93, -203>>, <<163, -152>>, <<223, 0>>, <<216, 55>>, <<121, 188>>, <<U, U>>, <<444, -413>>, <<607, 0>>, <<588, 150>>, <<328, 510>>, <<-416, -909>>, <<732, -682>>, <<1000, 0>>, <<969, 247>>, <<U, U>>, <<-881, -1925>>, <<1549, -1443>>, <<2117, 0>>, <<2051, 524>>, <<1144, 1781>>, <<-3075, -6719>>, <<U, U>>, <<7389, 0>>, <<7159, 1828>>, <<3992, 6218>>>>,
     log |-> <<<<916, -2214>>, <<517, -2678>>, <<405, 3142>>, <<419, 2976>>, <<589, 2554>>, <<723, -1816>>, <<-104, -2159>>, <<-693, 3142>>, <<-582, 2678>>, <<112, 2034>>, <<693, -1571>>, <<-288, -1571>>, <<U, U>>, <<-1386, 1571>>, <<0, 1571>>, <<759, -1212>>, <<59, -785>>, <<-288, 0>>, <<-235, 322>>, <<223, 927>>, <<1040, -785>>, <<759, -359>>, <<693, 0>>, <<701, 124>>, <<805, 464>>>>,
     sqrt |-> <<<<707, -1414>>, <<298, -1260>>, <<0, 1225>>, <<102, 1229>>, <<389, 1285>>, <<884, -1132>>, <<448, -837>>, <<0, 707>>, <<172, 728>>, <<556, 899>>, <<1000, -1000>>, <<612, -612>>, <<0, 0>>, <<354, 354>>, <<707, 707>>, <<1201, -832>>, <<U, U>>, <<866, 0>>, <<878, 142>>, <<1000, 500>>, <<1554, -644>>, <<1438, -261>>, <<1414, 0>>, <<1417, 88>>, <<1455, 344>>>>,
     arg |-> <<<<-2214, 0>>, <<-2678, 0>>, <<3142, 0>>, <<2976, 0>>, <<2554, 0>>, <<-1816, 0>>, <<-2159, 0>>, <<3142, 0>>, <<2678, 0>>, <<2034, 0>>, <<-1571, 0>>, <<-1571, 0>>, <<U, U>>, <<1571, 0>>, <<1571, 0>>, <<-1212, 0>>, <<-785, 0>>, <<0, 0>>, <<322, 0>>, <<927, 0>>, <<-785, 0>>, <<-359, 0>>, <<0, 0>>, <<124, 0>>, <<464, 0>>>>,
     abs |-> <<<<2500, 0>>, <<1677, 0>>, <<1500, 0>>, <<1521, 0>>, <<1803, 0>>, <<2062, 0>>, <<901, 0>>, <<500, 0>>, <<559, 0>>, <<1118, 0>>, <<2000, 0>>, <<750, 0>>, <<0, 0>>, <<250, 0>>, <<1000, 0>>, <<2136, 0>>, <<1061, 0>>, <<750, 0>>, <<791, 0>>, <<1250, 0>>, <<2828, 0>>, <<2136, 0>>, <<2000, 0>>, <<2016, 0>>, <<2236, 0>>>>,
     norm |-> <<<<6250, 0>>, <<U, U>>, <<2250, 0>>, <<U, U>>, <<3250, 0>>, <<4250, 0>>, <<U, U>>, <<250, 0>>, <<U, U>>, <<1250, 0>>, <<4000, 0>>, <<U, U>>, <<0, 0>>, <<U, U>>, <<1000, 0>>, <<U, U>>, <<1125, 0>>, <<U, U>>, <<625, 0>>, <<U, U>>, <<8000, 0>>, <<U, U>>, <<4000, 0>>, <<U, U>>, <<5000, 0>>>> ]
PowB == <<1, 2, 6, 9, 12, -6>>
PowE == <<-6, -4, -2, 1, 2, 3, 6, 8, 10, 12>>
PowR ==
    <<<<8000, 4000, 2000, 707, 500, 354, 125, U, 31, 16>>, <<2828, 2000, 1414, 841, 707, 595, 354, 250, 177, 125>>, <<544, 667, U, 1107, 1225, 1355, 1837, 2250, 2756, 3375>>, <<296, 444, 667, 1225, 1500, 1837, 3375, U, 7594, 11391>>, <<192, 333, 577, 1316, 1732, U, 5196, 9000, 15588, 27000>>, <<U, -667, U, U, U, U, U, 2250, U, -3375>>>>
CPowB == <<<<0, 4>>, <<4, 4>>, <<-2, 6>>, <<3, 0>>, <<-4, 0>>>>
CPowE == <<<<0, 4>>, <<2, 0>>, <<3, -2>>, <<-4, 1>>, <<8, 0>>>>
CPowR ==
    <<<<<<208, 0>>, <<707, 707>>, <<839, 2026>>, <<0, -675>>, <<-1000, 0>>>>, <<<<429, 155>>, <<1099, 455>>, <<1757, 776>>, <<445, -374>>, <<0, 2000>>>>, <<<<135, 67>>, <<735, 1020>>, <<1349, 3373>>, <<-81, -386>>, <<-2000, -1500>>>>, <<<<959, -284>>, <<866, 0>>, <<U, U>>, <<1330, -96>>, <<U, U>>>>, <<<<43, 0>>, <<0, 1000>>, <<U, U>>, <<-456, 0>>, <<1000, 0>>>>>>
=============================================================================

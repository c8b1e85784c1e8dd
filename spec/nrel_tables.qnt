/// Periodic terms of NREL/TP-560-34302 (generated by tools/gen_nrel_tables.py
/// from pvlib.spa, an independent transcription of the report). Scale 10^18,
/// but for the amplitudes A (units of 1e-8 rad or AU) and nutation terms.
module nrel_tables {
  pure val L0: List[(int, int, int)] = [
    (175347046, 0, 0),
    (3341656, 4669256800000000000, 6283075850000000000000),
    (34894, 4626100000000000000, 12566151700000000000000),
    (3497, 2744100000000000000, 5753384900000000000000),
    (3418, 2828900000000000000, 3523100000000000000),
    (3136, 3627700000000000000, 77713771500000000000000),
    (2676, 4418100000000000000, 7860419400000000000000),
    (2343, 6135200000000000000, 3930209700000000000000),
    (1324, 742500000000000000, 11506769800000000000000),
    (1273, 2037100000000000000, 529691000000000000000),
    (1199, 1109600000000000000, 1577343500000000000000),
    (990, 5233000000000000000, 5884927000000000000000),
    (902, 2045000000000000000, 26298000000000000000),
    (857, 3508000000000000000, 398149000000000000000),
    (780, 1179000000000000000, 5223694000000000000000),
    (753, 2533000000000000000, 5507553000000000000000),
    (505, 4583000000000000000, 18849228000000000000000),
    (492, 4205000000000000000, 775523000000000000000),
    (357, 2920000000000000000, 67000000000000000),
    (317, 5849000000000000000, 11790629000000000000000),
    (284, 1899000000000000000, 796298000000000000000),
    (271, 315000000000000000, 10977079000000000000000),
    (243, 345000000000000000, 5486778000000000000000),
    (206, 4806000000000000000, 2544314000000000000000),
    (205, 1869000000000000000, 5573143000000000000000),
    (202, 2458000000000000000, 6069777000000000000000),
    (156, 833000000000000000, 213299000000000000000),
    (132, 3411000000000000000, 2942463000000000000000),
    (126, 1083000000000000000, 20775000000000000000),
    (115, 645000000000000000, 980000000000000000),
    (103, 636000000000000000, 4694003000000000000000),
    (102, 976000000000000000, 15720839000000000000000),
    (102, 4267000000000000000, 7114000000000000000),
    (99, 6210000000000000000, 2146170000000000000000),
    (98, 680000000000000000, 155420000000000000000),
    (86, 5980000000000000000, 161000690000000000000000),
    (85, 1300000000000000000, 6275960000000000000000),
    (85, 3670000000000000000, 71430700000000000000000),
    (80, 1810000000000000000, 17260150000000000000000),
    (79, 3040000000000000000, 12036460000000000000000),
    (75, 1760000000000000000, 5088630000000000000000),
    (74, 3500000000000000000, 3154690000000000000000),
    (74, 4680000000000000000, 801820000000000000000),
    (70, 830000000000000000, 9437760000000000000000),
    (62, 3980000000000000000, 8827390000000000000000),
    (61, 1820000000000000000, 7084900000000000000000),
    (57, 2780000000000000000, 6286600000000000000000),
    (56, 4390000000000000000, 14143500000000000000000),
    (56, 3470000000000000000, 6279550000000000000000),
    (52, 190000000000000000, 12139550000000000000000),
    (52, 1330000000000000000, 1748020000000000000000),
    (51, 280000000000000000, 5856480000000000000000),
    (49, 490000000000000000, 1194450000000000000000),
    (41, 5370000000000000000, 8429240000000000000000),
    (41, 2400000000000000000, 19651050000000000000000),
    (39, 6170000000000000000, 10447390000000000000000),
    (37, 6040000000000000000, 10213290000000000000000),
    (37, 2570000000000000000, 1059380000000000000000),
    (36, 1710000000000000000, 2352870000000000000000),
    (36, 1780000000000000000, 6812770000000000000000),
    (33, 590000000000000000, 17789850000000000000000),
    (30, 440000000000000000, 83996850000000000000000),
    (30, 2740000000000000000, 1349870000000000000000),
    (25, 3160000000000000000, 4690480000000000000000)]
  pure val L1: List[(int, int, int)] = [
    (628331966747, 0, 0),
    (206059, 2678235000000000000, 6283075850000000000000),
    (4303, 2635100000000000000, 12566151700000000000000),
    (425, 1590000000000000000, 3523000000000000000),
    (119, 5796000000000000000, 26298000000000000000),
    (109, 2966000000000000000, 1577344000000000000000),
    (93, 2590000000000000000, 18849230000000000000000),
    (72, 1140000000000000000, 529690000000000000000),
    (68, 1870000000000000000, 398150000000000000000),
    (67, 4410000000000000000, 5507550000000000000000),
    (59, 2890000000000000000, 5223690000000000000000),
    (56, 2170000000000000000, 155420000000000000000),
    (45, 400000000000000000, 796300000000000000000),
    (36, 470000000000000000, 775520000000000000000),
    (29, 2650000000000000000, 7110000000000000000),
    (21, 5340000000000000000, 980000000000000000),
    (19, 1850000000000000000, 5486780000000000000000),
    (19, 4970000000000000000, 213300000000000000000),
    (17, 2990000000000000000, 6275960000000000000000),
    (16, 30000000000000000, 2544310000000000000000),
    (16, 1430000000000000000, 2146170000000000000000),
    (15, 1210000000000000000, 10977080000000000000000),
    (12, 2830000000000000000, 1748020000000000000000),
    (12, 3260000000000000000, 5088630000000000000000),
    (12, 5270000000000000000, 1194450000000000000000),
    (12, 2080000000000000000, 4694000000000000000000),
    (11, 770000000000000000, 553570000000000000000),
    (10, 1300000000000000000, 6286600000000000000000),
    (10, 4240000000000000000, 1349870000000000000000),
    (9, 2700000000000000000, 242730000000000000000),
    (9, 5640000000000000000, 951720000000000000000),
    (8, 5300000000000000000, 2352870000000000000000),
    (6, 2650000000000000000, 9437760000000000000000),
    (6, 4670000000000000000, 4690480000000000000000)]
  pure val L2: List[(int, int, int)] = [
    (52919, 0, 0),
    (8720, 1072100000000000000, 6283075800000000000000),
    (309, 867000000000000000, 12566152000000000000000),
    (27, 50000000000000000, 3520000000000000000),
    (16, 5190000000000000000, 26300000000000000000),
    (16, 3680000000000000000, 155420000000000000000),
    (10, 760000000000000000, 18849230000000000000000),
    (9, 2060000000000000000, 77713770000000000000000),
    (7, 830000000000000000, 775520000000000000000),
    (5, 4660000000000000000, 1577340000000000000000),
    (4, 1030000000000000000, 7110000000000000000),
    (4, 3440000000000000000, 5573140000000000000000),
    (3, 5140000000000000000, 796300000000000000000),
    (3, 6050000000000000000, 5507550000000000000000),
    (3, 1190000000000000000, 242730000000000000000),
    (3, 6120000000000000000, 529690000000000000000),
    (3, 310000000000000000, 398150000000000000000),
    (3, 2280000000000000000, 553570000000000000000),
    (2, 4380000000000000000, 5223690000000000000000),
    (2, 3750000000000000000, 980000000000000000)]
  pure val L3: List[(int, int, int)] = [
    (289, 5844000000000000000, 6283076000000000000000),
    (35, 0, 0),
    (17, 5490000000000000000, 12566150000000000000000),
    (3, 5200000000000000000, 155420000000000000000),
    (1, 4720000000000000000, 3520000000000000000),
    (1, 5300000000000000000, 18849230000000000000000),
    (1, 5970000000000000000, 242730000000000000000)]
  pure val L4: List[(int, int, int)] = [
    (114, 3142000000000000000, 0),
    (8, 4130000000000000000, 6283080000000000000000),
    (1, 3840000000000000000, 12566150000000000000000)]
  pure val L5: List[(int, int, int)] = [
    (1, 3140000000000000000, 0)]
  pure val B0: List[(int, int, int)] = [
    (280, 3199000000000000000, 84334662000000000000000),
    (102, 5422000000000000000, 5507553000000000000000),
    (80, 3880000000000000000, 5223690000000000000000),
    (44, 3700000000000000000, 2352870000000000000000),
    (32, 4000000000000000000, 1577340000000000000000)]
  pure val B1: List[(int, int, int)] = [
    (9, 3900000000000000000, 5507550000000000000000),
    (6, 1730000000000000000, 5223690000000000000000)]
  pure val R0: List[(int, int, int)] = [
    (100013989, 0, 0),
    (1670700, 3098463500000000000, 6283075850000000000000),
    (13956, 3055250000000000000, 12566151700000000000000),
    (3084, 5198500000000000000, 77713771500000000000000),
    (1628, 1173900000000000000, 5753384900000000000000),
    (1576, 2846900000000000000, 7860419400000000000000),
    (925, 5453000000000000000, 11506770000000000000000),
    (542, 4564000000000000000, 3930210000000000000000),
    (472, 3661000000000000000, 5884927000000000000000),
    (346, 964000000000000000, 5507553000000000000000),
    (329, 5900000000000000000, 5223694000000000000000),
    (307, 299000000000000000, 5573143000000000000000),
    (243, 4273000000000000000, 11790629000000000000000),
    (212, 5847000000000000000, 1577344000000000000000),
    (186, 5022000000000000000, 10977079000000000000000),
    (175, 3012000000000000000, 18849228000000000000000),
    (110, 5055000000000000000, 5486778000000000000000),
    (98, 890000000000000000, 6069780000000000000000),
    (86, 5690000000000000000, 15720840000000000000000),
    (86, 1270000000000000000, 161000690000000000000000),
    (65, 270000000000000000, 17260150000000000000000),
    (63, 920000000000000000, 529690000000000000000),
    (57, 2010000000000000000, 83996850000000000000000),
    (56, 5240000000000000000, 71430700000000000000000),
    (49, 3250000000000000000, 2544310000000000000000),
    (47, 2580000000000000000, 775520000000000000000),
    (45, 5540000000000000000, 9437760000000000000000),
    (43, 6010000000000000000, 6275960000000000000000),
    (39, 5360000000000000000, 4694000000000000000000),
    (38, 2390000000000000000, 8827390000000000000000),
    (37, 830000000000000000, 19651050000000000000000),
    (37, 4900000000000000000, 12139550000000000000000),
    (36, 1670000000000000000, 12036460000000000000000),
    (35, 1840000000000000000, 2942460000000000000000),
    (33, 240000000000000000, 7084900000000000000000),
    (32, 180000000000000000, 5088630000000000000000),
    (32, 1780000000000000000, 398150000000000000000),
    (28, 1210000000000000000, 6286600000000000000000),
    (28, 1900000000000000000, 6279550000000000000000),
    (26, 4590000000000000000, 10447390000000000000000)]
  pure val R1: List[(int, int, int)] = [
    (103019, 1107490000000000000, 6283075850000000000000),
    (1721, 1064400000000000000, 12566151700000000000000),
    (702, 3142000000000000000, 0),
    (32, 1020000000000000000, 18849230000000000000000),
    (31, 2840000000000000000, 5507550000000000000000),
    (25, 1320000000000000000, 5223690000000000000000),
    (18, 1420000000000000000, 1577340000000000000000),
    (10, 5910000000000000000, 10977080000000000000000),
    (9, 1420000000000000000, 6275960000000000000000),
    (9, 270000000000000000, 5486780000000000000000)]
  pure val R2: List[(int, int, int)] = [
    (4359, 5784600000000000000, 6283075800000000000000),
    (124, 5579000000000000000, 12566152000000000000000),
    (12, 3140000000000000000, 0),
    (9, 3630000000000000000, 77713770000000000000000),
    (6, 1870000000000000000, 5573140000000000000000),
    (3, 5470000000000000000, 18849230000000000000000)]
  pure val R3: List[(int, int, int)] = [
    (145, 4273000000000000000, 6283076000000000000000),
    (7, 3920000000000000000, 12566150000000000000000)]
  pure val R4: List[(int, int, int)] = [
    (4, 2560000000000000000, 6283080000000000000000)]
  /// 10 x (a, b, c, d), then the multiples of X0..X4
  pure val NUT0: List[(int, int, int, int, int, int, int, int, int)] = [
    (-1719960, -1742, 920250, 89, 0, 0, 0, 0, 1),
    (-131870, -16, 57360, -31, -2, 0, 0, 2, 2),
    (-22740, -2, 9770, -5, 0, 0, 0, 2, 2),
    (20620, 2, -8950, 5, 0, 0, 0, 0, 2),
    (14260, -34, 540, -1, 0, 1, 0, 0, 0),
    (7120, 1, -70, 0, 0, 0, 1, 0, 0),
    (-5170, 12, 2240, -6, -2, 1, 0, 2, 2),
    (-3860, -4, 2000, 0, 0, 0, 0, 2, 1),
    (-3010, 0, 1290, -1, 0, 0, 1, 2, 2),
    (2170, -5, -950, 3, -2, -1, 0, 2, 2),
    (-1580, 0, 0, 0, -2, 0, 1, 0, 0),
    (1290, 1, -700, 0, -2, 0, 0, 2, 1),
    (1230, 0, -530, 0, 0, 0, -1, 2, 2),
    (630, 0, 0, 0, 2, 0, 0, 0, 0),
    (630, 1, -330, 0, 0, 0, 1, 0, 1),
    (-590, 0, 260, 0, 2, 0, -1, 2, 2),
    (-580, -1, 320, 0, 0, 0, -1, 0, 1),
    (-510, 0, 270, 0, 0, 0, 1, 2, 1),
    (480, 0, 0, 0, -2, 0, 2, 0, 0),
    (460, 0, -240, 0, 0, 0, -2, 2, 1),
    (-380, 0, 160, 0, 2, 0, 0, 2, 2),
    (-310, 0, 130, 0, 0, 0, 2, 2, 2),
    (290, 0, 0, 0, 0, 0, 2, 0, 0),
    (290, 0, -120, 0, -2, 0, 1, 2, 2),
    (260, 0, 0, 0, 0, 0, 0, 2, 0),
    (-220, 0, 0, 0, -2, 0, 0, 2, 0),
    (210, 0, -100, 0, 0, 0, -1, 2, 1),
    (170, -1, 0, 0, 0, 2, 0, 0, 0),
    (160, 0, -80, 0, 2, 0, -1, 0, 1),
    (-160, 1, 70, 0, -2, 2, 0, 2, 2),
    (-150, 0, 90, 0, 0, 1, 0, 0, 1),
    (-130, 0, 70, 0, -2, 0, 1, 0, 1)]
  /// 10 x (a, b, c, d), then the multiples of X0..X4
  pure val NUT1: List[(int, int, int, int, int, int, int, int, int)] = [
    (-120, 0, 60, 0, 0, -1, 0, 0, 1),
    (110, 0, 0, 0, 0, 0, 2, -2, 0),
    (-100, 0, 50, 0, 2, 0, -1, 2, 1),
    (-80, 0, 30, 0, 2, 0, 1, 2, 2),
    (70, 0, -30, 0, 0, 1, 0, 2, 2),
    (-70, 0, 0, 0, -2, 1, 1, 0, 0),
    (-70, 0, 30, 0, 0, -1, 0, 2, 2),
    (-70, 0, 30, 0, 2, 0, 0, 2, 1),
    (60, 0, 0, 0, 2, 0, 1, 0, 0),
    (60, 0, -30, 0, -2, 0, 2, 2, 2),
    (60, 0, -30, 0, -2, 0, 1, 2, 1),
    (-60, 0, 30, 0, 2, 0, -2, 0, 1),
    (-60, 0, 30, 0, 2, 0, 0, 0, 1),
    (50, 0, 0, 0, 0, -1, 1, 0, 0),
    (-50, 0, 30, 0, -2, -1, 0, 2, 1),
    (-50, 0, 30, 0, -2, 0, 0, 0, 1),
    (-50, 0, 30, 0, 0, 0, 2, 2, 1),
    (40, 0, 0, 0, -2, 0, 2, 0, 1),
    (40, 0, 0, 0, -2, 1, 0, 2, 1),
    (40, 0, 0, 0, 0, 0, 1, -2, 0),
    (-40, 0, 0, 0, -1, 0, 1, 0, 0),
    (-40, 0, 0, 0, -2, 1, 0, 0, 0),
    (-40, 0, 0, 0, 1, 0, 0, 0, 0),
    (30, 0, 0, 0, 0, 0, 1, 2, 0),
    (-30, 0, 0, 0, 0, 0, -2, 2, 2),
    (-30, 0, 0, 0, -1, -1, 1, 0, 0),
    (-30, 0, 0, 0, 0, 1, 1, 0, 0),
    (-30, 0, 0, 0, 0, -1, 1, 2, 2),
    (-30, 0, 0, 0, 2, -1, -1, 2, 2),
    (-30, 0, 0, 0, 0, 0, 3, 2, 2),
    (-30, 0, 0, 0, 2, -1, 0, 2, 2)]
}

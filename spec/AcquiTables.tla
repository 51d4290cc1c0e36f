------------------------------ MODULE AcquiTables -----------------------------
(* Generated by tools/mktables.py. All values are x 10000, rounded. *)
EXTENDS Integers, Sequences
\* expected improvement for a standard deviation s (1..3) and an improvement of q quarters (-120..120), index q + 121
EITable == <<
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 4, 9, 20, 42, 85, 162, 293, 506, 833, 1312, 1978, 2863, 3989, 5363, 6978, 8812, 10833, 13006, 15293, 17662, 20085, 22542, 25020, 27509, 30004, 32502, 35001, 37500, 40000, 42500, 45000, 47500, 50000, 52500, 55000, 57500, 60000, 62500, 65000, 67500, 70000, 72500, 75000, 77500, 80000, 82500, 85000, 87500, 90000, 92500, 95000, 97500, 100000, 102500, 105000, 107500, 110000, 112500, 115000, 117500, 120000, 122500, 125000, 127500, 130000, 132500, 135000, 137500, 140000, 142500, 145000, 147500, 150000, 152500, 155000, 157500, 160000, 162500, 165000, 167500, 170000, 172500, 175000, 177500, 180000, 182500, 185000, 187500, 190000, 192500, 195000, 197500, 200000, 202500, 205000, 207500, 210000, 212500, 215000, 217500, 220000, 222500, 225000, 227500, 230000, 232500, 235000, 237500, 240000, 242500, 245000, 247500, 250000, 252500, 255000, 257500, 260000, 262500, 265000, 267500, 270000, 272500, 275000, 277500, 280000, 282500, 285000, 287500, 290000, 292500, 295000, 297500, 300000>>,
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 5, 8, 12, 18, 27, 40, 59, 85, 121, 170, 236, 323, 438, 586, 775, 1012, 1306, 1666, 2102, 2623, 3238, 3956, 4783, 5727, 6791, 7979, 9291, 10727, 12283, 13956, 15738, 17623, 19602, 21666, 23806, 26012, 28275, 30586, 32938, 35323, 37736, 40170, 42621, 45085, 47559, 50040, 52527, 55018, 57512, 60008, 62505, 65003, 67502, 70001, 72501, 75000, 77500, 80000, 82500, 85000, 87500, 90000, 92500, 95000, 97500, 100000, 102500, 105000, 107500, 110000, 112500, 115000, 117500, 120000, 122500, 125000, 127500, 130000, 132500, 135000, 137500, 140000, 142500, 145000, 147500, 150000, 152500, 155000, 157500, 160000, 162500, 165000, 167500, 170000, 172500, 175000, 177500, 180000, 182500, 185000, 187500, 190000, 192500, 195000, 197500, 200000, 202500, 205000, 207500, 210000, 212500, 215000, 217500, 220000, 222500, 225000, 227500, 230000, 232500, 235000, 237500, 240000, 242500, 245000, 247500, 250000, 252500, 255000, 257500, 260000, 262500, 265000, 267500, 270000, 272500, 275000, 277500, 280000, 282500, 285000, 287500, 290000, 292500, 295000, 297500, 300000>>,
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 5, 6, 9, 11, 15, 20, 27, 35, 46, 60, 78, 100, 127, 161, 203, 255, 318, 394, 485, 595, 725, 879, 1060, 1272, 1518, 1801, 2127, 2499, 2922, 3399, 3935, 4534, 5199, 5934, 6742, 7627, 8590, 9634, 10760, 11968, 13260, 14634, 16090, 17627, 19242, 20934, 22699, 24534, 26435, 28399, 30422, 32499, 34627, 36801, 39018, 41272, 43560, 45879, 48225, 50595, 52985, 55394, 57818, 60255, 62703, 65161, 67627, 70100, 72578, 75060, 77546, 80035, 82527, 85020, 87515, 90011, 92509, 95006, 97505, 100003, 102502, 105002, 107501, 110001, 112501, 115000, 117500, 120000, 122500, 125000, 127500, 130000, 132500, 135000, 137500, 140000, 142500, 145000, 147500, 150000, 152500, 155000, 157500, 160000, 162500, 165000, 167500, 170000, 172500, 175000, 177500, 180000, 182500, 185000, 187500, 190000, 192500, 195000, 197500, 200000, 202500, 205000, 207500, 210000, 212500, 215000, 217500, 220000, 222500, 225000, 227500, 230000, 232500, 235000, 237500, 240000, 242500, 245000, 247500, 250000, 252500, 255000, 257500, 260000, 262500, 265000, 267500, 270000, 272500, 275000, 277500, 280000, 282500, 285000, 287500, 290000, 292500, 295000, 297500, 300000>>>>
EIOf(q, s) == EITable[s][q + 121]
\* normal distribution function at d/s, index d + 13
PhiTable == <<
  <<0, 0, 0, 0, 0, 0, 0, 0, 0, 13, 228, 1587, 5000, 8413, 9772, 9987, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000, 10000>>,
  <<0, 0, 0, 0, 0, 2, 13, 62, 228, 668, 1587, 3085, 5000, 6915, 8413, 9332, 9772, 9938, 9987, 9998, 10000, 10000, 10000, 10000, 10000>>,
  <<0, 1, 4, 13, 38, 98, 228, 478, 912, 1587, 2525, 3694, 5000, 6306, 7475, 8413, 9088, 9522, 9772, 9902, 9962, 9987, 9996, 9999, 10000>>>>
PhiOf(d, s) == PhiTable[s][d + 13]
\* iterations of the tables
Its == <<0, 1, 2, 3, 4, 5, 20, 100, 5000>>
ItIdx(it) == CHOOSE i \in DOMAIN Its : Its[i] = it
\* sqrt(2 log(n^(D/2+2) pi^2 / (3 delta))), delta in {0.1, 0.5, 0.9}, n = iteration + 1, D in 1..4
BetaTable == <<
  <<<<26433, 26433, 26433, 26433>>, <<32330, 33385, 34408, 35401>>, <<35327, 36849, 38311, 39719>>, <<37307, 39121, 40855, 42517>>, <<38774, 40796, 42723, 44567>>, <<39932, 42116, 44192, 46175>>, <<47127, 50253, 53196, 55985>>, <<54829, 58888, 62684, 66263>>, <<70409, 76218, 81614, 86675>>>>,
  <<<<19411, 19411, 19411, 19411>>, <<26896, 28155, 29360, 30517>>, <<30432, 32186, 33850, 35436>>, <<32710, 34765, 36704, 38547>>, <<34373, 36640, 38774, 40796>>, <<35675, 38103, 40386, 42547>>, <<43578, 46942, 50080, 53032>>, <<51811, 56088, 60061, 63788>>, <<68084, 74076, 79618, 84798>>>>,
  <<<<16101, 16101, 16101, 16101>>, <<24613, 25983, 27285, 28526>>, <<28435, 30305, 32067, 33736>>, <<30861, 33031, 35066, 36990>>, <<32618, 34999, 37227, 39329>>, <<33987, 36528, 38903, 41142>>, <<42208, 45672, 48892, 51912>>, <<50664, 55030, 59075, 62860>>, <<67216, 73278, 78876, 84102>>>>>>
BetaOf(k, it, D) == BetaTable[k][ItIdx(it)][D]
\* sqrt(2 log(pi^2 M^2 / (12 nu))) + 1/5, nu in {0.05, 0.2, 0.5}, M = iteration + 1
ZetaTable == <<
  <<25666, 30936, 33615, 35385, 36696, 37732, 44165, 51052, 64984>>,
  <<18817, 25666, 28875, 30936, 32440, 33615, 40738, 48139, 62743>>,
  <<11977, 21411, 25216, 27575, 29264, 30570, 38295, 46109, 61216>>>>
ZetaOf(k, it) == ZetaTable[k][ItIdx(it)]
===============================================================================

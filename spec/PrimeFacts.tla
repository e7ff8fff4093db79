---------------------------- MODULE PrimeFacts ----------------------------
(* Generated by tools/gen_anchors.py: facts about primes that the specification takes as given.
   Anchors: n, number of primes <= n, sum of primes <= n, from an independent segmented sieve.
   PiTen[k+1], SumTen[k+1]: the published values at 10^k (OEIS A006880, A046731);
   the sieve confirms them for k <= 10. Numbers are base-1000 limbs, little endian. *)
EXTENDS Integers, Sequences
Anchors == <<
  [n |-> <<>>, c |-> <<>>, s |-> <<>>],
  [n |-> <<2>>, c |-> <<1>>, s |-> <<2>>],
  [n |-> <<3>>, c |-> <<2>>, s |-> <<5>>],
  [n |-> <<4>>, c |-> <<2>>, s |-> <<5>>],
  [n |-> <<5>>, c |-> <<3>>, s |-> <<10>>],
  [n |-> <<6>>, c |-> <<3>>, s |-> <<10>>],
  [n |-> <<7>>, c |-> <<4>>, s |-> <<17>>],
  [n |-> <<8>>, c |-> <<4>>, s |-> <<17>>],
  [n |-> <<9>>, c |-> <<4>>, s |-> <<17>>],
  [n |-> <<10>>, c |-> <<4>>, s |-> <<17>>],
  [n |-> <<11>>, c |-> <<5>>, s |-> <<28>>],
  [n |-> <<13>>, c |-> <<6>>, s |-> <<41>>],
  [n |-> <<16>>, c |-> <<6>>, s |-> <<41>>],
  [n |-> <<25>>, c |-> <<9>>, s |-> <<100>>],
  [n |-> <<27>>, c |-> <<9>>, s |-> <<100>>],
  [n |-> <<32>>, c |-> <<11>>, s |-> <<160>>],
  [n |-> <<36>>, c |-> <<11>>, s |-> <<160>>],
  [n |-> <<49>>, c |-> <<15>>, s |-> <<328>>],
  [n |-> <<64>>, c |-> <<18>>, s |-> <<501>>],
  [n |-> <<81>>, c |-> <<22>>, s |-> <<791>>],
  [n |-> <<100>>, c |-> <<25>>, s |-> <<60,1>>],
  [n |-> <<106>>, c |-> <<27>>, s |-> <<264,1>>],
  [n |-> <<107>>, c |-> <<28>>, s |-> <<371,1>>],
  [n |-> <<115>>, c |-> <<30>>, s |-> <<593,1>>],
  [n |-> <<117>>, c |-> <<30>>, s |-> <<593,1>>],
  [n |-> <<121>>, c |-> <<30>>, s |-> <<593,1>>],
  [n |-> <<125>>, c |-> <<30>>, s |-> <<593,1>>],
  [n |-> <<128>>, c |-> <<31>>, s |-> <<720,1>>],
  [n |-> <<129>>, c |-> <<31>>, s |-> <<720,1>>],
  [n |-> <<132>>, c |-> <<32>>, s |-> <<851,1>>],
  [n |-> <<134>>, c |-> <<32>>, s |-> <<851,1>>],
  [n |-> <<146>>, c |-> <<34>>, s |-> <<127,2>>],
  [n |-> <<148>>, c |-> <<34>>, s |-> <<127,2>>],
  [n |-> <<151>>, c |-> <<36>>, s |-> <<427,2>>],
  [n |-> <<158>>, c |-> <<37>>, s |-> <<584,2>>],
  [n |-> <<163>>, c |-> <<38>>, s |-> <<747,2>>],
  [n |-> <<166>>, c |-> <<38>>, s |-> <<747,2>>],
  [n |-> <<167>>, c |-> <<39>>, s |-> <<914,2>>],
  [n |-> <<169>>, c |-> <<39>>, s |-> <<914,2>>],
  [n |-> <<186>>, c |-> <<42>>, s |-> <<447,3>>],
  [n |-> <<188>>, c |-> <<42>>, s |-> <<447,3>>],
  [n |-> <<197>>, c |-> <<45>>, s |-> <<28,4>>],
  [n |-> <<201>>, c |-> <<46>>, s |-> <<227,4>>],
  [n |-> <<216>>, c |-> <<47>>, s |-> <<438,4>>],
  [n |-> <<232>>, c |-> <<50>>, s |-> <<117,5>>],
  [n |-> <<243>>, c |-> <<53>>, s |-> <<830,5>>],
  [n |-> <<256>>, c |-> <<54>>, s |-> <<81,6>>],
  [n |-> <<258>>, c |-> <<55>>, s |-> <<338,6>>],
  [n |-> <<261>>, c |-> <<55>>, s |-> <<338,6>>],
  [n |-> <<271>>, c |-> <<58>>, s |-> <<141,7>>],
  [n |-> <<279>>, c |-> <<59>>, s |-> <<418,7>>],
  [n |-> <<288>>, c |-> <<61>>, s |-> <<982,7>>],
  [n |-> <<308>>, c |-> <<63>>, s |-> <<582,8>>],
  [n |-> <<311>>, c |-> <<64>>, s |-> <<893,8>>],
  [n |-> <<327>>, c |-> <<66>>, s |-> <<523,9>>],
  [n |-> <<340>>, c |-> <<68>>, s |-> <<191,10>>],
  [n |-> <<343>>, c |-> <<68>>, s |-> <<191,10>>],
  [n |-> <<344>>, c |-> <<68>>, s |-> <<191,10>>],
  [n |-> <<347>>, c |-> <<69>>, s |-> <<538,10>>],
  [n |-> <<349>>, c |-> <<70>>, s |-> <<887,10>>],
  [n |-> <<357>>, c |-> <<71>>, s |-> <<240,11>>],
  [n |-> <<401>>, c |-> <<79>>, s |-> <<288,14>>],
  [n |-> <<445>>, c |-> <<86>>, s |-> <<283,17>>],
  [n |-> <<464>>, c |-> <<90>>, s |-> <<113,19>>],
  [n |-> <<490>>, c |-> <<93>>, s |-> <<546,20>>],
  [n |-> <<512>>, c |-> <<97>>, s |-> <<548,22>>],
  [n |-> <<530>>, c |-> <<99>>, s |-> <<592,23>>],
  [n |-> <<609>>, c |-> <<111>>, s |-> <<504,30>>],
  [n |-> <<618>>, c |-> <<113>>, s |-> <<734,31>>],
  [n |-> <<625>>, c |-> <<114>>, s |-> <<353,32>>],
  [n |-> <<729>>, c |-> <<129>>, s |-> <<468,42>>],
  [n |-> <<739>>, c |-> <<131>>, s |-> <<940,43>>],
  [n |-> <<752>>, c |-> <<133>>, s |-> <<434,45>>],
  [n |-> <<759>>, c |-> <<134>>, s |-> <<191,46>>],
  [n |-> <<772>>, c |-> <<136>>, s |-> <<721,47>>],
  [n |-> <<776>>, c |-> <<137>>, s |-> <<494,48>>],
  [n |-> <<836>>, c |-> <<145>>, s |-> <<998,54>>],
  [n |-> <<865>>, c |-> <<150>>, s |-> <<269,59>>],
  [n |-> <<961>>, c |-> <<162>>, s |-> <<241,70>>],
  [n |-> <<963>>, c |-> <<162>>, s |-> <<241,70>>],
  [n |-> <<987>>, c |-> <<166>>, s |-> <<139,74>>],
  [n |-> <<0,1>>, c |-> <<168>>, s |-> <<127,76>>],
  [n |-> <<17,1>>, c |-> <<170>>, s |-> <<149,78>>],
  [n |-> <<24,1>>, c |-> <<172>>, s |-> <<189,80>>],
  [n |-> <<27,1>>, c |-> <<172>>, s |-> <<189,80>>],
  [n |-> <<58,1>>, c |-> <<177>>, s |-> <<392,85>>],
  [n |-> <<127,1>>, c |-> <<188>>, s |-> <<405,97>>],
  [n |-> <<148,1>>, c |-> <<189>>, s |-> <<534,98>>],
  [n |-> <<201,1>>, c |-> <<197>>, s |-> <<934,107>>],
  [n |-> <<283,1>>, c |-> <<208>>, s |-> <<631,121>>],
  [n |-> <<296,1>>, c |-> <<210>>, s |-> <<211,124>>],
  [n |-> <<331,1>>, c |-> <<217>>, s |-> <<386,133>>],
  [n |-> <<507,1>>, c |-> <<239>>, s |-> <<40,165>>],
  [n |-> <<668,1>>, c |-> <<262>>, s |-> <<627,201>>],
  [n |-> <<704,1>>, c |-> <<266>>, s |-> <<385,208>>],
  [n |-> <<842,1>>, c |-> <<282>>, s |-> <<673,236>>],
  [n |-> <<48,2>>, c |-> <<309>>, s |-> <<176,289>>],
  [n |-> <<80,2>>, c |-> <<312>>, s |-> <<361,295>>],
  [n |-> <<108,2>>, c |-> <<317>>, s |-> <<800,305>>],
  [n |-> <<112,2>>, c |-> <<318>>, s |-> <<911,307>>],
  [n |-> <<187,2>>, c |-> <<327>>, s |-> <<198,327>>],
  [n |-> <<197,2>>, c |-> <<327>>, s |-> <<198,327>>],
  [n |-> <<240,2>>, c |-> <<333>>, s |-> <<518,340>>],
  [n |-> <<401,2>>, c |-> <<357>>, s |-> <<360,396>>],
  [n |-> <<465,2>>, c |-> <<364>>, s |-> <<395,413>>],
  [n |-> <<726,2>>, c |-> <<397>>, s |-> <<624,499>>],
  [n |-> <<790,2>>, c |-> <<405>>, s |-> <<660,521>>],
  [n |-> <<84,3>>, c |-> <<441>>, s |-> <<294,627>>],
  [n |-> <<125,3>>, c |-> <<445>>, s |-> <<732,639>>],
  [n |-> <<176,3>>, c |-> <<449>>, s |-> <<368,652>>],
  [n |-> <<205,3>>, c |-> <<453>>, s |-> <<130,665>>],
  [n |-> <<279,3>>, c |-> <<462>>, s |-> <<297,694>>],
  [n |-> <<366,3>>, c |-> <<474>>, s |-> <<229,734>>],
  [n |-> <<421,3>>, c |-> <<480>>, s |-> <<573,754>>],
  [n |-> <<488,3>>, c |-> <<487>>, s |-> <<772,778>>],
  [n |-> <<512,3>>, c |-> <<490>>, s |-> <<273,789>>],
  [n |-> <<577,3>>, c |-> <<500>>, s |-> <<693,824>>],
  [n |-> <<958,3>>, c |-> <<548>>, s |-> <<551,5,1>>],
  [n |-> <<96,4>>, c |-> <<564>>, s |-> <<91,70,1>>],
  [n |-> <<220,4>>, c |-> <<578>>, s |-> <<323,128,1>>],
  [n |-> <<579,4>>, c |-> <<619>>, s |-> <<458,308,1>>],
  [n |-> <<632,4>>, c |-> <<624>>, s |-> <<453,331,1>>],
  [n |-> <<647,4>>, c |-> <<627>>, s |-> <<372,345,1>>],
  [n |-> <<900,4>>, c |-> <<654>>, s |-> <<865,473,1>>],
  [n |-> <<918,4>>, c |-> <<656>>, s |-> <<677,483,1>>],
  [n |-> <<47,5>>, c |-> <<675>>, s |-> <<242,578,1>>],
  [n |-> <<63,5>>, c |-> <<677>>, s |-> <<352,588,1>>],
  [n |-> <<284,5>>, c |-> <<701>>, s |-> <<570,712,1>>],
  [n |-> <<854,5>>, c |-> <<769>>, s |-> <<10,92,2>>],
  [n |-> <<874,5>>, c |-> <<773>>, s |-> <<464,115,2>>],
  [n |-> <<100,6>>, c |-> <<795>>, s |-> <<360,247,2>>],
  [n |-> <<103,6>>, c |-> <<796>>, s |-> <<461,253,2>>],
  [n |-> <<561,6>>, c |-> <<847>>, s |-> <<838,575,2>>],
  [n |-> <<741,6>>, c |-> <<869>>, s |-> <<168,722,2>>],
  [n |-> <<973,6>>, c |-> <<896>>, s |-> <<523,907,2>>],
  [n |-> <<268,7>>, c |-> <<928>>, s |-> <<333,135,3>>],
  [n |-> <<389,7>>, c |-> <<938>>, s |-> <<583,208,3>>],
  [n |-> <<578,7>>, c |-> <<962>>, s |-> <<557,388,3>>],
  [n |-> <<756,7>>, c |-> <<983>>, s |-> <<546,549,3>>],
  [n |-> <<776,7>>, c |-> <<985>>, s |-> <<62,565,3>>],
  [n |-> <<896,7>>, c |-> <<997>>, s |-> <<186,659,3>>],
  [n |-> <<901,7>>, c |-> <<998>>, s |-> <<87,667,3>>],
  [n |-> <<988,7>>, c |-> <<6,1>>, s |-> <<573,730,3>>],
  [n |-> <<192,8>>, c |-> <<28,1>>, s |-> <<641,908,3>>],
  [n |-> <<294,8>>, c |-> <<41,1>>, s |-> <<910,15,4>>],
  [n |-> <<330,8>>, c |-> <<45,1>>, s |-> <<164,49,4>>],
  [n |-> <<664,8>>, c |-> <<78,1>>, s |-> <<955,329,4>>],
  [n |-> <<833,8>>, c |-> <<100,1>>, s |-> <<315,522,4>>],
  [n |-> <<958,8>>, c |-> <<113,1>>, s |-> <<888,637,4>>],
  [n |-> <<966,8>>, c |-> <<114,1>>, s |-> <<851,646,4>>],
  [n |-> <<321,9>>, c |-> <<153,1>>, s |-> <<380,3,5>>],
  [n |-> <<409,9>>, c |-> <<163,1>>, s |-> <<12,97,5>>],
  [n |-> <<0,10>>, c |-> <<229,1>>, s |-> <<396,736,5>>],
  [n |-> <<100,10>>, c |-> <<240,1>>, s |-> <<47,847,5>>],
  [n |-> <<421,10>>, c |-> <<274,1>>, s |-> <<501,195,6>>],
  [n |-> <<433,10>>, c |-> <<277,1>>, s |-> <<790,226,6>>],
  [n |-> <<845,10>>, c |-> <<317,1>>, s |-> <<110,652,6>>],
  [n |-> <<884,10>>, c |-> <<323,1>>, s |-> <<280,717,6>>],
  [n |-> <<273,11>>, c |-> <<363,1>>, s |-> <<586,160,7>>],
  [n |-> <<371,11>>, c |-> <<373,1>>, s |-> <<802,273,7>>],
  [n |-> <<145,12>>, c |-> <<453,1>>, s |-> <<556,215,8>>],
  [n |-> <<275,14>>, c |-> <<675,1>>, s |-> <<532,139,11>>],
  [n |-> <<641,14>>, c |-> <<715,1>>, s |-> <<216,718,11>>],
  [n |-> <<625,15>>, c |-> <<821,1>>, s |-> <<804,321,13>>],
  [n |-> <<925,15>>, c |-> <<857,1>>, s |-> <<674,889,13>>],
  [n |-> <<129,16>>, c |-> <<877,1>>, s |-> <<552,210,14>>],
  [n |-> <<384,16>>, c |-> <<900,1>>, s |-> <<641,584,14>>],
  [n |-> <<807,16>>, c |-> <<939,1>>, s |-> <<584,231,15>>],
  [n |-> <<87,17>>, c |-> <<969,1>>, s |-> <<948,739,15>>],
  [n |-> <<959,18>>, c |-> <<156,2>>, s |-> <<477,104,19>>],
  [n |-> <<683,19>>, c |-> <<227,2>>, s |-> <<640,476,20>>],
  [n |-> <<131,23>>, c |-> <<582,2>>, s |-> <<465,76,28>>],
  [n |-> <<317,26>>, c |-> <<892,2>>, s |-> <<239,743,35>>],
  [n |-> <<874,26>>, c |-> <<947,2>>, s |-> <<494,206,37>>],
  [n |-> <<499,27>>, c |-> <<4,3>>, s |-> <<115,755,38>>],
  [n |-> <<898,27>>, c |-> <<44,3>>, s |-> <<555,863,39>>],
  [n |-> <<561,28>>, c |-> <<107,3>>, s |-> <<990,641,41>>],
  [n |-> <<873,28>>, c |-> <<144,3>>, s |-> <<131,704,42>>],
  [n |-> <<523,29>>, c |-> <<204,3>>, s |-> <<201,456,44>>],
  [n |-> <<837,29>>, c |-> <<232,3>>, s |-> <<7,287,45>>],
  [n |-> <<278,31>>, c |-> <<373,3>>, s |-> <<180,601,49>>],
  [n |-> <<768,32>>, c |-> <<512,3>>, s |-> <<763,56,54>>],
  [n |-> <<388,34>>, c |-> <<675,3>>, s |-> <<108,528,59>>],
  [n |-> <<605,34>>, c |-> <<696,3>>, s |-> <<705,252,60>>],
  [n |-> <<502,36>>, c |-> <<870,3>>, s |-> <<595,438,66>>],
  [n |-> <<338,37>>, c |-> <<953,3>>, s |-> <<460,501,69>>],
  [n |-> <<508,37>>, c |-> <<970,3>>, s |-> <<681,137,70>>],
  [n |-> <<239,40>>, c |-> <<226,4>>, s |-> <<503,93,80>>],
  [n |-> <<664,45>>, c |-> <<731,4>>, s |-> <<344,772,101>>],
  [n |-> <<656,46>>, c |-> <<821,4>>, s |-> <<408,927,105>>],
  [n |-> <<437,48>>, c |-> <<982,4>>, s |-> <<849,581,113>>],
  [n |-> <<291,49>>, c |-> <<65,5>>, s |-> <<310,637,117>>],
  [n |-> <<519,49>>, c |-> <<86,5>>, s |-> <<729,674,118>>],
  [n |-> <<830,51>>, c |-> <<303,5>>, s |-> <<350,672,129>>],
  [n |-> <<49,59>>, c |-> <<968,5>>, s |-> <<645,554,166>>],
  [n |-> <<213,59>>, c |-> <<987,5>>, s |-> <<8,678,167>>],
  [n |-> <<364,59>>, c |-> <<0,6>>, s |-> <<721,448,168>>],
  [n |-> <<482,60>>, c |-> <<98,6>>, s |-> <<863,317,174>>],
  [n |-> <<1,63>>, c |-> <<320,6>>, s |-> <<357,24,188>>],
  [n |-> <<536,65>>, c |-> <<542,6>>, s |-> <<87,288,202>>],
  [n |-> <<899,70>>, c |-> <<19,7>>, s |-> <<66,806,234>>],
  [n |-> <<946,71>>, c |-> <<121,7>>, s |-> <<818,89,242>>],
  [n |-> <<470,72>>, c |-> <<169,7>>, s |-> <<54,555,245>>],
  [n |-> <<100,73>>, c |-> <<228,7>>, s |-> <<289,850,249>>],
  [n |-> <<125,78>>, c |-> <<671,7>>, s |-> <<434,359,283>>],
  [n |-> <<834,78>>, c |-> <<732,7>>, s |-> <<457,146,288>>],
  [n |-> <<10,79>>, c |-> <<746,7>>, s |-> <<187,251,289>>],
  [n |-> <<94,87>>, c |-> <<457,8>>, s |-> <<994,256,348>>],
  [n |-> <<591,94>>, c |-> <<123,9>>, s |-> <<174,769,408>>],
  [n |-> <<0,100>>, c |-> <<592,9>>, s |-> <<537,396,454>>],
  [n |-> <<910,101>>, c |-> <<757,9>>, s |-> <<74,59,471>>],
  [n |-> <<602,109>>, c |-> <<420,10>>, s |-> <<427,191,541>>],
  [n |-> <<649,117>>, c |-> <<98,11>>, s |-> <<467,241,618>>],
  [n |-> <<301,123>>, c |-> <<586,11>>, s |-> <<149,25,677>>],
  [n |-> <<72,131>>, c |-> <<251,12>>, s |-> <<692,593,761>>],
  [n |-> <<995,140>>, c |-> <<97,13>>, s |-> <<384,707,876>>],
  [n |-> <<382,150>>, c |-> <<882,13>>, s |-> <<847,123,991>>],
  [n |-> <<51,161>>, c |-> <<773,14>>, s |-> <<272,839,129,1>>],
  [n |-> <<293,162>>, c |-> <<873,14>>, s |-> <<750,6,146,1>>],
  [n |-> <<371,165>>, c |-> <<121,15>>, s |-> <<2,629,186,1>>],
  [n |-> <<572,169>>, c |-> <<458,15>>, s |-> <<817,54,243,1>>],
  [n |-> <<353,174>>, c |-> <<865,15>>, s |-> <<116,34,313,1>>],
  [n |-> <<147,177>>, c |-> <<97,16>>, s |-> <<880,822,353,1>>],
  [n |-> <<852,177>>, c |-> <<146,16>>, s |-> <<377,520,362,1>>],
  [n |-> <<736,188>>, c |-> <<59,17>>, s |-> <<352,825,529,1>>],
  [n |-> <<917,214>>, c |-> <<208,19>>, s |-> <<151,589,963,1>>],
  [n |-> <<633,227>>, c |-> <<238,20>>, s |-> <<889,594,191,2>>],
  [n |-> <<487,233>>, c |-> <<710,20>>, s |-> <<375,395,300,2>>],
  [n |-> <<794,234>>, c |-> <<813,20>>, s |-> <<982,514,324,2>>],
  [n |-> <<607,249>>, c |-> <<15,22>>, s |-> <<242,786,615,2>>],
  [n |-> <<116,251>>, c |-> <<125,22>>, s |-> <<972,328,643,2>>],
  [n |-> <<144,262>>, c |-> <<0,23>>, s |-> <<43,816,867,2>>],
  [n |-> <<984,272>>, c |-> <<885,23>>, s |-> <<72,610,104,3>>],
  [n |-> <<936,279>>, c |-> <<427,24>>, s |-> <<846,447,254,3>>],
  [n |-> <<103,290>>, c |-> <<234,25>>, s |-> <<83,409,484,3>>],
  [n |-> <<925,293>>, c |-> <<526,25>>, s |-> <<571,657,569,3>>],
  [n |-> <<939,302>>, c |-> <<229,26>>, s |-> <<678,439,779,3>>],
  [n |-> <<51,322>>, c |-> <<773,27>>, s |-> <<560,926,261,4>>],
  [n |-> <<720,352>>, c |-> <<192,30>>, s |-> <<887,63,78,5>>],
  [n |-> <<369,354>>, c |-> <<324,30>>, s |-> <<941,734,124,5>>],
  [n |-> <<293,371>>, c |-> <<616,31>>, s |-> <<919,429,593,5>>],
  [n |-> <<121,379>>, c |-> <<227,32>>, s |-> <<302,677,822,5>>],
  [n |-> <<299,385>>, c |-> <<707,32>>, s |-> <<246,149,6,6>>],
  [n |-> <<625,390>>, c |-> <<118,33>>, s |-> <<305,617,165,6>>],
  [n |-> <<749,415>>, c |-> <<60,35>>, s |-> <<281,519,948,6>>],
  [n |-> <<251,428>>, c |-> <<24,36>>, s |-> <<879,332,355,7>>],
  [n |-> <<58,442>>, c |-> <<99,37>>, s |-> <<704,53,823,7>>],
  [n |-> <<144,444>>, c |-> <<277,37>>, s |-> <<254,927,901,7>>],
  [n |-> <<780,445>>, c |-> <<400,37>>, s |-> <<205,653,956,7>>],
  [n |-> <<220,452>>, c |-> <<889,37>>, s |-> <<660,268,176,8>>],
  [n |-> <<445,478>>, c |-> <<885,39>>, s |-> <<952,475,105,9>>],
  [n |-> <<458,499>>, c |-> <<493,41>>, s |-> <<302,749,891,9>>],
  [n |-> <<746,505>>, c |-> <<976,41>>, s |-> <<935,515,134,10>>],
  [n |-> <<272,519>>, c |-> <<4,43>>, s |-> <<973,477,661,10>>],
  [n |-> <<288,524>>, c |-> <<390,43>>, s |-> <<985,883,862,10>>],
  [n |-> <<846,524>>, c |-> <<423,43>>, s |-> <<472,194,880,10>>],
  [n |-> <<20,529>>, c |-> <<749,43>>, s |-> <<24,944,51,11>>],
  [n |-> <<312,530>>, c |-> <<851,43>>, s |-> <<560,970,105,11>>],
  [n |-> <<441,531>>, c |-> <<934,43>>, s |-> <<169,31,150,11>>],
  [n |-> <<572,545>>, c |-> <<987,44>>, s |-> <<670,46,717,11>>],
  [n |-> <<16,581>>, c |-> <<661,47>>, s |-> <<330,370,223,13>>],
  [n |-> <<945,636>>, c |-> <<864,51>>, s |-> <<553,272,782,15>>],
  [n |-> <<300,639>>, c |-> <<23,52>>, s |-> <<194,725,883,15>>],
  [n |-> <<731,643>>, c |-> <<344,52>>, s |-> <<955,646,89,16>>],
  [n |-> <<123,654>>, c |-> <<130,53>>, s |-> <<827,673,599,16>>],
  [n |-> <<90,752>>, c |-> <<396,60>>, s |-> <<711,929,706,21>>],
  [n |-> <<933,761>>, c |-> <<130,61>>, s |-> <<501,617,262,22>>],
  [n |-> <<274,772>>, c |-> <<903,61>>, s |-> <<74,589,855,22>>],
  [n |-> <<543,823>>, c |-> <<685,65>>, s |-> <<202,345,873,25>>],
  [n |-> <<582,922>>, c |-> <<924,72>>, s |-> <<625,924,192,32>>],
  [n |-> <<450,989>>, c |-> <<734,77>>, s |-> <<871,449,790,36>>],
  [n |-> <<9,994>>, c |-> <<60,78>>, s |-> <<935,735,113,37>>],
  [n |-> <<58,997>>, c |-> <<283,78>>, s |-> <<66,735,335,37>>],
  [n |-> <<0,0,1>>, c |-> <<498,78>>, s |-> <<23,402,550,37>>],
  [n |-> <<0,1,1>>, c |-> <<573,78>>, s |-> <<714,438,625,37>>],
  [n |-> <<81,18,1>>, c |-> <<830,79>>, s |-> <<429,309,894,38>>],
  [n |-> <<647,45,1>>, c |-> <<826,81>>, s |-> <<145,874,953,40>>],
  [n |-> <<576,48,1>>, c |-> <<25,82>>, s |-> <<126,256,162,41>>],
  [n |-> <<9,63,1>>, c |-> <<35,83>>, s |-> <<584,544,228,42>>],
  [n |-> <<604,93,1>>, c |-> <<251,85>>, s |-> <<490,972,617,44>>],
  [n |-> <<138,97,1>>, c |-> <<515,85>>, s |-> <<836,134,907,44>>],
  [n |-> <<611,147,1>>, c |-> <<141,89>>, s |-> <<110,495,976,48>>],
  [n |-> <<891,198,1>>, c |-> <<856,92>>, s |-> <<649,48,335,53>>],
  [n |-> <<93,212,1>>, c |-> <<771,93>>, s |-> <<464,113,438,54>>],
  [n |-> <<994,229,1>>, c |-> <<50,95>>, s |-> <<133,705,999,55>>],
  [n |-> <<617,262,1>>, c |-> <<363,97>>, s |-> <<766,693,882,58>>],
  [n |-> <<978,265,1>>, c |-> <<611,97>>, s |-> <<154,243,196,59>>],
  [n |-> <<116,299,1>>, c |-> <<958,99>>, s |-> <<751,123,206,62>>],
  [n |-> <<685,304,1>>, c |-> <<360,100>>, s |-> <<645,486,729,62>>],
  [n |-> <<892,376,1>>, c |-> <<451,105>>, s |-> <<602,420,555,69>>],
  [n |-> <<614,390,1>>, c |-> <<427,106>>, s |-> <<922,843,905,70>>],
  [n |-> <<699,421,1>>, c |-> <<608,108>>, s |-> <<767,185,972,73>>],
  [n |-> <<762,493,1>>, c |-> <<738,113>>, s |-> <<569,274,450,81>>],
  [n |-> <<323,594,1>>, c |-> <<739,120>>, s |-> <<888,920,258,92>>],
  [n |-> <<274,613,1>>, c |-> <<69,122>>, s |-> <<832,854,391,94>>],
  [n |-> <<616,679,1>>, c |-> <<726,126>>, s |-> <<327,676,59,102>>],
  [n |-> <<561,771,1>>, c |-> <<83,133>>, s |-> <<606,136,29,113>>],
  [n |-> <<235,786,1>>, c |-> <<107,134>>, s |-> <<972,724,850,114>>],
  [n |-> <<221,817,1>>, c |-> <<268,136>>, s |-> <<187,215,744,118>>],
  [n |-> <<527,824,1>>, c |-> <<774,136>>, s |-> <<185,636,665,119>>],
  [n |-> <<654,839,1>>, c |-> <<814,137>>, s |-> <<19,776,570,121>>],
  [n |-> <<455,851,1>>, c |-> <<634,138>>, s |-> <<285,72,84,123>>],
  [n |-> <<125,953,1>>, c |-> <<713,145>>, s |-> <<526,754,548,136>>],
  [n |-> <<824,983,1>>, c |-> <<803,147>>, s |-> <<726,886,662,140>>],
  [n |-> <<590,70,2>>, c |-> <<813,153>>, s |-> <<682,743,845,152>>],
  [n |-> <<152,97,2>>, c |-> <<611,155>>, s |-> <<694,635,592,156>>],
  [n |-> <<922,192,2>>, c |-> <<202,162>>, s |-> <<115,79,730,170>>],
  [n |-> <<385,268,2>>, c |-> <<358,167>>, s |-> <<107,679,232,182>>],
  [n |-> <<138,292,2>>, c |-> <<973,168>>, s |-> <<252,86,915,185>>],
  [n |-> <<461,358,2>>, c |-> <<453,173>>, s |-> <<34,144,332,196>>],
  [n |-> <<489,391,2>>, c |-> <<722,175>>, s |-> <<471,41,721,201>>],
  [n |-> <<106,512,2>>, c |-> <<896,183>>, s |-> <<805,708,762,221>>],
  [n |-> <<325,513,2>>, c |-> <<981,183>>, s |-> <<266,289,976,221>>],
  [n |-> <<740,585,2>>, c |-> <<911,188>>, s |-> <<352,262,546,234>>],
  [n |-> <<874,646,2>>, c |-> <<37,193>>, s |-> <<722,380,341,245>>],
  [n |-> <<599,947,2>>, c |-> <<289,213>>, s |-> <<432,249,982,301>>],
  [n |-> <<87,977,2>>, c |-> <<269,215>>, s |-> <<460,735,847,307>>],
  [n |-> <<481,389,3>>, c |-> <<844,242>>, s |-> <<545,787,617,395>>],
  [n |-> <<771,496,3>>, c |-> <<938,249>>, s |-> <<795,382,40,420>>],
  [n |-> <<703,865,3>>, c |-> <<342,274>>, s |-> <<777,363,879,509>>],
  [n |-> <<304,194,4>>, c |-> <<947,295>>, s |-> <<124,687,946,596>>],
  [n |-> <<481,556,4>>, c |-> <<609,319>>, s |-> <<666,334,480,700>>],
  [n |-> <<840,577,4>>, c |-> <<996,320>>, s |-> <<777,51,815,706>>],
  [n |-> <<872,623,4>>, c |-> <<6,324>>, s |-> <<719,544,663,720>>],
  [n |-> <<724,638,4>>, c |-> <<970,324>>, s |-> <<331,135,128,725>>],
  [n |-> <<195,641,4>>, c |-> <<137,325>>, s |-> <<360,15,903,725>>],
  [n |-> <<969,782,4>>, c |-> <<349,334>>, s |-> <<408,640,310,769>>],
  [n |-> <<809,826,4>>, c |-> <<175,337>>, s |-> <<52,221,889,782>>],
  [n |-> <<192,11,5>>, c |-> <<227,349>>, s |-> <<656,708,170,842>>],
  [n |-> <<79,132,5>>, c |-> <<31,357>>, s |-> <<796,620,749,881>>],
  [n |-> <<798,143,5>>, c |-> <<807,357>>, s |-> <<934,601,736,885>>],
  [n |-> <<702,615,5>>, c |-> <<200,388>>, s |-> <<443,877,230,49,1>>],
  [n |-> <<801,764,5>>, c |-> <<764,397>>, s |-> <<55,548,653,103,1>>],
  [n |-> <<626,37,6>>, c |-> <<262,415>>, s |-> <<255,701,913,206,1>>],
  [n |-> <<650,614,6>>, c |-> <<111,452>>, s |-> <<804,168,23,440,1>>],
  [n |-> <<680,330,7>>, c |-> <<600,497>>, s |-> <<913,565,185,757,1>>],
  [n |-> <<615,405,7>>, c |-> <<306,502>>, s |-> <<731,715,859,791,1>>],
  [n |-> <<0,573,7>>, c |-> <<862,512>>, s |-> <<19,583,915,870,1>>],
  [n |-> <<608,388,8>>, c |-> <<163,564>>, s |-> <<414,678,311,280,2>>],
  [n |-> <<732,389,8>>, c |-> <<237,564>>, s |-> <<422,476,932,280,2>>],
  [n |-> <<98,488,8>>, c |-> <<379,570>>, s |-> <<852,416,765,332,2>>],
  [n |-> <<529,609,8>>, c |-> <<45,578>>, s |-> <<648,624,300,398,2>>],
  [n |-> <<426,653,8>>, c |-> <<795,580>>, s |-> <<728,140,37,422,2>>],
  [n |-> <<619,140,9>>, c |-> <<206,611>>, s |-> <<167,923,591,692,2>>],
  [n |-> <<884,630,9>>, c |-> <<762,641>>, s |-> <<643,898,378,979,2>>],
  [n |-> <<625,765,9>>, c |-> <<133,650>>, s |-> <<720,409,562,60,3>>],
  [n |-> <<0,0,10>>, c |-> <<579,664>>, s |-> <<356,994,324,203,3>>],
  [n |-> <<960,54,10>>, c |-> <<27,668>>, s |-> <<116,193,900,237,3>>],
  [n |-> <<696,77,10>>, c |-> <<432,669>>, s |-> <<619,441,43,252,3>>],
  [n |-> <<259,413,10>>, c |-> <<205,690>>, s |-> <<660,418,876,464,3>>],
  [n |-> <<504,487,10>>, c |-> <<820,694>>, s |-> <<587,664,104,513,3>>],
  [n |-> <<834,839,10>>, c |-> <<618,716>>, s |-> <<257,937,544,745,3>>],
  [n |-> <<31,612,11>>, c |-> <<232,764>>, s |-> <<279,916,52,280,4>>],
  [n |-> <<987,357,12>>, c |-> <<995,809>>, s |-> <<662,324,519,828,4>>],
  [n |-> <<926,992,12>>, c |-> <<801,848>>, s |-> <<262,144,373,320,5>>],
  [n |-> <<533,396,13>>, c |-> <<387,873>>, s |-> <<84,150,785,644,5>>],
  [n |-> <<907,348,14>>, c |-> <<260,931>>, s |-> <<133,236,635,447,6>>],
  [n |-> <<180,419,15>>, c |-> <<990,995>>, s |-> <<747,118,2,411,7>>],
  [n |-> <<773,499,15>>, c |-> <<850,0,1>>, s |-> <<635,891,135,486,7>>],
  [n |-> <<336,416,16>>, c |-> <<130,56,1>>, s |-> <<57,449,236,368,8>>],
  [n |-> <<331,560,16>>, c |-> <<768,64,1>>, s |-> <<345,132,659,510,8>>],
  [n |-> <<649,752,16>>, c |-> <<379,76,1>>, s |-> <<808,497,55,704,8>>],
  [n |-> <<930,764,16>>, c |-> <<134,77,1>>, s |-> <<593,356,708,716,8>>],
  [n |-> <<216,777,16>>, c |-> <<871,77,1>>, s |-> <<22,693,68,729,8>>],
  [n |-> <<112,497,17>>, c |-> <<212,121,1>>, s |-> <<695,543,817,471,9>>],
  [n |-> <<76,758,17>>, c |-> <<800,136,1>>, s |-> <<51,570,588,746,9>>],
  [n |-> <<171,487,19>>, c |-> <<92,240,1>>, s |-> <<441,391,81,670,11>>],
  [n |-> <<952,145,22>>, c |-> <<858,397,1>>, s |-> <<635,221,60,954,14>>],
  [n |-> <<432,554,33>>, c |-> <<689,63,2>>, s |-> <<512,21,86,483,33>>],
  [n |-> <<923,907,34>>, c |-> <<469,141,2>>, s |-> <<588,321,567,145,36>>],
  [n |-> <<902,5,35>>, c |-> <<105,147,2>>, s |-> <<592,989,582,342,36>>],
  [n |-> <<187,977,35>>, c |-> <<934,202,2>>, s |-> <<63,115,29,324,38>>],
  [n |-> <<709,821,39>>, c |-> <<513,423,2>>, s |-> <<726,493,674,683,46>>],
  [n |-> <<734,862,39>>, c |-> <<876,425,2>>, s |-> <<21,634,821,777,46>>],
  [n |-> <<607,353,40>>, c |-> <<911,453,2>>, s |-> <<640,151,280,902,47>>],
  [n |-> <<721,46,43>>, c |-> <<165,607,2>>, s |-> <<848,788,816,292,54>>],
  [n |-> <<524,666,47>>, c |-> <<304,869,2>>, s |-> <<677,931,752,181,66>>],
  [n |-> <<125,828,48>>, c |-> <<858,934,2>>, s |-> <<347,202,558,344,69>>],
  [n |-> <<836,658,49>>, c |-> <<872,981,2>>, s |-> <<127,531,730,659,71>>],
  [n |-> <<73,52,51>>, c |-> <<378,60,3>>, s |-> <<867,816,894,612,75>>],
  [n |-> <<497,196,51>>, c |-> <<508,68,3>>, s |-> <<121,154,534,28,76>>],
  [n |-> <<676,446,51>>, c |-> <<627,82,3>>, s |-> <<316,178,142,753,76>>],
  [n |-> <<136,616,51>>, c |-> <<224,92,3>>, s |-> <<657,736,691,247,77>>],
  [n |-> <<930,645,51>>, c |-> <<868,93,3>>, s |-> <<221,251,573,332,77>>],
  [n |-> <<12,279,55>>, c |-> <<871,297,3>>, s |-> <<646,460,736,238,88>>],
  [n |-> <<176,466,60>>, c |-> <<148,588,3>>, s |-> <<927,140,956,36,105>>],
  [n |-> <<7,705,60>>, c |-> <<475,601,3>>, s |-> <<104,345,380,844,105>>],
  [n |-> <<777,468,62>>, c |-> <<761,699,3>>, s |-> <<220,231,486,897,111>>],
  [n |-> <<517,748,62>>, c |-> <<296,715,3>>, s |-> <<395,247,118,870,112>>],
  [n |-> <<392,394,66>>, c |-> <<189,918,3>>, s |-> <<822,170,209,971,125>>],
  [n |-> <<864,108,67>>, c |-> <<809,957,3>>, s |-> <<624,639,914,615,128>>],
  [n |-> <<44,979,77>>, c |-> <<401,558,4>>, s |-> <<930,944,125,180,172>>],
  [n |-> <<949,68,84>>, c |-> <<872,892,4>>, s |-> <<169,200,964,279,199>>],
  [n |-> <<603,803,95>>, c |-> <<412,533,5>>, s |-> <<935,917,349,884,256>>],
  [n |-> <<729,460,99>>, c |-> <<87,732,5>>, s |-> <<504,929,919,280,276>>],
  [n |-> <<0,0,100>>, c |-> <<455,761,5>>, s |-> <<276,387,790,209,279>>],
  [n |-> <<49,140,100>>, c |-> <<83,769,5>>, s |-> <<452,668,126,973,279>>],
  [n |-> <<734,697,103>>, c |-> <<66,962,5>>, s |-> <<411,294,687,641,299>>],
  [n |-> <<746,299,107>>, c |-> <<136,157,6>>, s |-> <<661,888,152,221,320>>],
  [n |-> <<521,559,109>>, c |-> <<456,279,6>>, s |-> <<61,51,262,484,333>>],
  [n |-> <<553,412,114>>, c |-> <<136,541,6>>, s |-> <<101,375,486,788,362>>],
  [n |-> <<213,357,128>>, c |-> <<104,290,7>>, s |-> <<131,919,836,697,453>>],
  [n |-> <<837,367,128>>, c |-> <<683,290,7>>, s |-> <<666,820,158,772,453>>],
  [n |-> <<163,140,129>>, c |-> <<159,332,7>>, s |-> <<268,326,338,112,459>>],
  [n |-> <<750,858,132>>, c |-> <<42,531,7>>, s |-> <<993,626,704,165,485>>],
  [n |-> <<728,217,134>>, c |-> <<553,603,7>>, s |-> <<962,845,669,848,494>>],
  [n |-> <<2,86,142>>, c |-> <<269,23,8>>, s |-> <<134,178,215,832,552>>],
  [n |-> <<89,833,143>>, c |-> <<531,116,8>>, s |-> <<40,956,899,164,566>>],
  [n |-> <<729,782,149>>, c |-> <<915,432,8>>, s |-> <<166,699,240,612,612>>],
  [n |-> <<187,674,150>>, c |-> <<159,480,8>>, s |-> <<970,600,632,709,619>>],
  [n |-> <<145,301,156>>, c |-> <<623,778,8>>, s |-> <<120,289,444,520,665>>],
  [n |-> <<126,146,158>>, c |-> <<361,876,8>>, s |-> <<748,645,136,887,680>>],
  [n |-> <<693,357,166>>, c |-> <<590,310,9>>, s |-> <<715,522,845,340,751>>],
  [n |-> <<336,119,169>>, c |-> <<564,456,9>>, s |-> <<203,586,272,826,775>>],
  [n |-> <<881,358,214>>, c |-> <<689,828,11>>, s |-> <<636,55,700,535,230,1>>],
  [n |-> <<625,140,244>>, c |-> <<865,375,13>>, s |-> <<304,335,241,197,585,1>>],
  [n |-> <<786,742,246>>, c |-> <<826,510,13>>, s |-> <<779,131,74,322,618,1>>],
  [n |-> <<595,687,252>>, c |-> <<208,818,13>>, s |-> <<601,640,809,79,695,1>>],
  [n |-> <<851,927,261>>, c |-> <<474,295,14>>, s |-> <<879,640,425,883,817,1>>],
  [n |-> <<0,488,263>>, c |-> <<996,375,14>>, s |-> <<653,403,61,37,839,1>>],
  [n |-> <<456,435,268>>, c |-> <<843,630,14>>, s |-> <<654,981,620,816,906,1>>],
  [n |-> <<249,475,282>>, c |-> <<323,353,15>>, s |-> <<520,355,256,826,105,2>>],
  [n |-> <<851,443,299>>, c |-> <<761,223,16>>, s |-> <<702,464,519,85,359,2>>],
  [n |-> <<617,513,345>>, c |-> <<341,575,18>>, s |-> <<334,558,427,350,117,3>>],
  [n |-> <<56,797,362>>, c |-> <<38,453,19>>, s |-> <<301,509,848,186,428,3>>],
  [n |-> <<199,846,364>>, c |-> <<942,556,19>>, s |-> <<51,906,130,989,465,3>>],
  [n |-> <<489,420,387>>, c |-> <<806,700,20>>, s |-> <<653,717,837,226,896,3>>],
  [n |-> <<245,546,407>>, c |-> <<117,717,21>>, s |-> <<406,991,981,190,300,4>>],
  [n |-> <<956,513,446>>, c |-> <<978,677,23>>, s |-> <<821,986,247,512,137,5>>],
  [n |-> <<616,238,452>>, c |-> <<356,965,23>>, s |-> <<267,864,995,652,266,5>>],
  [n |-> <<357,540,478>>, c |-> <<213,283,25>>, s |-> <<948,59,285,962,879,5>>],
  [n |-> <<912,870,536>>, c |-> <<750,192,28>>, s |-> <<779,482,544,74,357,7>>],
  [n |-> <<714,996,605>>, c |-> <<533,621,31>>, s |-> <<428,155,431,290,316,9>>],
  [n |-> <<514,597,709>>, c |-> <<230,724,36>>, s |-> <<365,843,522,508,672,12>>],
  [n |-> <<721,730,815>>, c |-> <<438,913,41>>, s |-> <<311,754,552,866,629,16>>],
  [n |-> <<953,18,827>>, c |-> <<296,463,42>>, s |-> <<573,609,114,505,81,17>>],
  [n |-> <<763,410,833>>, c |-> <<425,774,42>>, s |-> <<566,351,894,808,339,17>>],
  [n |-> <<896,373,900>>, c |-> <<367,27,46>>, s |-> <<982,171,557,669,159,20>>],
  [n |-> <<845,382,950>>, c |-> <<932,449,48>>, s |-> <<395,732,83,418,401,22>>],
  [n |-> <<699,705,993>>, c |-> <<663,543,50>>, s |-> <<344,692,848,597,436,24>>],
  [n |-> <<884,950,999>>, c |-> <<158,845,50>>, s |-> <<351,98,151,136,737,24>>],
  [n |-> <<506,982,999>>, c |-> <<696,846,50>>, s |-> <<641,661,99,674,738,24>>],
  [n |-> <<0,0,0,1>>, c |-> <<534,847,50>>, s |-> <<535,254,92,512,739,24>>],
  [n |-> <<129,267,0,1>>, c |-> <<382,860,50>>, s |-> <<429,982,806,361,752,24>>],
  [n |-> <<982,337,31,1>>, c |-> <<820,358,52>>, s |-> <<939,908,3,473,274,26>>],
  [n |-> <<824,741,73,1>>, c |-> <<28,400,54>>, s |-> <<825,819,403,918,422,28>>],
  [n |-> <<667,363,89,1>>, c |-> <<129,151,55>>, s |-> <<304,528,791,274,235,29>>],
  [n |-> <<467,261,162,1>>, c |-> <<288,648,58>>, s |-> <<461,637,145,345,172,33>>],
  [n |-> <<125,703,220,1>>, c |-> <<585,444,61>>, s |-> <<510,234,901,53,504,36>>],
  [n |-> <<43,855,494,1>>, c |-> <<973,482,74>>, s |-> <<344,594,232,555,204,54>>],
  [n |-> <<900,523,531,1>>, c |-> <<800,217,76>>, s |-> <<289,258,107,674,829,56>>],
  [n |-> <<743,326,977,1>>, c |-> <<605,163,97>>, s |-> <<124,388,77,245,568,93>>],
  [n |-> <<39,740,999,1>>, c |-> <<189,210,98>>, s |-> <<312,362,279,408,649,95>>],
  [n |-> <<950,358,12,2>>, c |-> <<885,799,98>>, s |-> <<786,9,611,364,832,96>>],
  [n |-> <<569,117,147,2>>, c |-> <<512,80,105>>, s |-> <<15,639,212,198,894,109>>],
  [n |-> <<600,395,147,2>>, c |-> <<480,93,105>>, s |-> <<751,495,841,43,922,109>>],
  [n |-> <<648,483,147,2>>, c |-> <<565,97,105>>, s |-> <<852,860,131,816,930,109>>],
  [n |-> <<336,782,176,2>>, c |-> <<872,460,106>>, s |-> <<263,787,386,467,878,112>>],
  [n |-> <<691,947,357,2>>, c |-> <<774,870,114>>, s |-> <<809,201,937,314,946,131>>],
  [n |-> <<954,800,670,2>>, c |-> <<997,324,129>>, s |-> <<822,842,592,480,287,168>>],
  [n |-> <<427,291,243,3>>, c |-> <<864,577,155>>, s |-> <<625,585,394,168,907,245>>],
  [n |-> <<401,784,486,3>>, c |-> <<978,677,166>>, s |-> <<59,356,52,796,258,283>>],
  [n |-> <<441,1,293,4>>, c |-> <<692,191,203>>, s |-> <<199,323,281,594,269,425>>],
  [n |-> <<296,967,294,4>>, c |-> <<221,280,203>>, s |-> <<430,687,193,736,649,425>>],
  [n |-> <<832,32,295,4>>, c |-> <<179,283,203>>, s |-> <<282,50,803,440,662,425>>],
  [n |-> <<369,98,295,4>>, c |-> <<83,286,203>>, s |-> <<228,980,672,913,674,425>>],
  [n |-> <<326,989,409,4>>, c |-> <<421,463,208>>, s |-> <<94,370,703,431,209,448>>],
  [n |-> <<807,983,480,5>>, c |-> <<833,446,256>>, s |-> <<612,479,422,101,469,685>>],
  [n |-> <<457,946,500,5>>, c |-> <<716,336,257>>, s |-> <<839,147,10,419,355,690>>],
  [n |-> <<625,515,103,6>>, c |-> <<656,140,284>>, s |-> <<35,627,522,570,871,845>>],
  [n |-> <<946,945,505,6>>, c |-> <<723,974,301>>, s |-> <<908,694,761,500,308,958>>],
  [n |-> <<24,912,769,6>>, c |-> <<913,647,313>>, s |-> <<418,865,365,726,793,35,1>>],
  [n |-> <<163,543,75,8>>, c |-> <<432,96,371>>, s |-> <<791,44,358,69,171,462,1>>],
  [n |-> <<553,486,368,8>>, c |-> <<195,929,383>>, s |-> <<794,333,496,857,681,567,1>>],
  [n |-> <<592,934,589,8>>, c |-> <<806,615,393>>, s |-> <<645,735,794,561,816,649,1>>],
  [n |-> <<53,82,871,8>>, c |-> <<448,897,405>>, s |-> <<913,385,692,221,41,757,1>>],
  [n |-> <<100,554,902,9>>, c |-> <<654,819,450>>, s |-> <<81,445,465,98,700,178,2>>],
  [n |-> <<81,200,998,9>>, c |-> <<398,974,454>>, s |-> <<419,396,938,372,41,220,2>>],
  [n |-> <<0,0,0,10>>, c |-> <<511,52,455>>, s |-> <<238,729,581,432,822,220,2>>]
>>
PiTen == <<
  <<>>,
  <<4>>,
  <<25>>,
  <<168>>,
  <<229,1>>,
  <<592,9>>,
  <<498,78>>,
  <<579,664>>,
  <<455,761,5>>,
  <<534,847,50>>,
  <<511,52,455>>,
  <<813,54,118,4>>,
  <<18,912,607,37>>,
  <<839,536,65,346>>,
  <<802,750,941,204,3>>,
  <<669,422,570,844,29>>,
  <<925,33,341,238,279>>,
  <<233,654,157,557,623,2>>,
  <<860,740,287,954,739,24>>,
  <<607,344,276,667,57,234>>,
  <<840,918,560,602,819,220,2>>,
  <<928,731,18,486,269,127,21>>,
  <<290,906,315,689,286,467,201>>,
  <<923,968,803,606,391,320,925,1>>,
  <<866,867,200,349,767,599,435,18>>,
  <<680,411,769,143,399,309,846,176>>,
  <<603,327,141,437,872,750,246,699,1>>,
  <<399,427,446,680,841,426,460,352,16>>
>>
SumTen == <<
  <<>>,
  <<17>>,
  <<60,1>>,
  <<127,76>>,
  <<396,736,5>>,
  <<537,396,454>>,
  <<23,402,550,37>>,
  <<356,994,324,203,3>>,
  <<276,387,790,209,279>>,
  <<535,254,92,512,739,24>>,
  <<238,729,581,432,822,220,2>>,
  <<14,681,744,743,77,467,201>>,
  <<377,911,705,550,552,588,435,18>>,
  <<494,889,418,779,377,443,246,699,1>>,
  <<21,561,541,940,736,710,260,589,157>>,
  <<366,702,225,398,6,908,516,398,692,14>>,
  <<552,866,632,159,899,351,313,854,110,376,1>>,
  <<350,311,31,252,966,278,669,276,626,408,129>>,
  <<687,896,733,576,880,570,226,949,292,914,212,12>>,
  <<126,980,945,413,614,781,82,368,549,260,251,156,1>>,
  <<541,833,703,45,839,485,128,648,63,483,913,778,109>>,
  <<965,651,405,63,253,283,220,786,704,130,362,550,449,10>>,
  <<213,368,878,794,353,971,213,279,668,259,763,504,973,996>>,
  <<650,509,555,185,403,912,684,544,458,404,168,117,530,320,95>>,
  <<199,142,453,134,380,928,84,410,384,634,941,156,511,187,131,9>>,
  <<853,354,119,704,535,505,303,815,911,684,105,623,750,31,268,876>>
>>
(* d with 10^(j - 1) + d prime and -NearBound <= d <= NearBound, for j >= 4 (sympy; MCWalks confirms them for j <= 9) *)
NearBound == 160
NearTen == <<
  <<>>,
  <<>>,
  <<>>,
  <<-147,-143,-141,-137,-123,-119,-117,-113,-93,-89,-81,-71,-63,-59,-53,-47,-33,-29,-23,-17,-9,-3,9,13,19,21,31,33,39,49,51,61,63,69,87,91,93,97,103,109,117,123,129,151,153>>,
  <<-149,-143,-141,-129,-117,-113,-99,-93,-77,-71,-69,-59,-51,-33,-27,7,9,37,39,61,67,69,79,91,93,99,103,111,133,139,141,151,159>>,
  <<-141,-129,-123,-119,-99,-93,-77,-71,-39,-29,-11,-9,3,19,43,49,57,69,103,109,129,151,153>>,
  <<-147,-137,-117,-93,-83,-69,-47,-41,-39,-21,-17,3,33,37,39,81,99,117,121,133,151,159>>,
  <<-137,-123,-117,-111,-99,-93,-71,-69,-63,-57,-29,-27,-9,19,79,103,121,139,141>>,
  <<-153,-69,-59,-41,-29,-11,7,37,39,49,73,81,123,127>>,
  <<-117,-107,-71,-63,7,9,21,33,87,93,97,103,123>>,
  <<-149,-119,-71,-57,-33,19,33,61,69,97,103,121,141,147>>,
  <<-149,-129,-93,-57,-53,-23,3,19,57,63,69,73,91,103,129>>,
  <<-153,-143,-137,-123,-101,-63,-41,-39,-11,39,61,63,91,121>>,
  <<-137,-29,37,51,99,129>>,
  <<-147,-77,-71,-69,-41,-29,-27,31,67,97,99,133,139>>,
  <<-123,-117,-53,-11,37,91,159>>,
  <<-149,-113,-83,-63,61,69,79,99>>,
  <<-81,-57,-39,-23,-3,3,13,19,21,49,81,99,141>>,
  <<-137,-123,-33,-11,3,9,31,79>>,
  <<-123,-81,-57,-39,51,87,91,97,99,147>>,
  <<-143,-69,-59,-27,-11,39,129,151>>,
  <<-113,-101,117>>,
  <<-147,-131,-71,-27,9,57,81,139>>,
  <<-111,-53,-23,117,157>>,
  <<7,49,121>>,
  <<-123,13>>,
  <<-141,67,123,127>>,
  <<-143,-123,-117,-107,-99,103>>
>>
=============================================================================

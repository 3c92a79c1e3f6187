------------------------------ MODULE HashMid ------------------------------
(***************************************************************************)
(* Chaining values after 2^k zero bytes (tools/midstate.c, an implementation *)
(* independent of the library).  MC_Hash checks the entries for small k       *)
(* against Hash.tla; with the others the digest of a message of up to 2^33    *)
(* zero bytes and a tail is Final applied to the chaining value.              *)
(***************************************************************************)
EXTENDS Hash
Mid1 ==
  <<<<<<10877,36820>>,<<35916,5381>>,<<56263,33062>>,<<63218,11732>>,<<18372,18042>>>>,
    <<<<40218,56176>>,<<17670,62445>>,<<7442,56777>>,<<54506,33523>>,<<19737,14663>>>>,
    <<<<41121,54511>>,<<34037,8508>>,<<43187,39542>>,<<57028,6916>>,<<18940,23651>>>>,
    <<<<48318,27966>>,<<46373,23017>>,<<6692,27900>>,<<543,35351>>,<<17085,27951>>>>,
    <<<<42091,30781>>,<<59410,39110>>,<<32372,26249>>,<<49430,64639>>,<<728,8587>>>>,
    <<<<33306,53473>>,<<54164,47199>>,<<4671,53205>>,<<61378,56019>>,<<23548,37611>>>>,
    <<<<23084,44447>>,<<27733,32203>>,<<22903,45503>>,<<42551,49035>>,<<442,30234>>>>,
    <<<<8051,52154>>,<<48065,23674>>,<<52803,55825>>,<<36331,26799>>,<<50454,1927>>>>,
    <<<<15364,49795>>,<<41910,21716>>,<<58873,28252>>,<<8292,36871>>,<<6913,57491>>>>,
    <<<<28641,38999>>,<<54850,14761>>,<<27756,47073>>,<<6015,8616>>,<<52117,48993>>>>,
    <<<<57499,7587>>,<<37851,42945>>,<<7164,65458>>,<<17762,53645>>,<<705,27698>>>>,
    <<<<63133,13201>>,<<33560,26598>>,<<26364,19880>>,<<54695,3299>>,<<55802,9556>>>>,
    <<<<46183,41897>>,<<3325,36683>>,<<20546,50049>>,<<21243,42865>>,<<13368,7302>>>>,
    <<<<61024,50329>>,<<25651,45561>>,<<27424,52361>>,<<42483,58317>>,<<26212,23179>>>>,
    <<<<15711,21774>>,<<31140,20358>>,<<18780,48238>>,<<35836,42653>>,<<48904,1228>>>>,
    <<<<27357,26520>>,<<35473,41098>>,<<42938,44818>>,<<5132,46280>>,<<50139,47227>>>>,
    <<<<13361,43771>>,<<12123,60193>>,<<1535,25421>>,<<57386,32984>>,<<38800,31366>>>>,
    <<<<63640,46513>>,<<38617,59207>>,<<31047,64375>>,<<37576,47269>>,<<28985,29665>>>>,
    <<<<24640,8908>>,<<5012,5565>>,<<61133,1886>>,<<20930,9423>>,<<41423,17631>>>>,
    <<<<19745,24361>>,<<14675,694>>,<<56459,16026>>,<<8350,46901>>,<<59359,13738>>>>,
    <<<<14279,57996>>,<<12753,35491>>,<<63008,46175>>,<<16829,54356>>,<<59326,50042>>>>,
    <<<<26421,16599>>,<<33616,19160>>,<<54506,1951>>,<<41891,15621>>,<<9563,44343>>>>,
    <<<<14313,13142>>,<<19099,12623>>,<<44892,25246>>,<<21905,41001>>,<<21788,34759>>>>,
    <<<<54992,12086>>,<<38064,14718>>,<<60520,63630>>,<<4156,49372>>,<<43082,61850>>>>,
    <<<<2365,63028>>,<<14706,59202>>,<<54169,31510>>,<<34016,7639>>,<<32643,20018>>>>,
    <<<<54992,52432>>,<<29564,18253>>,<<12569,52416>>,<<53608,57108>>,<<15652,21438>>>>,
    <<<<26520,47925>>,<<27840,61782>>,<<27070,20027>>,<<48772,27454>>,<<13660,742>>>>>>
MidRMD ==
  <<<<<<7595,11938>>,<<49751,14428>>,<<42885,37292>>,<<22790,9408>>,<<56743,47974>>>>,
    <<<<22236,61610>>,<<25963,20253>>,<<61865,48240>>,<<29517,17715>>,<<33632,23053>>>>,
    <<<<16168,37477>>,<<49783,15333>>,<<49473,15169>>,<<2777,29035>>,<<22267,22076>>>>,
    <<<<61225,47996>>,<<64158,27489>>,<<46070,48856>>,<<49103,37101>>,<<43736,10114>>>>,
    <<<<59137,20007>>,<<25758,26820>>,<<37331,63027>>,<<36732,37876>>,<<58309,43918>>>>,
    <<<<11937,31698>>,<<23071,23765>>,<<21294,8236>>,<<14148,2491>>,<<43334,42857>>>>,
    <<<<53444,38196>>,<<5304,15404>>,<<24408,14874>>,<<52,10371>>,<<13793,31886>>>>,
    <<<<9674,64225>>,<<12371,10769>>,<<3516,18120>>,<<63102,37958>>,<<46633,42594>>>>,
    <<<<59393,40921>>,<<22997,19070>>,<<13499,57012>>,<<42910,4165>>,<<50156,62738>>>>,
    <<<<15139,60884>>,<<25100,8861>>,<<45944,57100>>,<<29710,13408>>,<<46383,47878>>>>,
    <<<<13766,51620>>,<<23918,38267>>,<<16112,63962>>,<<7008,43002>>,<<14534,23237>>>>,
    <<<<5219,50463>>,<<5049,57325>>,<<27789,21592>>,<<57305,21100>>,<<46148,36155>>>>,
    <<<<3781,42010>>,<<42101,62388>>,<<45097,3907>>,<<25965,56417>>,<<8515,25984>>>>,
    <<<<15104,29911>>,<<64395,55768>>,<<41592,33245>>,<<30397,31937>>,<<7810,52808>>>>,
    <<<<21010,21246>>,<<36622,41217>>,<<19326,11991>>,<<52052,54025>>,<<17633,47475>>>>,
    <<<<58044,38727>>,<<15093,34481>>,<<44555,3589>>,<<1617,28489>>,<<24911,32963>>>>,
    <<<<12559,55385>>,<<27982,58988>>,<<15233,51018>>,<<9557,13379>>,<<6326,4100>>>>,
    <<<<29330,38240>>,<<2803,5069>>,<<5138,13762>>,<<10391,3166>>,<<18211,1659>>>>,
    <<<<17765,53107>>,<<1270,2819>>,<<63525,41189>>,<<26984,17054>>,<<63591,59649>>>>,
    <<<<63171,50474>>,<<50485,29285>>,<<48477,13164>>,<<55175,56452>>,<<35525,57291>>>>,
    <<<<55411,12438>>,<<59419,5486>>,<<14964,21380>>,<<21105,64520>>,<<45615,1094>>>>,
    <<<<29711,1721>>,<<26366,31972>>,<<27695,57093>>,<<32123,16217>>,<<31018,34722>>>>,
    <<<<24718,10315>>,<<44438,35003>>,<<64834,60022>>,<<3536,18632>>,<<25493,57118>>>>,
    <<<<48198,45649>>,<<58946,11377>>,<<54989,50973>>,<<39839,1518>>,<<30616,46650>>>>,
    <<<<6561,14569>>,<<21333,51165>>,<<15397,50554>>,<<4880,12033>>,<<23145,19691>>>>,
    <<<<51996,30911>>,<<50836,54500>>,<<17991,7642>>,<<3657,50590>>,<<15371,5515>>>>,
    <<<<32339,57955>>,<<47636,21815>>,<<19393,24301>>,<<56767,20779>>,<<9606,52350>>>>>>
Mid256 ==
  <<<<<<26753,37922>>,<<6526,24349>>,<<56514,18691>>,<<43077,37991>>,<<31848,32368>>,<<7266,15570>>,<<33485,23000>>,<<58852,57131>>>>,
    <<<<45671,31130>>,<<52685,64786>>,<<36165,37448>>,<<46291,11219>>,<<16361,12730>>,<<20190,8407>>,<<26437,8430>>,<<48184,41500>>>>,
    <<<<3328,17367>>,<<24812,24388>>,<<12426,25212>>,<<10922,32431>>,<<56477,14131>>,<<48209,55847>>,<<37694,2805>>,<<16645,42997>>>>,
    <<<<37882,31256>>,<<52050,788>>,<<2258,40785>>,<<4324,11238>>,<<64586,2014>>,<<19726,25858>>,<<20822,51581>>,<<29408,19151>>>>,
    <<<<43198,18362>>,<<25198,44506>>,<<27196,2441>>,<<53470,18405>>,<<55518,52867>>,<<19813,60521>>,<<27008,19042>>,<<55899,60056>>>>,
    <<<<38054,64564>>,<<35338,38157>>,<<1867,48929>>,<<7360,11325>>,<<20167,52137>>,<<53980,28672>>,<<32,37737>>,<<50012,61172>>>>,
    <<<<58618,18631>>,<<58656,63788>>,<<18393,22140>>,<<1353,55495>>,<<62918,1944>>,<<11987,35563>>,<<64283,25059>>,<<10262,17178>>>>,
    <<<<65341,45215>>,<<5877,2610>>,<<1551,11464>>,<<23760,50862>>,<<20619,9106>>,<<37878,2170>>,<<57317,8262>>,<<62736,48167>>>>,
    <<<<45708,33368>>,<<28645,55875>>,<<7831,33917>>,<<36257,57118>>,<<14777,63119>>,<<39303,40415>>,<<60791,15673>>,<<1950,59590>>>>,
    <<<<19248,53226>>,<<60018,36575>>,<<18672,28069>>,<<32437,30127>>,<<8369,39358>>,<<40043,41022>>,<<37650,40822>>,<<57214,49810>>>>,
    <<<<64842,34177>>,<<51657,44385>>,<<16119,32000>>,<<38287,14064>>,<<14143,61257>>,<<34672,28994>>,<<17655,38136>>,<<31583,41870>>>>,
    <<<<18794,10249>>,<<20468,60031>>,<<16411,1030>>,<<35200,23756>>,<<27146,39297>>,<<3621,14708>>,<<14683,63621>>,<<47927,57830>>>>,
    <<<<43063,39365>>,<<21325,32444>>,<<5235,7051>>,<<49261,54391>>,<<43231,22916>>,<<23044,3732>>,<<42265,44650>>,<<52025,19878>>>>,
    <<<<56942,39169>>,<<45859,38674>>,<<9837,48278>>,<<53492,36207>>,<<47036,13068>>,<<12543,7798>>,<<10634,58296>>,<<62929,10078>>>>,
    <<<<20052,17069>>,<<19167,21969>>,<<1660,57192>>,<<33500,54328>>,<<49661,31482>>,<<60682,30404>>,<<13091,51726>>,<<39883,34103>>>>,
    <<<<10864,2240>>,<<33609,20845>>,<<1476,32394>>,<<32324,12047>>,<<13381,37460>>,<<61281,39325>>,<<5704,232>>,<<29230,49019>>>>,
    <<<<22260,38776>>,<<29918,28463>>,<<18528,9784>>,<<15182,53999>>,<<40909,21143>>,<<48201,16150>>,<<6679,30214>>,<<4433,15796>>>>,
    <<<<14654,55215>>,<<23716,6868>>,<<36410,38599>>,<<25331,24308>>,<<21999,51366>>,<<26543,27507>>,<<46177,63697>>,<<37090,17794>>>>,
    <<<<28697,45486>>,<<8357,4508>>,<<37401,28045>>,<<29290,57048>>,<<27580,63201>>,<<34125,49689>>,<<12928,46415>>,<<5101,49129>>>>,
    <<<<48786,19237>>,<<35812,17552>>,<<34443,25449>>,<<53567,48250>>,<<25516,35540>>,<<53246,50341>>,<<40666,55461>>,<<26930,20440>>>>,
    <<<<63959,18754>>,<<36589,39050>>,<<10046,422>>,<<53,11669>>,<<14806,33084>>,<<56735,55076>>,<<6666,50432>>,<<58002,41861>>>>,
    <<<<22880,62816>>,<<40067,3430>>,<<318,62540>>,<<31561,60701>>,<<53257,34784>>,<<11329,54420>>,<<51750,22539>>,<<54008,19911>>>>,
    <<<<49556,21270>>,<<3792,15888>>,<<19984,25833>>,<<12171,1618>>,<<58663,29869>>,<<1630,41513>>,<<51651,49734>>,<<3596,49266>>>>,
    <<<<37832,6199>>,<<34782,28762>>,<<53319,28169>>,<<49399,52429>>,<<21023,53090>>,<<36194,2458>>,<<59863,8633>>,<<52717,46918>>>>,
    <<<<53694,20307>>,<<24913,54721>>,<<61271,12384>>,<<22381,40184>>,<<54217,63802>>,<<29262,52782>>,<<20850,3913>>,<<490,60594>>>>,
    <<<<36862,18664>>,<<65128,5525>>,<<1748,39326>>,<<58033,44108>>,<<15963,38204>>,<<54776,48021>>,<<59400,11598>>,<<36341,59802>>>>,
    <<<<42123,22928>>,<<25645,41403>>,<<37083,18877>>,<<44100,49289>>,<<55006,1635>>,<<56143,21297>>,<<17838,45235>>,<<13188,47510>>>>>>
Mid512 ==
  <<<<<<53112,33237,30538,52200>>,<<21299,25312,64455,32880>>,<<615,25501,34630,3802>>,<<12422,52032,59481,12720>>,<<29053,51538,34976,9123>>,<<38586,45761,19680,46560>>,<<28612,65028,60131,15883>>,<<37364,55308,48486,35822>>>>,
    <<<<8042,11746,8372,16060>>,<<61522,51607,53938,33817>>,<<35534,60559,6783,33825>>,<<53611,54213,12204,13408>>,<<2296,51566,36905,48176>>,<<10317,15948,3805,50274>>,<<609,47261,54144,36665>>,<<17156,20011,16592,35229>>>>,
    <<<<18785,62074,41614,50169>>,<<19581,47146,43680,6899>>,<<2311,8147,1579,34027>>,<<5357,62766,31200,47855>>,<<15737,45595,52011,2682>>,<<51181,36036,38670,24836>>,<<48430,34492,27779,40593>>,<<20840,56168,10370,531>>>>,
    <<<<8528,5073,23492,25915>>,<<55483,53173,58266,29696>>,<<56110,2852,25922,49496>>,<<11015,56064,20855,23805>>,<<9056,33833,14904,16227>>,<<3181,48408,48364,25417>>,<<38440,46776,26071,5849>>,<<30994,34270,42955,23202>>>>,
    <<<<56205,65076,10747,11140>>,<<60968,49764,30612,10644>>,<<29370,30661,26486,12428>>,<<26014,33312,49991,12956>>,<<12348,13188,14337,25622>>,<<1043,64847,11142,59265>>,<<61680,62165,10881,36242>>,<<29444,28518,16480,55572>>>>,
    <<<<41451,19572,14653,45140>>,<<37840,394,29721,26192>>,<<35035,31206,57649,7619>>,<<17797,18965,50292,29481>>,<<59209,7258,14677,53607>>,<<40804,25275,34055,126>>,<<62354,17981,26842,47982>>,<<21736,55696,16392,42288>>>>,
    <<<<28458,44840,62057,54547>>,<<9630,27115,34657,33607>>,<<22177,15505,23301,8503>>,<<55000,53403,62253,2296>>,<<32411,29175,35971,5416>>,<<56712,30783,33464,60116>>,<<15901,52638,24237,6200>>,<<28416,62786,34774,34131>>>>,
    <<<<5605,63348,34115,61483>>,<<41377,3675,62646,32869>>,<<58791,42547,62398,43472>>,<<27668,55079,43184,65401>>,<<19261,19601,62073,32184>>,<<23080,5825,15860,64963>>,<<31413,26317,24910,13892>>,<<59579,45648,48861,48518>>>>,
    <<<<28468,41157,10694,56725>>,<<52149,28987,54200,29646>>,<<57996,30423,36998,35979>>,<<40218,57694,1539,39660>>,<<51973,12926,62789,28377>>,<<2778,3313,29096,57102>>,<<44870,1469,14439,2642>>,<<34812,49904,10820,6007>>>>,
    <<<<6770,64808,49753,53652>>,<<10034,49322,1369,34481>>,<<292,8247,14805,9187>>,<<49754,9366,2590,48944>>,<<45523,12317,42401,502>>,<<17224,56686,25013,6513>>,<<64287,17514,9578,23580>>,<<12602,13832,46896,46453>>>>,
    <<<<667,9094,50821,28275>>,<<7683,19521,58856,685>>,<<19740,15727,11226,39152>>,<<45443,35247,7419,13640>>,<<31879,11611,25432,56790>>,<<27010,59348,21546,13830>>,<<26240,47317,24641,15975>>,<<8747,17396,25423,36935>>>>,
    <<<<33830,39304,63484,45285>>,<<17062,2977,55380,29229>>,<<52490,43443,10491,33949>>,<<5070,5850,42009,21529>>,<<13323,16192,30201,49853>>,<<17013,42761,20330,11131>>,<<3318,43821,53694,46190>>,<<30945,62664,40032,32340>>>>,
    <<<<3816,7330,52195,37757>>,<<28363,34250,28666,60162>>,<<55311,19830,9571,18474>>,<<38825,19504,46826,42500>>,<<31303,44204,42466,59689>>,<<39753,62215,57288,19600>>,<<34918,19408,25617,62495>>,<<6311,28675,37228,59829>>>>,
    <<<<39096,49754,39235,37948>>,<<32720,60815,59765,47642>>,<<895,32600,36494,46642>>,<<4295,40252,21600,24490>>,<<10780,29040,40688,38432>>,<<47227,3128,49020,63568>>,<<64238,65239,43793,14154>>,<<33071,52658,11613,31109>>>>,
    <<<<19913,47177,38010,6901>>,<<47549,48638,22575,58236>>,<<29931,21966,57724,23307>>,<<30030,26630,1969,30535>>,<<29656,52417,5927,37466>>,<<40531,12392,17466,64820>>,<<33067,47366,60646,18805>>,<<26143,5950,58795,22778>>>>,
    <<<<39055,27555,24746,40656>>,<<61576,42191,17461,53768>>,<<10275,203,18822,21656>>,<<62104,23522,2020,57037>>,<<46427,49866,18472,6796>>,<<29727,7706,62134,9726>>,<<17565,32942,26546,57419>>,<<18644,58748,17372,34023>>>>,
    <<<<46371,56397,17654,34203>>,<<54562,40966,33609,63809>>,<<64160,15663,31530,57813>>,<<58361,5065,61996,20721>>,<<26118,10143,27489,16244>>,<<31460,56821,53944,47667>>,<<56588,26995,27884,27781>>,<<19113,42111,10201,41026>>>>,
    <<<<657,62154,9160,1740>>,<<46609,44112,53293,31711>>,<<4732,31911,13298,17421>>,<<15655,38894,63066,61284>>,<<48357,9804,15603,27751>>,<<15350,29712,2033,33226>>,<<20385,60786,25643,60824>>,<<47273,37340,47685,55017>>>>,
    <<<<22860,64380,27224,52817>>,<<34487,30544,8662,17095>>,<<40935,35763,37445,24831>>,<<20641,11085,19899,13654>>,<<45769,30466,62809,5101>>,<<41574,24574,1087,36305>>,<<6406,25176,18812,21038>>,<<57678,58987,19795,28670>>>>,
    <<<<39074,11614,44702,52215>>,<<40777,11352,20252,62326>>,<<23711,36456,38501,16378>>,<<57595,943,8647,23323>>,<<12887,3633,30560,57581>>,<<18302,42240,54459,19257>>,<<1346,10370,38574,63360>>,<<18056,61314,698,39927>>>>,
    <<<<51077,48093,61298,11811>>,<<53908,54158,52589,8538>>,<<65211,58109,55761,30898>>,<<50042,19185,10456,16031>>,<<31306,2202,5866,37831>>,<<46186,1273,11401,14739>>,<<54984,51975,50802,25938>>,<<19623,27275,37012,56016>>>>,
    <<<<5781,63941,37018,3271>>,<<63681,28722,50536,17251>>,<<18362,59535,52766,54143>>,<<41467,23919,34321,7492>>,<<39699,15975,55803,60706>>,<<18202,6474,260,23080>>,<<36241,21493,32034,18332>>,<<20983,3840,49471,20899>>>>,
    <<<<61443,49015,7210,24489>>,<<64831,65060,48971,12388>>,<<51663,9721,23523,52509>>,<<46145,1154,61776,36312>>,<<28474,45662,14928,2613>>,<<18359,50011,22041,5853>>,<<45227,21328,11493,26927>>,<<37610,10460,9482,56344>>>>,
    <<<<51499,44051,6685,23904>>,<<19666,18470,10677,52938>>,<<32567,9147,56740,2800>>,<<21284,60668,57984,35116>>,<<17421,25945,24302,63240>>,<<39697,1531,21022,24798>>,<<61977,3672,17797,50565>>,<<6028,38322,1492,42224>>>>,
    <<<<30842,41500,39104,39745>>,<<18140,46667,26206,53501>>,<<22716,47053,62414,63233>>,<<27804,4602,909,55850>>,<<38671,40066,28723,10579>>,<<27956,24472,51514,4664>>,<<65122,35244,43376,63230>>,<<38740,26076,39954,43852>>>>,
    <<<<44437,63356,24500,37785>>,<<64323,8647,44214,3198>>,<<55809,26794,4900,18040>>,<<50758,17825,38227,62743>>,<<53506,60092,46813,10466>>,<<5167,40326,4940,7654>>,<<13123,48798,29755,54183>>,<<56628,44671,58251,18636>>>>,
    <<<<7566,49878,13815,14289>>,<<10841,36116,53956,35223>>,<<40855,33819,14343,41309>>,<<47107,7559,33004,8938>>,<<8084,62256,21310,44209>>,<<17465,2853,59527,36243>>,<<45617,20273,46947,30365>>,<<31639,52125,54948,51327>>>>>>
MidLog == 7..33
\* 2^k + n in base 2^24
MidLen(k, n) == IF k >= 24 THEN <<2 ^ (k - 24), n>> ELSE <<0, 2 ^ k + n>>
HugeDigest(w, k, tail) ==
  LET len == MidLen(k, Len(tail))
  IN CASE w = 0 -> Final1(Mid1[k - 6], tail, len)
       [] w = 1 -> FinalRMD(MidRMD[k - 6], tail, len)
       [] w = 2 -> Final256(Mid256[k - 6], tail, len)
       [] w = 3 -> Final512(Mid512[k - 6], tail, len)
=============================================================================

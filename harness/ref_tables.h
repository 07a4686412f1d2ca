// generated by tools/gen_ref.py
#ifndef REF_TABLES_H
#define REF_TABLES_H
static const double REF_EXP[] = {0.000357098108576247553, 0.0004046451693262644986, 0.0004585230476630206151, 0.0005195746821548384818, 0.0005887552473364431944, 0.000667147097754267321, 0.0007559767017882707722, 0.0008566338301859404977, 0.000970693299519908861, 0.001099939610753318227, 0.001246394868392049626, 0.00141235041702888161, 0.001600402690244564229, 0.001813493832734615165, 0.002054957731209459047, 0.002328572174237713594, 0.002638617957091921515, 0.002989945856313060363, 0.003388052521834711704, 0.00383916647402616336, 0.004350345551108769048, 0.004929587331545051652, 0.005585954258998099544, 0.006329715427485746577, 0.007172507245008698982, 0.008127515489292211464, 0.009209681603968139411, 0.01043593646277450494, 0.01182546525909661755, 0.01340000766514082864, 0.01518419795683794516, 0.01720595042585138236, 0.01949689610859799542, 0.02209287766506244427, 0.02503451014996014651, 0.02836781644971310214, 0.03214494732687607067, 0.03642499733736423324, 0.0412749293857975484, 0.04677062238395898365, 0.05299805840335580277, 0.06005466789530794296, 0.06805085402501019379, 0.07711171996831671233, 0.08737902619542038382, 0.0990134083638263021, 0.1121968905203437368, 0.1271357329320355753, 0.1440636591014532791, 0.163245512453958397, 0.1849813999073042876, 0.2096113871510978225, 0.2375208190954581318, 0.2691463487291838829, 0.304982768711059292, 0.3455907525769745159, 0.3916056266767989932, 0.4437473100810798718, 0.5028315779709409597, 0.5697828247309230098, 0.6456485264278920373, 0.7316156289466417912, 0.829029118180400343, 0.9394130628134757861, 1.06449445891785943, 1.206230249420980711, 1.366837941173796363, 1.548830298634133098, 1.755054656960298557, 1.988737469582291831, 2.253534787213208545, 2.553589458062926873, 2.893595944171760941, 3.278873767938673636, 3.715450737941104087, 4.21015725614396039, 4.770733181967602764, 5.405948925141167095, 6.125742661881985956, 6.941375821197035274, 7.865609273944891709, 8.912902981198736945, 10.09964222548005333, 11.44439396433112151, 12.96819731696913421, 14.69489272878894195, 16.65149496361014369, 18.86861575926488369, 21.38094275912334347, 24.22778221261097794, 27.45367393546010019, 31.10908815096766229, 35.25121511458854276, 39.94485987582193383, 45.26345617625876428, 51.29021534658570414, 58.11942817744798566, 65.85794013240370176, 74.62682298320091339, 84.56326902070599571, 95.82273747708687582, 108.5813867407895969, 123.0388304171765379, 139.4212603543751704, 157.9849854951874654, 179.0204419216566701, 202.8567368308648797, 229.8667975340788296, 260.473206037166792, 295.1548104863722758, 334.4542169178650308, 378.9862785221555312, 429.4477152409339235, 486.6280141983472068, 551.4217815078387304, 624.8427387029609514, 708.0395827712993675, 802.3139579273790085, 909.1408202993322966, 1030.191514142093921, 1167.359920612685254, 1322.792088214477471, 1498.919808489272002, 1698.498662260842126, 1924.651131676947147, 2180.915452553049302, 2471.300971330025264, 2800.350872725163422};
static const double REF_SIN[] = {-0.9965143680908102152, -0.9991397603850699709, -0.9861739108894642288, -0.9578191473488312929, -0.9145179363647265755, -0.8569459788520921105, -0.7860016659524729047, -0.7027920599407278229, -0.608615618888496979, -0.5049419346602743357, -0.3933888004238799995, -0.2756969655291613198, -0.1537029716965972124, -0.02931049439799736621, 0.09553936336253460413, 0.2188983613117614885, 0.3388415235451705209, 0.4534971771321384429, 0.5610761589460166631, 0.6598997349563215098, 0.7484257963118127976, 0.8252729234333457732, 0.889241942604375931, 0.9393346386757316577, 0.9747693318791553561, 0.9949930756786475387, 0.999690285316223343, 0.9887876624065108308, 0.9624553387335394376, 0.9211042214011522415, 0.8653795807650819306, 0.7961509812048658514, 0.7144987118625366645, 0.6216969290918729811, 0.5191937736746512727, 0.4085887730680894715, 0.2916078813138528918, 0.1700765461024943152, 0.0458912232727796996, -0.07901021674738968855, -0.2026787287608671306, -0.3231845069996868892, -0.4386470990986330657, -0.54726474992546522, -0.6473425173671443784, -0.7373187213346189426, -0.8157893132582969125, -0.8815297857963781688, -0.933514280862376182, -0.9709315977974505152, -0.9931978518853749454, -0.9999655856782488753, -0.9911291909537616699, -0.96682655669618023, -0.9274369173848676717, -0.8735749351670711202, -0.8060811082606929952, -0.7260086552607125497, -0.6346070800152692969, -0.5333026735360201733, -0.4236762572039380104, -0.3074385145803808507, -0.1864032967622698846, -0.06245931784238019858, 0.06245931784238019858, 0.1864032967622698846, 0.3074385145803808507, 0.4236762572039380104, 0.5333026735360201733, 0.6346070800152692969, 0.7260086552607125497, 0.8060811082606929952, 0.8735749351670711202, 0.9274369173848676717, 0.96682655669618023, 0.9911291909537616699, 0.9999655856782488753, 0.9931978518853749454, 0.9709315977974505152, 0.933514280862376182, 0.8815297857963781688, 0.8157893132582969125, 0.7373187213346189426, 0.6473425173671443784, 0.54726474992546522, 0.4386470990986330657, 0.3231845069996868892, 0.2026787287608671306, 0.07901021674738968855, -0.0458912232727796996, -0.1700765461024943152, -0.2916078813138528918, -0.4085887730680894715, -0.5191937736746512727, -0.6216969290918729811, -0.7144987118625366645, -0.7961509812048658514, -0.8653795807650819306, -0.9211042214011522415, -0.9624553387335394376, -0.9887876624065108308, -0.999690285316223343, -0.9949930756786475387, -0.9747693318791553561, -0.9393346386757316577, -0.889241942604375931, -0.8252729234333457732, -0.7484257963118127976, -0.6598997349563215098, -0.5610761589460166631, -0.4534971771321384429, -0.3388415235451705209, -0.2188983613117614885, -0.09553936336253460413, 0.02931049439799736621, 0.1537029716965972124, 0.2756969655291613198, 0.3933888004238799995, 0.5049419346602743357, 0.608615618888496979, 0.7027920599407278229, 0.7860016659524729047, 0.8569459788520921105, 0.9145179363647265755, 0.9578191473488312929, 0.9861739108894642288, 0.9991397603850699709, 0.9965143680908102152};
static const double REF_COS[] = {-0.08342130536363721765, 0.0414697385772440484, 0.1657136611175405376, 0.287371677400466534, 0.4045453547715038513, 0.515406237185028351, 0.6182243776493589517, 0.7113953334709670633, 0.7934652030460893496, 0.8631533135089844764, 0.9193722052036708767, 0.9612446011281480456, 0.9881170965485998695, 0.999570355161728956, 0.9954256526975189324, 0.9757476658516921716, 0.9408434630275047256, 0.8912577126360152006, 0.8277641837276992535, 0.7513536715852106776, 0.6632185366943756507, 0.5647340983576067058, 0.4574371732961760318, 0.3430020941392816794, 0.2232145820233639699, 0.0999438810110212389, -0.02488641083740214963, -0.1493283585681834514, -0.2714400872076706743, -0.3893160840717695201, -0.5011169336540634603, -0.6050980210895829246, -0.6996367562862716037, -0.7832578939006836838, -0.8546565540481597402, -0.9127185845169984725, -0.9565379467410824499, -0.9854308542286699305, -0.9989464428219001786, -0.9968738062811814607, -0.9792452874065204563, -0.9463359733389454831, -0.8986594029176760262, -0.8369595530782942294, -0.762199229341494663, -0.6755450415549525276, -0.5783491993368334468, -0.4721284112969602071, -0.3585402173062327996, -0.2393571231413215867, -0.1164389411248522644, 0.008296231623858377478, 0.1329019444528252057, 0.2554337668888116979, 0.3739796308245331923, 0.4866896677019633309, 0.5918050750924775055, 0.6876855622205048445, 0.7728349461524715448, 0.8459244992310679545, 0.9058136834259364207, 0.9515679480481722021, 0.9824733131012552575, 0.9980475107000991496, 0.9980475107000991496, 0.9824733131012552575, 0.9515679480481722021, 0.9058136834259364207, 0.8459244992310679545, 0.7728349461524715448, 0.6876855622205048445, 0.5918050750924775055, 0.4866896677019633309, 0.3739796308245331923, 0.2554337668888116979, 0.1329019444528252057, 0.008296231623858377478, -0.1164389411248522644, -0.2393571231413215867, -0.3585402173062327996, -0.4721284112969602071, -0.5783491993368334468, -0.6755450415549525276, -0.762199229341494663, -0.8369595530782942294, -0.8986594029176760262, -0.9463359733389454831, -0.9792452874065204563, -0.9968738062811814607, -0.9989464428219001786, -0.9854308542286699305, -0.9565379467410824499, -0.9127185845169984725, -0.8546565540481597402, -0.7832578939006836838, -0.6996367562862716037, -0.6050980210895829246, -0.5011169336540634603, -0.3893160840717695201, -0.2714400872076706743, -0.1493283585681834514, -0.02488641083740214963, 0.0999438810110212389, 0.2232145820233639699, 0.3430020941392816794, 0.4574371732961760318, 0.5647340983576067058, 0.6632185366943756507, 0.7513536715852106776, 0.8277641837276992535, 0.8912577126360152006, 0.9408434630275047256, 0.9757476658516921716, 0.9954256526975189324, 0.999570355161728956, 0.9881170965485998695, 0.9612446011281480456, 0.9193722052036708767, 0.8631533135089844764, 0.7934652030460893496, 0.7113953334709670633, 0.6182243776493589517, 0.515406237185028351, 0.4045453547715038513, 0.287371677400466534, 0.1657136611175405376, 0.0414697385772440484, -0.08342130536363721765};
static const double REF_LN[] = {0.06062462181643484258, 0.1718502569266592223, 0.2719337154836417588, 0.3629054936893684531, 0.4462871026284195115, 0.5232481437645478365, 0.5947071077466927895, 0.6613984822453650083};
static const double REF_ATAN[] = {0.06241880999595734847, 0.1853479499956947649, 0.3028848683749714056, 0.4124104415973873069, 0.5123894603107377067, 0.6022873461349641817, 0.6823165548747480783, 0.7531512809621943895};
static const double REF_LN2 = 0.6931471805599453094;
static const double REF_LG[][9] = {
	{-0.03295710029357781908, -0.4788534900601043665, 0.753210021457707132, -0.3403842583937867068, 0.2145987499866559433, -0.1540945256691484374, 0.118264568562123393, -0.0944209196749207082, 0.07736234445286890308},
	{-0.08166159299301965447, -0.3049986500399004574, 0.6430547695439867806, -0.2532350142494554587, 0.1406646796520420953, -0.08955171062786642292, 0.06116052996033887085, -0.04354808890126377202, 0.03186299403228388597},
	{-0.1102014697686315235, -0.1551055762098399163, 0.5597290025778280542, -0.1948304133057580482, 0.09651811085358132846, -0.05509903433399575321, 0.0338568057425571331, -0.02173505525960970155, 0.01435713649465980877},
	{-0.121202427199022659, -0.02361354400529789914, 0.4947514589478136019, -0.1540220005303909207, 0.06874343256559329864, -0.03552166858651837883, 0.01981699734737989287, -0.01157319586807280858, 0.006963410114912379932},
	{-0.1167086833813166953, 0.09335158012628178984, 0.4428099549381149007, -0.1245146682105344862, 0.05050031784426004011, -0.02380843124454381922, 0.01215147881159106253, -0.006504240196373578359, 0.003591348714166192679},
	{-0.09835237697474921755, 0.1985849785085185658, 0.4004270340873852191, -0.1025599390638811603, 0.03807784437575212391, -0.01649067657428013628, 0.007750316008003893907, -0.003826534590438566502, 0.001951190197321760692},
	{-0.06746407369167408194, 0.2941629167060469323, 0.3652408937988469018, -0.085824599047339883, 0.02935589608739165377, -0.01174771877461512755, 0.005112872232884358961, -0.002341298625688814683, 0.001108513891555945427},
	{-0.02514761940298887101, 0.3816659921709688966, 0.3355966700539501134, -0.07280078044932145977, 0.02306892345625267453, -0.008574757876885175456, 0.003473001370954122729, -0.001482126341838056398, 0.0006546539288650062778},
	{0.0276675215228570235, 0.4623229805281309276, 0.3103034470632434642, -0.06248209406784871914, 0.01843251634481736378, -0.006392890927058212863, 0.002420149156562432592, -0.0009665981376614459805, 0.0003999620104200989058},
	{0.09018866393363956787, 0.5371066131179942794, 0.2884841324248732072, -0.05417781446328643508, 0.01494434294498797511, -0.004855904846272068248, 0.00172487678027265705, -0.0006471663051257530303, 0.000251787908813766721},
	{0.1617322457150102354, 0.6067991856949219884, 0.2694795694712520905, -0.04740212982305279675, 0.01227337743489261337, -0.003749863488318822106, 0.00125415758657178002, -0.0004435299332519199425, 0.0001627862770879543714},
	{0.2417030664903457942, 0.6720386299077455791, 0.2527854854128419573, -0.04180589686199827393, 0.01019590021686670032, -0.002938694062009663249, 0.0009283164636067244153, -0.0003103799373757640344, 0.0001077830266620049916},
	{0.3295784192471028162, 0.7333515801262817898, 0.2380099549381149007, -0.03713333487720115282, 0.008557277844260040113, -0.002333594764543819218, 0.000698232688924395859, -0.0002213166090821497873, 0.00007291150528299267854},
	{0.424895766789798619, 0.7911775711011111584, 0.2248440436895800065, -0.03319381940055070598, 0.007248457858716366416, -0.00187526370694466606, 0.0005328281722826740453, -0.00016050902308810562, 0.00005028805128818838224},
	{0.5272430340550187076, 0.8458870546370814151, 0.2130411316109753204, -0.02984307732306527832, 0.00619112847734698977, -0.001523269622595413781, 0.0004119760710362147005, -0.0001182147264896922745, 0.00003530097470119667772},
	{0.6362508628423761372, 0.8977950244290334127, 0.2024020810841270124, -0.02697038424465114546, 0.005328124925412552869, -0.001249524935118931672, 0.0003223635465385340051, -0.00008829578357125216936, 0.00002518206384128823926},
	{0.7515863607495560213, 0.9471714653766157761, 0.1927644204333077433, -0.02448968141978868816, 0.004617093563704625237, -0.001034181484687211248, 0.0002550140283317248691, -0.00006680172073439861507, 0.00001823019717832123558},
	{0.8729480031832720099, 0.9942494702608514223, 0.1839943365065058602, -0.02233330523102210077, 0.004026225493925917633, -0.0008629933213122300855, 0.0002037676279070044171, -0.00005113986174982383513, 0.00001337733146339504291},
	{1.000061436119453442, 1.039231618127354421, 0.17598066516153697, -0.0204474907427745638, 0.003531332327775348627, -0.0007255884242350116017, 0.0001643287346496861448, -0.00003957792636187742498, 9.93957177820855394e-6},
	{1.132675990380210984, 1.082295040164155836, 0.168630324334603956, -0.01878910066965967528, 0.003113809080762516123, -0.0006143154327241874089, 0.0001336571031672454956, -0.00003093928315528793078, 7.470996941834082592e-6},
	{1.270561763711629382, 1.12359548256530618, 0.1618648032426955075, -0.0173232141109131806, 0.002759193717541609219, -0.0005234611835195285974, 0.0001095713617620249255, -0.00002441247177348215796, 5.675946201984219754e-6},
	{1.413507160243579805, 1.163270594356925112, 0.1556174347117541547, -0.01602132725101251018, 0.002456134468147567588, -0.0004487116278916282692, 0.00009048644234374759864, -0.00001942993314080681973, 4.35532432860272634e-6},
	{1.561316801585557227, 1.201442610192636971, 0.1498312550677654438, -0.01485999547578590018, 0.002195639984739155598, -0.0003867751180314076164, 0.00007523695857280546659, -0.0000155894731675104127, 3.373118112073431842e-6},
	{1.713809742312653486, 1.23822055634392703, 0.1444573096943578861, -0.01381979782995176928, 0.001970528393999946184, -0.0003351156669895409151, 0.00006295666196282031524, -0.00001260258928776124466, 2.635154905780304247e-6},
	{1.870817936620401394, 1.273702077621513735, 0.1394533000667937908, -0.01288453957129585495, 0.001775018008971686494, -0.0002917617479406476578, 0.00005299505234626538876, -0.00001025996652272482467, 2.07541026070015261e-6},
	{2.032184913667816544, 1.307974960456929854, 0.1347824949071210083, -0.01204063247820958271, 0.001604420140322972207, -0.0002551676639373731942, 0.00004485895931227058931, -8.408118934433225978e-6, 1.647049121915267853e-6},
	{2.197764627431794039, 1.34111841058018461, 0.1304128474328078849, -0.01127660918730707498, 0.001454906315216671913, -0.0002241119532774443952, 0.0000381711318930654639, -6.933371470676386264e-6, 1.316481806947902203e-6},
	{2.367420453372900665, 1.373204131073246745, 0.1263162747478270965, -0.01058273953767870859, 0.001323330288330305209, -0.0001976221864854183233, 0.00003264055862451359611, -5.750742178398937646e-6, 1.059368329535066159e-6},
	{2.541024309306398296, 1.404297236951271092, 0.1224680657850162216, -0.009950725229943957505, 0.001207090795232299093, -0.0001749187728956835165, 0.00002804097331200268436, -4.79613771031891197e-6, 8.57899239102018984e-7},
	{2.718455881909518018, 1.434457035034891214, 0.1188463919079621409, -0.009373455105694180003, 0.001104024879269263145, -0.0001553725984400639155, 0.00002419513625299859216, -4.020815986540706847e-6, 6.989236479294114176e-7},
	{2.899601943519087238, 1.463737692159850085, 0.1154319000556719206, -0.008844807714108344203, 0.0010123243594911118, -0.0001384728228973918684, 0.00002096323286045229764, -3.387417738035227179e-6, 5.726463741610941801e-7},
	{3.084355746464404937, 1.492188810312180998, 0.1122073726825161124, -0.00835949103429601923, 0.0009304699567321842697, -0.0001238022067192654784, 0.00001823423650879376781, -2.86709531137451325e-6, 4.717117999165861546e-7},
};
#endif

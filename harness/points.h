// generated by tools/gen_points.py
#ifndef POINTS_H
#define POINTS_H
struct point { double x, y; };
static const point P_EXP[] = {{-1e-300, 1.0}, {-1e-15, 0.999999999999999}, {-1e-12, 0.999999999999}, {-1e-09, 0.9999999990000000005}, {-3e-07, 0.999999700000045}, {-1e-05, 0.9999900000499998333}, {-0.0005, 0.9995001249791692706}, {-0.00099, 0.9990104898883235169}, {-0.00101, 0.9989905098783265164}, {-0.01, 0.9900498337491680534}, {-0.05, 0.9512294245007140065}, {-0.1, 0.9048374180359595681}, {-0.3, 0.7408182206817178743}, {-0.5, 0.6065306597126334236}, {-0.7, 0.4965853037914095368}, {-0.9375, 0.3916056266767989932}, {-1.0, 0.3678794411714423216}, {-1.1, 0.3328710836980795237}, {-1.5, 0.2231301601484298289}, {-2.0, 0.1353352832366126919}, {-2.5, 0.08208499862389879517}, {-3.0, 0.04978706836786394298}, {-4.0, 0.01831563888873418029}, {-5.0, 0.006737946999085467097}, {-6.5, 0.001503439192977572447}, {-8.0, 0.0003354626279025118388}, {-12.25, 4.78511739212900909e-6}, {-13.0, 2.260329406981054326e-6}, {-18.5, 9.237449661970594898e-9}, {-25.0, 1.388794386496402059e-11}, {-40.0, 4.248354255291588995e-18}, {-100.5, 2.256340135917036313e-44}, {-300.0, 5.148200222412013781e-131}, {-700.0, 9.859676543759770857e-305}, {1e-300, 1.0}, {1e-15, 1.000000000000001}, {1e-12, 1.000000000001}, {1e-09, 1.000000001}, {3e-07, 1.000000300000045}, {1e-05, 1.000010000050000167}, {0.0005, 1.000500125020835938}, {0.00099, 1.000990490211756533}, {0.00101, 1.001010510221760201}, {0.01, 1.010050167084168058}, {0.05, 1.051271096376024043}, {0.1, 1.105170918075647631}, {0.3, 1.349858807576003089}, {0.5, 1.648721270700128147}, {0.7, 2.013752707470476432}, {0.9375, 2.553589458062926873}, {1.0, 2.718281828459045235}, {1.1, 3.004166023946433379}, {1.5, 4.481689070338064823}, {2.0, 7.389056098930650227}, {2.5, 12.18249396070347344}, {3.0, 20.08553692318766774}, {4.0, 54.59815003314423908}, {5.0, 148.4131591025766034}, {6.5, 665.1416330443618407}, {8.0, 2980.957987041728275}, {12.25, 208981.2888697129615}, {13.0, 442413.3920089205033}, {18.5, 108254987.7502307572}, {25.0, 72004899337.38587252}, {40.0, 235385266837019985.4}, {100.5, 4.431955909845895416e+43}, {300.0, 1.942426395241255937e+130}, {700.0, 1.014232054735004509e+304}};
static const int N_P_EXP = 68;
static const point P_EXPM1[] = {{-1e-300, -1.000000000000000025e-300}, {-1e-15, -9.999999999999995777e-16}, {-1e-12, -9.999999999994999799e-13}, {-1e-09, -9.999999995000000624e-10}, {-3e-07, -2.999999550000044864e-7}, {-1e-05, -9.999950000166667068e-6}, {-0.0005, -0.0004998750208307294375}, {-0.00099, -0.0009895101116764830845}, {-0.00101, -0.001009490121673483637}, {-0.01, -0.009950166250831946632}, {-0.05, -0.04877057549928599355}, {-0.1, -0.09516258196404043186}, {-0.3, -0.2591817793182821257}, {-0.5, -0.3934693402873665764}, {-0.7, -0.5034146962085904632}, {-0.9375, -0.6083943733232010068}, {-1.0, -0.6321205588285576784}, {-1.1, -0.6671289163019204763}, {-1.5, -0.7768698398515701711}, {-2.0, -0.8646647167633873081}, {-2.5, -0.9179150013761012048}, {-3.0, -0.950212931632136057}, {-4.0, -0.9816843611112658197}, {-5.0, -0.9932620530009145329}, {-6.5, -0.9984965608070224276}, {-8.0, -0.9996645373720974882}, {-12.25, -0.999995214882607871}, {-13.0, -0.9999977396705930189}, {-18.5, -0.999999990762550338}, {-25.0, -0.9999999999861120561}, {-40.0, -0.9999999999999999958}, {-100.5, -1.0}, {-300.0, -1.0}, {-700.0, -1.0}, {1e-300, 1.000000000000000025e-300}, {1e-15, 1.000000000000000578e-15}, {1e-12, 1.00000000000049998e-12}, {1e-09, 1.000000000500000062e-9}, {3e-07, 3.000000450000044864e-7}, {1e-05, 0.0000100000500001666679}, {0.0005, 0.0005001250208359377709}, {0.00099, 0.0009904902117565327546}, {0.00101, 0.001010510221760200641}, {0.01, 0.01005016708416805775}, {0.05, 0.05127109637602404262}, {0.1, 0.1051709180756476309}, {0.3, 0.349858807576003089}, {0.5, 0.6487212707001281468}, {0.7, 1.013752707470476432}, {0.9375, 1.553589458062926873}, {1.0, 1.718281828459045235}, {1.1, 2.004166023946433379}, {1.5, 3.481689070338064823}, {2.0, 6.389056098930650227}, {2.5, 11.18249396070347344}, {3.0, 19.08553692318766774}, {4.0, 53.59815003314423908}, {5.0, 147.4131591025766034}, {6.5, 664.1416330443618407}, {8.0, 2979.957987041728275}, {12.25, 208980.2888697129615}, {13.0, 442412.3920089205033}, {18.5, 108254986.7502307572}, {25.0, 72004899336.38587252}, {40.0, 235385266837019984.4}, {100.5, 4.431955909845895416e+43}, {300.0, 1.942426395241255937e+130}, {700.0, 1.014232054735004509e+304}};
static const int N_P_EXPM1 = 68;
static const point P_SINH[] = {{-1e-300, -1.000000000000000025e-300}, {-1e-15, -1.000000000000000078e-15}, {-1e-12, -9.999999999999999799e-13}, {-1e-09, -1.000000000000000062e-9}, {-3e-07, -3.000000000000044864e-7}, {-1e-05, -0.00001000000000016666748}, {-0.0005, -0.0005000000208333336042}, {-0.00099, -0.0009900001617165079195}, {-0.00101, -0.001010000171716842139}, {-0.01, -0.01000016666750000219}, {-0.05, -0.05002083593765501808}, {-0.1, -0.1001667500198440314}, {-0.3, -0.3045202934471426074}, {-0.5, -0.5210953054937473616}, {-0.7, -0.7585837018395334477}, {-0.9375, -1.08099191569306394}, {-1.0, -1.175201193643801457}, {-1.1, -1.335647470124176928}, {-1.5, -2.129279455094817497}, {-2.0, -3.626860407847018768}, {-2.5, -6.050204481039787321}, {-3.0, -10.0178749274099019}, {-4.0, -27.28991719712775245}, {-5.0, -74.20321057778875898}, {-6.5, -332.5700648025844316}, {-8.0, -1490.478825789550186}, {-12.25, -104490.6444324639221}, {-13.0, -221206.696003330087}, {-18.5, -54127493.87511537401}, {-25.0, -36002449668.69293626}, {-40.0, -117692633418509992.7}, {-100.5, -2.215977954922947708e+43}, {-300.0, -9.712131976206279683e+129}, {-700.0, -5.071160273675022547e+303}, {1e-300, 1.000000000000000025e-300}, {1e-15, 1.000000000000000078e-15}, {1e-12, 9.999999999999999799e-13}, {1e-09, 1.000000000000000062e-9}, {3e-07, 3.000000000000044864e-7}, {1e-05, 0.00001000000000016666748}, {0.0005, 0.0005000000208333336042}, {0.00099, 0.0009900001617165079195}, {0.00101, 0.001010000171716842139}, {0.01, 0.01000016666750000219}, {0.05, 0.05002083593765501808}, {0.1, 0.1001667500198440314}, {0.3, 0.3045202934471426074}, {0.5, 0.5210953054937473616}, {0.7, 0.7585837018395334477}, {0.9375, 1.08099191569306394}, {1.0, 1.175201193643801457}, {1.1, 1.335647470124176928}, {1.5, 2.129279455094817497}, {2.0, 3.626860407847018768}, {2.5, 6.050204481039787321}, {3.0, 10.0178749274099019}, {4.0, 27.28991719712775245}, {5.0, 74.20321057778875898}, {6.5, 332.5700648025844316}, {8.0, 1490.478825789550186}, {12.25, 104490.6444324639221}, {13.0, 221206.696003330087}, {18.5, 54127493.87511537401}, {25.0, 36002449668.69293626}, {40.0, 117692633418509992.7}, {100.5, 2.215977954922947708e+43}, {300.0, 9.712131976206279683e+129}, {700.0, 5.071160273675022547e+303}};
static const int N_P_SINH = 68;
static const point P_COSH[] = {{-1e-300, 1.0}, {-1e-15, 1.0}, {-1e-12, 1.0}, {-1e-09, 1.0}, {-3e-07, 1.000000000000045}, {-1e-05, 1.00000000005}, {-0.0005, 1.000000125000002604}, {-0.00099, 1.000000490050040025}, {-0.00101, 1.000000510050043359}, {-0.01, 1.000050000416668056}, {-0.05, 1.001250260438369025}, {-0.1, 1.0050041680558036}, {-0.3, 1.045338514128860482}, {-0.5, 1.127625965206380785}, {-0.7, 1.255169005630942984}, {-0.9375, 1.472597542369862933}, {-1.0, 1.543080634815243778}, {-1.1, 1.668518553822256451}, {-1.5, 2.352409615243247326}, {-2.0, 3.76219569108363146}, {-2.5, 6.132289479663686117}, {-3.0, 10.06766199577776584}, {-4.0, 27.30823283601648663}, {-5.0, 74.20994852478784444}, {-6.5, 332.5715682417774091}, {-8.0, 1490.479161252178089}, {-12.25, 104490.6444372490395}, {-13.0, 221206.6960055904164}, {-18.5, 54127493.87511538324}, {-25.0, 36002449668.69293626}, {-40.0, 117692633418509992.7}, {-100.5, 2.215977954922947708e+43}, {-300.0, 9.712131976206279683e+129}, {-700.0, 5.071160273675022547e+303}, {1e-300, 1.0}, {1e-15, 1.0}, {1e-12, 1.0}, {1e-09, 1.0}, {3e-07, 1.000000000000045}, {1e-05, 1.00000000005}, {0.0005, 1.000000125000002604}, {0.00099, 1.000000490050040025}, {0.00101, 1.000000510050043359}, {0.01, 1.000050000416668056}, {0.05, 1.001250260438369025}, {0.1, 1.0050041680558036}, {0.3, 1.045338514128860482}, {0.5, 1.127625965206380785}, {0.7, 1.255169005630942984}, {0.9375, 1.472597542369862933}, {1.0, 1.543080634815243778}, {1.1, 1.668518553822256451}, {1.5, 2.352409615243247326}, {2.0, 3.76219569108363146}, {2.5, 6.132289479663686117}, {3.0, 10.06766199577776584}, {4.0, 27.30823283601648663}, {5.0, 74.20994852478784444}, {6.5, 332.5715682417774091}, {8.0, 1490.479161252178089}, {12.25, 104490.6444372490395}, {13.0, 221206.6960055904164}, {18.5, 54127493.87511538324}, {25.0, 36002449668.69293626}, {40.0, 117692633418509992.7}, {100.5, 2.215977954922947708e+43}, {300.0, 9.712131976206279683e+129}, {700.0, 5.071160273675022547e+303}};
static const int N_P_COSH = 68;
static const point P_TANH[] = {{-1e-300, -1.000000000000000025e-300}, {-1e-15, -1.000000000000000078e-15}, {-1e-12, -9.999999999999999799e-13}, {-1e-09, -1.000000000000000062e-9}, {-3e-07, -2.999999999999909864e-7}, {-1e-05, -9.999999999666667485e-6}, {-0.0005, -0.0004999999583333375104}, {-0.00099, -0.0009899996765671267932}, {-0.00101, -0.001009999656566473515}, {-0.01, -0.009999666679999460547}, {-0.05, -0.04995837495787997497}, {-0.1, -0.09966799462495582261}, {-0.3, -0.2913126124515908957}, {-0.5, -0.4621171572600097585}, {-0.7, -0.6043677771171634681}, {-0.9375, -0.7340715196043414926}, {-1.0, -0.7615941559557648881}, {-1.1, -0.8004990217606297379}, {-1.5, -0.9051482536448664382}, {-2.0, -0.9640275800758168839}, {-2.5, -0.9866142981514302889}, {-3.0, -0.9950547536867304513}, {-4.0, -0.9993292997390670438}, {-5.0, -0.9999092042625951312}, {-6.5, -0.9999954793514041929}, {-8.0, -0.9999997749296758898}, {-12.25, -0.9999999999542053031}, {-13.0, -0.9999999999897818219}, {-18.5, -0.9999999999999998293}, {-25.0, -1.0}, {-40.0, -1.0}, {-100.5, -1.0}, {-300.0, -1.0}, {-700.0, -1.0}, {1e-300, 1.000000000000000025e-300}, {1e-15, 1.000000000000000078e-15}, {1e-12, 9.999999999999999799e-13}, {1e-09, 1.000000000000000062e-9}, {3e-07, 2.999999999999909864e-7}, {1e-05, 9.999999999666667485e-6}, {0.0005, 0.0004999999583333375104}, {0.00099, 0.0009899996765671267932}, {0.00101, 0.001009999656566473515}, {0.01, 0.009999666679999460547}, {0.05, 0.04995837495787997497}, {0.1, 0.09966799462495582261}, {0.3, 0.2913126124515908957}, {0.5, 0.4621171572600097585}, {0.7, 0.6043677771171634681}, {0.9375, 0.7340715196043414926}, {1.0, 0.7615941559557648881}, {1.1, 0.8004990217606297379}, {1.5, 0.9051482536448664382}, {2.0, 0.9640275800758168839}, {2.5, 0.9866142981514302889}, {3.0, 0.9950547536867304513}, {4.0, 0.9993292997390670438}, {5.0, 0.9999092042625951312}, {6.5, 0.9999954793514041929}, {8.0, 0.9999997749296758898}, {12.25, 0.9999999999542053031}, {13.0, 0.9999999999897818219}, {18.5, 0.9999999999999998293}, {25.0, 1.0}, {40.0, 1.0}, {100.5, 1.0}, {300.0, 1.0}, {700.0, 1.0}};
static const int N_P_TANH = 68;
static const point P_COTH[] = {{-1e-12, -1000000000000.00002}, {-1e-09, -999999999.9999999381}, {-3e-07, -3333333.333333433484}, {-1e-05, -100000.0000033333252}, {-0.0005, -2000.000166666663847}, {-0.00099, -1010.101340100988544}, {-0.00101, -990.099346567633824}, {-0.01, -100.0033333111113207}, {-0.05, -20.01666388955009814}, {-0.1, -10.03331113225398906}, {-0.3, -3.432738430321741709}, {-0.5, -2.163953413738652849}, {-0.7, -1.654621635802629482}, {-0.9375, -1.362265083569775013}, {-1.0, -1.313035285499331304}, {-1.1, -1.249220764568312367}, {-1.5, -1.104791392982511904}, {-2.0, -1.037314720727548096}, {-2.5, -1.013567309812608462}, {-3.0, -1.004969823313689171}, {-4.0, -1.00067115040168249}, {-5.0, -1.000090803982019376}, {-6.5, -1.000004520669032163}, {-8.0, -1.000000225070374767}, {-12.25, -1.000000000045794697}, {-13.0, -1.000000000010218178}, {-18.5, -1.000000000000000171}, {-25.0, -1.0}, {-40.0, -1.0}, {-100.5, -1.0}, {-300.0, -1.0}, {-700.0, -1.0}, {1e-12, 1000000000000.00002}, {1e-09, 999999999.9999999381}, {3e-07, 3333333.333333433484}, {1e-05, 100000.0000033333252}, {0.0005, 2000.000166666663847}, {0.00099, 1010.101340100988544}, {0.00101, 990.099346567633824}, {0.01, 100.0033333111113207}, {0.05, 20.01666388955009814}, {0.1, 10.03331113225398906}, {0.3, 3.432738430321741709}, {0.5, 2.163953413738652849}, {0.7, 1.654621635802629482}, {0.9375, 1.362265083569775013}, {1.0, 1.313035285499331304}, {1.1, 1.249220764568312367}, {1.5, 1.104791392982511904}, {2.0, 1.037314720727548096}, {2.5, 1.013567309812608462}, {3.0, 1.004969823313689171}, {4.0, 1.00067115040168249}, {5.0, 1.000090803982019376}, {6.5, 1.000004520669032163}, {8.0, 1.000000225070374767}, {12.25, 1.000000000045794697}, {13.0, 1.000000000010218178}, {18.5, 1.000000000000000171}, {25.0, 1.0}, {40.0, 1.0}, {100.5, 1.0}, {300.0, 1.0}, {700.0, 1.0}};
static const int N_P_COTH = 64;
static const point P_SIGMOID[] = {{-1e-300, 0.5}, {-1e-15, 0.49999999999999975}, {-1e-12, 0.49999999999975}, {-1e-09, 0.49999999975}, {-3e-07, 0.499999925}, {-1e-05, 0.4999975000000000208}, {-0.0005, 0.4998750000026041666}, {-0.00099, 0.4997525000202145605}, {-0.00101, 0.499747500021464602}, {-0.01, 0.4975000208331250021}, {-0.05, 0.4875026035157896556}, {-0.1, 0.4750208125210600125}, {-0.3, 0.4255574831883410156}, {-0.5, 0.3775406687981454354}, {-0.7, 0.3318122278318339033}, {-0.9375, 0.2814056074291438381}, {-1.0, 0.2689414213699951207}, {-1.1, 0.2497398944048823791}, {-1.5, 0.1824255238063563404}, {-2.0, 0.1192029220221175559}, {-2.5, 0.07585818002124355119}, {-3.0, 0.04742587317756678088}, {-4.0, 0.01798620996209155803}, {-5.0, 0.006692850924284855559}, {-6.5, 0.001501182256736991534}, {-8.0, 0.0003353501304664781039}, {-12.25, 4.78509449489011861e-6}, {-13.0, 2.260324297903574461e-6}, {-18.5, 9.237449576640119429e-9}, {-25.0, 1.388794386477114561e-11}, {-40.0, 4.248354255291588977e-18}, {-100.5, 2.256340135917036313e-44}, {-300.0, 5.148200222412013781e-131}, {-700.0, 9.859676543759770857e-305}, {1e-300, 0.5}, {1e-15, 0.50000000000000025}, {1e-12, 0.50000000000025}, {1e-09, 0.50000000025}, {3e-07, 0.500000075}, {1e-05, 0.5000024999999999792}, {0.0005, 0.5001249999973958334}, {0.00099, 0.5002474999797854395}, {0.00101, 0.500252499978535398}, {0.01, 0.5024999791668749979}, {0.05, 0.5124973964842103444}, {0.1, 0.5249791874789399875}, {0.3, 0.5744425168116589844}, {0.5, 0.6224593312018545646}, {0.7, 0.6681877721681660967}, {0.9375, 0.7185943925708561619}, {1.0, 0.7310585786300048793}, {1.1, 0.7502601055951176209}, {1.5, 0.8175744761936436596}, {2.0, 0.8807970779778824441}, {2.5, 0.9241418199787564488}, {3.0, 0.9525741268224332191}, {4.0, 0.982013790037908442}, {5.0, 0.9933071490757151444}, {6.5, 0.9984988177432630085}, {8.0, 0.9996646498695335219}, {12.25, 0.9999952149055051099}, {13.0, 0.9999977396757020964}, {18.5, 0.9999999907625504234}, {25.0, 0.9999999999861120561}, {40.0, 0.9999999999999999958}, {100.5, 1.0}, {300.0, 1.0}, {700.0, 1.0}};
static const int N_P_SIGMOID = 68;
static const point P_ASINH[] = {{-1e-300, -1.000000000000000025e-300}, {-1e-15, -1.000000000000000078e-15}, {-1e-12, -9.999999999999999799e-13}, {-1e-09, -1.000000000000000062e-9}, {-3e-07, -2.999999999999954864e-7}, {-1e-05, -9.999999999833334151e-6}, {-0.0005, -0.0004999999791666690208}, {-0.00099, -0.0009899998382835713188}, {-0.00101, -0.001009999828283245539}, {-0.01, -0.009999833340832887143}, {-0.05, -0.049979190069348668}, {-0.1, -0.09983407889920756885}, {-0.3, -0.2956730475634224285}, {-0.5, -0.4812118250596034475}, {-0.7, -0.6526665660823557504}, {-0.9375, -0.8364818689255533696}, {-1.0, -0.8813735870195430252}, {-1.1, -0.95034692982113431}, {-1.5, -1.194763217287109304}, {-2.0, -1.443635475178810342}, {-2.5, -1.647231146371095711}, {-3.0, -1.818446459232066823}, {-4.0, -2.094712547261101294}, {-5.0, -2.31243834127275262}, {-6.5, -2.570814678095696837}, {-8.0, -2.776472280723717674}, {-12.25, -3.200334942211264928}, {-13.0, -3.259572556262921561}, {-18.5, -3.61164757377270185}, {-25.0, -3.91242276564125565}, {-40.0, -4.382182848065498307}, {-100.5, -5.303329659002721903}, {-300.0, -6.396932432982350144}, {-700.0, -7.244228025807041153}, {1e-300, 1.000000000000000025e-300}, {1e-15, 1.000000000000000078e-15}, {1e-12, 9.999999999999999799e-13}, {1e-09, 1.000000000000000062e-9}, {3e-07, 2.999999999999954864e-7}, {1e-05, 9.999999999833334151e-6}, {0.0005, 0.0004999999791666690208}, {0.00099, 0.0009899998382835713188}, {0.00101, 0.001009999828283245539}, {0.01, 0.009999833340832887143}, {0.05, 0.049979190069348668}, {0.1, 0.09983407889920756885}, {0.3, 0.2956730475634224285}, {0.5, 0.4812118250596034475}, {0.7, 0.6526665660823557504}, {0.9375, 0.8364818689255533696}, {1.0, 0.8813735870195430252}, {1.1, 0.95034692982113431}, {1.5, 1.194763217287109304}, {2.0, 1.443635475178810342}, {2.5, 1.647231146371095711}, {3.0, 1.818446459232066823}, {4.0, 2.094712547261101294}, {5.0, 2.31243834127275262}, {6.5, 2.570814678095696837}, {8.0, 2.776472280723717674}, {12.25, 3.200334942211264928}, {13.0, 3.259572556262921561}, {18.5, 3.61164757377270185}, {25.0, 3.91242276564125565}, {40.0, 4.382182848065498307}, {100.5, 5.303329659002721903}, {300.0, 6.396932432982350144}, {700.0, 7.244228025807041153}, {100000.0, 12.20607264555517373}, {-100000.0, -12.20607264555517373}, {10000000000.0, 23.71899811050040215}, {-10000000000.0, -23.71899811050040215}};
static const int N_P_ASINH = 72;
static const point P_ACOSH[] = {{1.0, 0.0}, {1.1, 0.4435682543851153829}, {1.5, 0.962423650119206895}, {2.0, 1.316957896924816709}, {2.5, 1.566799236972411079}, {3.0, 1.76274717403908605}, {4.0, 2.063437068895560547}, {5.0, 2.292431669561177688}, {6.5, 2.558978977028612551}, {8.0, 2.768659383313573833}, {12.25, 3.197002966362061577}, {13.0, 3.256613954800052409}, {18.5, 3.610186650794497607}, {25.0, 3.911622765214588467}, {40.0, 4.381870348040066987}, {100.5, 5.303280155277465489}, {300.0, 6.396926877426794446}, {700.0, 7.244227005398877887}, {1.0001, 0.0141420177752515455}, {1.01, 0.14130376948564864}, {100000.0, 12.20607264550517373}, {100000000.0, 19.11382792451231076}, {1000000000000.0, 28.32416829648849352}};
static const int N_P_ACOSH = 23;
static const point P_ATANH[] = {{-1e-300, -1.000000000000000025e-300}, {-1e-15, -1.000000000000000078e-15}, {-1e-12, -9.999999999999999799e-13}, {-1e-09, -1.000000000000000063e-9}, {-3e-07, -3.000000000000089864e-7}, {-1e-05, -0.00001000000000033333415}, {-0.0005, -0.0005000000416666729271}, {-0.00099, -0.0009900003234331901927}, {-0.00101, -0.001010000343433876916}, {-0.01, -0.01000033335333476222}, {-0.05, -0.05004172927849127103}, {-0.1, -0.1003353477310755862}, {-0.3, -0.3095196042031117033}, {-0.5, -0.5493061443340548457}, {-0.7, -0.8673005276940531074}, {-0.9375, -1.716993602242573123}, {1e-300, 1.000000000000000025e-300}, {1e-15, 1.000000000000000078e-15}, {1e-12, 9.999999999999999799e-13}, {1e-09, 1.000000000000000063e-9}, {3e-07, 3.000000000000089864e-7}, {1e-05, 0.00001000000000033333415}, {0.0005, 0.0005000000416666729271}, {0.00099, 0.0009900003234331901927}, {0.00101, 0.001010000343433876916}, {0.01, 0.01000033335333476222}, {0.05, 0.05004172927849127103}, {0.1, 0.1003353477310755862}, {0.3, 0.3095196042031117033}, {0.5, 0.5493061443340548457}, {0.7, 0.8673005276940531074}, {0.9375, 1.716993602242573123}, {0.99, 2.646652412362245751}, {-0.99, -2.646652412362245751}, {0.9999, 4.951718775643098258}, {-0.9999, -4.951718775643098258}, {0.99999999, 9.556913957243775741}, {-0.99999999, -9.556913957243775741}};
static const int N_P_ATANH = 38;
static const point P_ASIN[] = {{-1e-300, -1.000000000000000025e-300}, {-1e-15, -1.000000000000000078e-15}, {-1e-12, -9.999999999999999799e-13}, {-1e-09, -1.000000000000000062e-9}, {-3e-07, -3.000000000000044864e-7}, {-1e-05, -0.00001000000000016666748}, {-0.0005, -0.0005000000208333356875}, {-0.00099, -0.0009900001617165713189}, {-0.00101, -0.001010000171716912206}, {-0.01, -0.01000016667416711333}, {-0.05, -0.05002085680577001744}, {-0.1, -0.1001674211615598019}, {-0.3, -0.3046926540153974963}, {-0.5, -0.5235987755982988731}, {-0.7, -0.7753974966107530016}, {-0.9375, -1.215375125104673126}, {1e-300, 1.000000000000000025e-300}, {1e-15, 1.000000000000000078e-15}, {1e-12, 9.999999999999999799e-13}, {1e-09, 1.000000000000000062e-9}, {3e-07, 3.000000000000044864e-7}, {1e-05, 0.00001000000000016666748}, {0.0005, 0.0005000000208333356875}, {0.00099, 0.0009900001617165713189}, {0.00101, 0.001010000171716912206}, {0.01, 0.01000016667416711333}, {0.05, 0.05002085680577001744}, {0.1, 0.1001674211615598019}, {0.3, 0.3046926540153974963}, {0.5, 0.5235987755982988731}, {0.7, 0.7753974966107530016}, {0.9375, 1.215375125104673126}, {0.99, 1.429256853470469338}, {-0.99, -1.429256853470469338}, {0.9999, 1.55665407331738452}, {-0.9999, -1.55665407331738452}, {0.99999999, 1.570654905438186154}, {-0.99999999, -1.570654905438186154}};
static const int N_P_ASIN = 38;
static const point P_ACOS[] = {{-1e-300, 1.570796326794896619}, {-1e-15, 1.570796326794897619}, {-1e-12, 1.570796326795896619}, {-1e-09, 1.570796327794896619}, {-3e-07, 1.570796626794896619}, {-1e-05, 1.570806326794896786}, {-0.0005, 1.571296326815729955}, {-0.00099, 1.571786326956613191}, {-0.00101, 1.571806326966613531}, {-0.01, 1.580796493469063733}, {-0.05, 1.620817183600666637}, {-0.1, 1.670963747956456421}, {-0.3, 1.875488980810294116}, {-0.5, 2.094395102393195492}, {-0.7, 2.346193823405649621}, {-0.9375, 2.786171451899569746}, {1e-300, 1.570796326794896619}, {1e-15, 1.570796326794895619}, {1e-12, 1.570796326793896619}, {1e-09, 1.570796325794896619}, {3e-07, 1.570796026794896619}, {1e-05, 1.570786326794896453}, {0.0005, 1.570296326774063284}, {0.00099, 1.569806326633180048}, {0.00101, 1.569786326623179707}, {0.01, 1.560796160120729506}, {0.05, 1.520775469989126602}, {0.1, 1.470628905633336817}, {0.3, 1.266103672779499123}, {0.5, 1.047197551196597746}, {0.7, 0.7953988301841436177}, {0.9375, 0.3554212016902234927}, {0.99, 0.1415394733244272817}, {-0.99, 3.000053180265365957}, {0.9999, 0.01414225347751209881}, {-0.9999, 3.12745040011228114}, {0.99999999, 0.0001414213567104647715}, {-0.99999999, 3.141451232233082774}};
static const int N_P_ACOS = 38;
static const point P_ATAN[] = {{-1e-300, -1.000000000000000025e-300}, {-1e-15, -1.000000000000000078e-15}, {-1e-12, -9.999999999999999799e-13}, {-1e-09, -1.000000000000000062e-9}, {-3e-07, -2.999999999999909864e-7}, {-1e-05, -9.999999999666667485e-6}, {-0.0005, -0.0004999999583333395937}, {-0.00099, -0.0009899996765671901925}, {-0.00101, -0.001009999656566543582}, {-0.01, -0.009999666686665238414}, {-0.05, -0.04995839572194276418}, {-0.1, -0.09966865249116203287}, {-0.3, -0.2914567944778670818}, {-0.5, -0.4636476090008061162}, {-0.7, -0.6107259643892085867}, {-0.9375, -0.7531512809621943895}, {-1.0, -0.7853981633974483096}, {-1.1, -0.8329812666744317456}, {-1.5, -0.982793723247329068}, {-2.0, -1.107148717794090503}, {-2.5, -1.190289949682531733}, {-3.0, -1.249045772398254426}, {-4.0, -1.325817663668032465}, {-5.0, -1.373400766945015861}, {-6.5, -1.418146998399631459}, {-8.0, -1.446441332248135184}, {-12.25, -1.489344282489025642}, {-13.0, -1.49402443552511858}, {-18.5, -1.516794826418928329}, {-25.0, -1.530817639671606578}, {-40.0, -1.54580153317597646}, {-100.5, -1.56084640640209145}, {-300.0, -1.567463005807159994}, {-700.0, -1.569367756338141299}, {1e-300, 1.000000000000000025e-300}, {1e-15, 1.000000000000000078e-15}, {1e-12, 9.999999999999999799e-13}, {1e-09, 1.000000000000000062e-9}, {3e-07, 2.999999999999909864e-7}, {1e-05, 9.999999999666667485e-6}, {0.0005, 0.0004999999583333395937}, {0.00099, 0.0009899996765671901925}, {0.00101, 0.001009999656566543582}, {0.01, 0.009999666686665238414}, {0.05, 0.04995839572194276418}, {0.1, 0.09966865249116203287}, {0.3, 0.2914567944778670818}, {0.5, 0.4636476090008061162}, {0.7, 0.6107259643892085867}, {0.9375, 0.7531512809621943895}, {1.0, 0.7853981633974483096}, {1.1, 0.8329812666744317456}, {1.5, 0.982793723247329068}, {2.0, 1.107148717794090503}, {2.5, 1.190289949682531733}, {3.0, 1.249045772398254426}, {4.0, 1.325817663668032465}, {5.0, 1.373400766945015861}, {6.5, 1.418146998399631459}, {8.0, 1.446441332248135184}, {12.25, 1.489344282489025642}, {13.0, 1.49402443552511858}, {18.5, 1.516794826418928329}, {25.0, 1.530817639671606578}, {40.0, 1.54580153317597646}, {100.5, 1.56084640640209145}, {300.0, 1.567463005807159994}, {700.0, 1.569367756338141299}, {10000.0, 1.570696326795229953}, {-100000.0, -1.570786326794896953}, {1000000.0, 1.57079532679489662}, {2000000.0, 1.570795826794896619}, {-5000000.0, -1.570796126794896619}, {8000000.0, 1.570796201794896619}, {100000000.0, 1.570796316794896619}, {-100000000.0, -1.570796316794896619}, {1e+20, 1.570796326794896619}};
static const int N_P_ATAN = 77;
static const point P_SIN[] = {{-1e-15, -1.000000000000000078e-15}, {-1e-12, -9.999999999999999799e-13}, {-1e-09, -1.000000000000000062e-9}, {-3e-07, -2.999999999999954864e-7}, {-1e-05, -9.999999999833334151e-6}, {-0.0005, -0.0004999999791666669375}, {-0.00099, -0.0009899998382835079195}, {-0.00101, -0.001009999828283175472}, {-0.01, -0.009999833334166664891}, {-0.05, -0.04997916927067833157}, {-0.1, -0.09983341664682815783}, {-0.3, -0.2955202066613395645}, {-0.5, -0.4794255386042030003}, {-0.7, -0.6442176872376910197}, {-0.9375, -0.8060811082606929952}, {-1.0, -0.8414709848078965067}, {-1.1, -0.8912073600614353802}, {-1.5, -0.9974949866040544309}, {-2.0, -0.9092974268256816954}, {-2.5, -0.5984721441039564941}, {-3.0, -0.1411200080598672221}, {-4.0, 0.7568024953079282514}, {-5.0, 0.9589242746631384689}, {-6.5, -0.2151199880878155243}, {-8.0, -0.9893582466233817778}, {-12.25, 0.3111193549811273226}, {-13.0, -0.4201670368266409219}, {-18.5, 0.3424806184696125571}, {-25.0, 0.1323517500977730289}, {-40.0, -0.745113160479348787}, {-100.5, 0.03095996678327134474}, {-300.0, 0.9997558399011495112}, {-700.0, -0.5439705233633756381}, {1e-15, 1.000000000000000078e-15}, {1e-12, 9.999999999999999799e-13}, {1e-09, 1.000000000000000062e-9}, {3e-07, 2.999999999999954864e-7}, {1e-05, 9.999999999833334151e-6}, {0.0005, 0.0004999999791666669375}, {0.00099, 0.0009899998382835079195}, {0.00101, 0.001009999828283175472}, {0.01, 0.009999833334166664891}, {0.05, 0.04997916927067833157}, {0.1, 0.09983341664682815783}, {0.3, 0.2955202066613395645}, {0.5, 0.4794255386042030003}, {0.7, 0.6442176872376910197}, {0.9375, 0.8060811082606929952}, {1.0, 0.8414709848078965067}, {1.1, 0.8912073600614353802}, {1.5, 0.9974949866040544309}, {2.0, 0.9092974268256816954}, {2.5, 0.5984721441039564941}, {3.0, 0.1411200080598672221}, {4.0, -0.7568024953079282514}, {5.0, -0.9589242746631384689}, {6.5, 0.2151199880878155243}, {8.0, 0.9893582466233817778}, {12.25, -0.3111193549811273226}, {13.0, 0.4201670368266409219}, {18.5, -0.3424806184696125571}, {25.0, -0.1323517500977730289}, {40.0, 0.745113160479348787}, {100.5, -0.03095996678327134474}, {300.0, -0.9997558399011495112}, {700.0, 0.5439705233633756381}, {1.5707963257948967, 0.9999999999999999995}, {1.5707963277948966, 0.9999999999999999995}, {1.5707953267948966, 0.9999999999995}, {1.5707973267948967, 0.9999999999995}, {1.5697963267948967, 0.9999995000000416667}, {1.5717963267948967, 0.9999995000000416666}, {1.4707963267948967, 0.9950041652780257733}, {1.6707963267948966, 0.9950041652780257633}, {-1.5707963277948966, -0.9999999999999999995}, {-1.5707963257948967, -0.9999999999999999995}, {-1.5707973267948967, -0.9999999999995}, {-1.5707953267948966, -0.9999999999995}, {-1.5717963267948967, -0.9999995000000416666}, {-1.5697963267948967, -0.9999995000000416667}, {-1.6707963267948966, -0.9950041652780257633}, {-1.4707963267948967, -0.9950041652780257733}, {4.71238897938469, -0.9999999999999999995}, {4.71238898138469, -0.9999999999999999995}, {4.7123879803846895, -0.9999999999995}, {4.71238998038469, -0.9999999999995}, {4.71138898038469, -0.999999500000041667}, {4.71338898038469, -0.9999995000000416665}, {4.61238898038469, -0.9950041652780257832}, {4.81238898038469, -0.9950041652780257312}, {3.141592652589793, 1.000000205205050914e-9}, {3.141592654589793, -9.999999602756910842e-10}, {3.1415916535897934, 9.999999998179867704e-7}, {3.1415936535897933, -1.00000000001714662e-6}, {3.1405926535897932, 0.0009999998333333539972}, {3.1425926535897934, -0.000999999833333553157}, {3.041592653589793, 0.09983341664682836253}, {3.241592653589793, -0.09983341664682811883}, {-3.141592654589793, 9.999999602756910842e-10}, {-3.141592652589793, -1.000000205205050914e-9}, {-3.1415936535897933, 1.00000000001714662e-6}, {-3.1415916535897934, -9.999999998179867704e-7}, {-3.1425926535897934, 0.000999999833333553157}, {-3.1405926535897932, -0.0009999998333333539972}, {-3.241592653589793, 0.09983341664682811883}, {-3.041592653589793, -0.09983341664682836253}, {6.283185306179586, -1.000000327669730828e-9}, {6.283185308179586, 9.999998378110111695e-10}, {6.283184307179586, -1.00000000038454066e-6}, {6.283186307179586, 9.999999998946819405e-7}, {6.282185307179587, -0.0009999998333330323728}, {6.284185307179587, 0.0009999998333334306923}, {6.183185307179587, -0.09983341664682804252}, {6.383185307179587, 0.09983341664682843885}, {-6.283185308179586, -9.999998378110111695e-10}, {-6.283185306179586, 1.000000327669730828e-9}, {-6.283186307179586, -9.999999998946819405e-7}, {-6.283184307179586, 1.00000000038454066e-6}, {-6.284185307179587, -0.0009999998333334306923}, {-6.282185307179587, 0.0009999998333330323728}, {-6.383185307179587, -0.09983341664682843885}, {-6.183185307179587, 0.09983341664682804252}, {15.707963266948965, 1.000000695063770573e-9}, {15.707963268948966, -9.999994704169714252e-10}, {15.707962267948966, 9.999999998637562802e-7}, {15.707964267948967, -1.00000000041546632e-6}, {15.706963267948966, 0.0009999998333333997667}, {15.708963267948967, -0.0009999998333339514765}, {15.607963267948966, 0.09983341664682840807}, {15.807963267948967, -0.09983341664682895703}, {1000.25, 0.9403086681560691862}, {-1000.25, -0.9403086681560691862}, {20000.125, 0.6788293778293725619}, {-20000.125, -0.6788293778293725619}};
static const int N_P_SIN = 134;
static const point P_COS[] = {{-1e-15, 1.0}, {-1e-12, 1.0}, {-1e-09, 0.9999999999999999995}, {-3e-07, 0.999999999999955}, {-1e-05, 0.99999999995}, {-0.0005, 0.9999998750000026042}, {-0.00099, 0.9999995099500400248}, {-0.00101, 0.9999994899500433585}, {-0.01, 0.9999500004166652778}, {-0.05, 0.9987502603949662464}, {-0.1, 0.9950041652780257655}, {-0.3, 0.9553364891256060229}, {-0.5, 0.8775825618903727161}, {-0.7, 0.7648421872844884549}, {-0.9375, 0.5918050750924775055}, {-1.0, 0.5403023058681397174}, {-1.1, 0.4535961214255773086}, {-1.5, 0.07073720166770291009}, {-2.0, -0.416146836547142387}, {-2.5, -0.8011436155469337148}, {-3.0, -0.9899924966004454573}, {-4.0, -0.6536436208636119146}, {-5.0, 0.2836621854632262645}, {-6.5, 0.9765876257280234999}, {-8.0, -0.1455000338086135259}, {-12.25, 0.9503708470676735176}, {-13.0, 0.9074467814501962139}, {-18.5, 0.9395248937482559745}, {-25.0, 0.9912028118634735981}, {-40.0, -0.6669380616522618444}, {-100.5, 0.9995206253283514584}, {-300.0, -0.02209661927868394269}, {-700.0, -0.8391043258807424353}, {1e-15, 1.0}, {1e-12, 1.0}, {1e-09, 0.9999999999999999995}, {3e-07, 0.999999999999955}, {1e-05, 0.99999999995}, {0.0005, 0.9999998750000026042}, {0.00099, 0.9999995099500400248}, {0.00101, 0.9999994899500433585}, {0.01, 0.9999500004166652778}, {0.05, 0.9987502603949662464}, {0.1, 0.9950041652780257655}, {0.3, 0.9553364891256060229}, {0.5, 0.8775825618903727161}, {0.7, 0.7648421872844884549}, {0.9375, 0.5918050750924775055}, {1.0, 0.5403023058681397174}, {1.1, 0.4535961214255773086}, {1.5, 0.07073720166770291009}, {2.0, -0.416146836547142387}, {2.5, -0.8011436155469337148}, {3.0, -0.9899924966004454573}, {4.0, -0.6536436208636119146}, {5.0, 0.2836621854632262645}, {6.5, 0.9765876257280234999}, {8.0, -0.1455000338086135259}, {12.25, 0.9503708470676735176}, {13.0, 0.9074467814501962139}, {18.5, 0.9395248937482559745}, {25.0, 0.9912028118634735981}, {40.0, -0.6669380616522618444}, {100.5, 0.9995206253283514584}, {300.0, -0.02209661927868394269}, {700.0, -0.8391043258807424353}, {1.5707963257948967, 9.999999219281060313e-10}, {1.5707963277948966, -1.000000021508031042e-9}, {1.5707953267948966, 9.999999999787990353e-7}, {1.5707973267948967, -1.00000000007837896e-6}, {1.5697963267948967, 0.0009999998333332927649}, {1.5717963267948967, -0.0009999998333333923448}, {1.4707963267948967, 0.09983341664682808067}, {1.6707963267948966, -0.09983341664682817975}, {-1.5707963277948966, -1.000000021508031042e-9}, {-1.5707963257948967, 9.999999219281060313e-10}, {-1.5707973267948967, -1.00000000007837896e-6}, {-1.5707953267948966, 9.999999999787990353e-7}, {-1.5717963267948967, -0.0009999998333333923448}, {-1.5697963267948967, 0.0009999998333332927649}, {-1.6707963267948966, -0.09983341664682817975}, {-1.4707963267948967, 0.09983341664682808067}, {4.71238897938469, -1.000000266437390871e-9}, {4.71238898138469, 9.999998990433511268e-10}, {4.7123879803846895, -1.00000000032330832e-6}, {4.71238998038469, 9.999999999559142804e-7}, {4.71138898038469, -0.0009999998333329711405}, {4.71338898038469, 0.0009999998333334919247}, {4.61238898038469, -0.09983341664682798159}, {4.81238898038469, 0.09983341664682849977}, {3.141592652589793, -0.9999999999999999995}, {3.141592654589793, -0.9999999999999999995}, {3.1415916535897934, -0.9999999999995}, {3.1415936535897933, -0.9999999999995}, {3.1405926535897932, -0.9999995000000416667}, {3.1425926535897934, -0.9999995000000416665}, {3.041592653589793, -0.995004165278025745}, {3.241592653589793, -0.9950041652780257695}, {-3.141592654589793, -0.9999999999999999995}, {-3.141592652589793, -0.9999999999999999995}, {-3.1415936535897933, -0.9999999999995}, {-3.1415916535897934, -0.9999999999995}, {-3.1425926535897934, -0.9999995000000416665}, {-3.1405926535897932, -0.9999995000000416667}, {-3.241592653589793, -0.9950041652780257695}, {-3.041592653589793, -0.995004165278025745}, {6.283185306179586, 0.9999999999999999995}, {6.283185308179586, 0.9999999999999999995}, {6.283184307179586, 0.9999999999995}, {6.283186307179586, 0.9999999999995}, {6.282185307179587, 0.999999500000041667}, {6.284185307179587, 0.9999995000000416666}, {6.183185307179587, 0.9950041652780257771}, {6.383185307179587, 0.9950041652780257373}, {-6.283185308179586, 0.9999999999999999995}, {-6.283185306179586, 0.9999999999999999995}, {-6.283186307179586, 0.9999999999995}, {-6.283184307179586, 0.9999999999995}, {-6.284185307179587, 0.9999995000000416666}, {-6.282185307179587, 0.999999500000041667}, {-6.383185307179587, 0.9950041652780257373}, {-6.183185307179587, 0.9950041652780257771}, {15.707963266948965, -0.9999999999999999995}, {15.707963268948966, -0.9999999999999999995}, {15.707962267948966, -0.9999999999995}, {15.707964267948967, -0.9999999999995}, {15.706963267948966, -0.9999995000000416666}, {15.708963267948967, -0.9999995000000416661}, {15.607963267948966, -0.9950041652780257404}, {15.807963267948967, -0.9950041652780256854}, {1000.25, 0.3403228005740422895}, {-1000.25, 0.3403228005740422895}, {20000.125, 0.7342960409778789971}, {-20000.125, 0.7342960409778789971}};
static const int N_P_COS = 134;
static const point P_TAN[] = {{-1e-15, -1.000000000000000078e-15}, {-1e-12, -9.999999999999999799e-13}, {-1e-09, -1.000000000000000063e-9}, {-3e-07, -3.000000000000089864e-7}, {-1e-05, -0.00001000000000033333415}, {-0.0005, -0.0005000000416666708437}, {-0.00099, -0.0009900003234331267933}, {-0.00101, -0.001010000343433806848}, {-0.01, -0.01000033334666720658}, {-0.05, -0.05004170837553879169}, {-0.1, -0.1003346720854505507}, {-0.3, -0.3093362496096232209}, {-0.5, -0.5463024898437905133}, {-0.7, -0.8422883804630793722}, {-0.9375, -1.362071976376228231}, {-1.0, -1.557407724654902231}, {-1.1, -1.964759657248652383}, {-1.5, -14.10141994717171939}, {-2.0, 2.185039863261518992}, {-2.5, 0.7470222972386602794}, {-3.0, 0.1425465430742778053}, {-4.0, -1.157821282349577583}, {-5.0, 3.380515006246585637}, {-6.5, -0.2202772003458968118}, {-8.0, 6.7997114552203787}, {-12.25, 0.327366265433195991}, {-13.0, -0.4630211329364895955}, {-18.5, 0.3645253263096396785}, {-25.0, 0.13352640702153588}, {-40.0, 1.117214930923895968}, {-100.5, 0.03097481532519723538}, {-300.0, -45.24474207081935951}, {-700.0, 0.6482751984294827239}, {1e-15, 1.000000000000000078e-15}, {1e-12, 9.999999999999999799e-13}, {1e-09, 1.000000000000000063e-9}, {3e-07, 3.000000000000089864e-7}, {1e-05, 0.00001000000000033333415}, {0.0005, 0.0005000000416666708437}, {0.00099, 0.0009900003234331267933}, {0.00101, 0.001010000343433806848}, {0.01, 0.01000033334666720658}, {0.05, 0.05004170837553879169}, {0.1, 0.1003346720854505507}, {0.3, 0.3093362496096232209}, {0.5, 0.5463024898437905133}, {0.7, 0.8422883804630793722}, {0.9375, 1.362071976376228231}, {1.0, 1.557407724654902231}, {1.1, 1.964759657248652383}, {1.5, 14.10141994717171939}, {2.0, -2.185039863261518992}, {2.5, -0.7470222972386602794}, {3.0, -0.1425465430742778053}, {4.0, 1.157821282349577583}, {5.0, -3.380515006246585637}, {6.5, 0.2202772003458968118}, {8.0, -6.7997114552203787}, {12.25, -0.327366265433195991}, {13.0, 0.4630211329364895955}, {18.5, -0.3645253263096396785}, {25.0, -0.13352640702153588}, {40.0, -1.117214930923895968}, {100.5, -0.03097481532519723538}, {300.0, 45.24474207081935951}, {700.0, -0.6482751984294827239}, {1.5707963257948967, 1000000078.071900063}, {1.5707963277948966, -999999978.4919694205}, {1.5707953267948966, 1000000.000020700965}, {1.5707973267948967, -999999.9999211210397}, {1.5697963267948967, 999.9996666666933462}, {1.5717963267948967, -999.9996666665937663}, {1.4707963267948967, 9.966644423259245083}, {1.6707963267948966, -9.966644423259235092}, {-1.5707963277948966, 999999978.4919694205}, {-1.5707963257948967, -1000000078.071900063}, {-1.5707973267948967, 999999.9999211210397}, {-1.5707953267948966, -1000000.000020700965}, {-1.5717963267948967, 999.9996666665937663}, {-1.5697963267948967, -999.9996666666933462}, {-1.6707963267948966, 9.966644423259235092}, {-1.4707963267948967, -9.966644423259245083}, {4.71238897938469, 999999733.5626801173}, {4.71238898138469, -1000000100.956659065}, {4.7123879803846895, 999999.9996761916799}, {4.71238998038469, -1000000.00004358572}, {4.71138898038469, 999.9996666670149709}, {4.71338898038469, -999.9996666664941863}, {4.61238898038469, 9.966644423259255075}, {4.81238898038469, -9.966644423259202822}, {3.141592652589793, -1.000000205205050914e-9}, {3.141592654589793, 9.999999602756910847e-10}, {3.1415916535897934, -9.999999998184867704e-7}, {3.1415936535897933, 1.00000000001764662e-6}, {3.1405926535897932, -0.001000000333333478997}, {3.1425926535897934, 0.001000000333333678157}, {3.041592653589793, -0.1003346720854507585}, {3.241592653589793, 0.1003346720854505111}, {-3.141592654589793, -9.999999602756910847e-10}, {-3.141592652589793, 1.000000205205050914e-9}, {-3.1415936535897933, -1.00000000001764662e-6}, {-3.1415916535897934, 9.999999998184867704e-7}, {-3.1425926535897934, -0.001000000333333678157}, {-3.1405926535897932, 0.001000000333333478997}, {-3.241592653589793, -0.1003346720854505111}, {-3.041592653589793, 0.1003346720854507585}, {6.283185306179586, -1.000000327669730829e-9}, {6.283185308179586, 9.9999983781101117e-10}, {6.283184307179586, -1.00000000038504066e-6}, {6.283186307179586, 9.999999998951819405e-7}, {6.282185307179587, -0.001000000333333157372}, {6.284185307179587, 0.001000000333333555693}, {6.183185307179587, -0.1003346720854504336}, {6.383185307179587, 0.1003346720854508359}, {-6.283185308179586, -9.9999983781101117e-10}, {-6.283185306179586, 1.000000327669730829e-9}, {-6.283186307179586, -9.999999998951819405e-7}, {-6.283184307179586, 1.00000000038504066e-6}, {-6.284185307179587, -0.001000000333333555693}, {-6.282185307179587, 0.001000000333333157372}, {-6.383185307179587, -0.1003346720854508359}, {-6.183185307179587, 0.1003346720854504336}, {15.707963266948965, -1.000000695063770573e-9}, {15.707963268948966, 9.999994704169714257e-10}, {15.707962267948966, -9.999999998642562802e-7}, {15.707964267948967, 1.00000000041596632e-6}, {15.706963267948966, -0.001000000333333524767}, {15.708963267948967, 0.001000000333334076477}, {15.607963267948966, -0.1003346720854508047}, {15.807963267948967, 0.100334672085451362}, {1000.25, 2.76299050951037012}, {-1000.25, -2.76299050951037012}, {20000.125, 0.9244628051178919625}, {-20000.125, -0.9244628051178919625}};
static const int N_P_TAN = 134;
static const point P_COT[] = {{-1e-12, -1000000000000.00002}, {-1e-09, -999999999.9999999374}, {-3e-07, -3333333.333333233484}, {-1e-05, -99999.99999666665849}, {-0.0005, -1999.999833333330514}, {-0.00099, -1010.100680100988544}, {-0.00101, -990.0986732343004906}, {-0.01, -99.99666664444423072}, {-0.05, -19.9833305548940134}, {-0.1, -9.966644423259237303}, {-0.3, -3.232728143765827641}, {-0.5, -1.830487721712451919}, {-0.7, -1.187241832126679461}, {-0.9375, -0.7341755922917412813}, {-1.0, -0.642092615934330703}, {-1.1, -0.5089681052390642954}, {-1.5, -0.07091484430265244879}, {-2.0, 0.4576575543602857638}, {-2.5, 1.33864812830415136}, {-3.0, 7.015252551434533469}, {-4.0, -0.8636911544506166139}, {-5.0, 0.2958129155327455404}, {-6.5, -4.539734472881080381}, {-8.0, 0.1470650639494804846}, {-12.25, 3.054682493557250898}, {-13.0, -2.159728636267591785}, {-18.5, 2.743293614530825348}, {-25.0, 7.489155308722674235}, {-40.0, 0.8950829176379127884}, {-100.5, 32.28429256159358216}, {-300.0, -0.02210201570902425311}, {-700.0, 1.542554770601449688}, {1e-12, 1000000000000.00002}, {1e-09, 999999999.9999999374}, {3e-07, 3333333.333333233484}, {1e-05, 99999.99999666665849}, {0.0005, 1999.999833333330514}, {0.00099, 1010.100680100988544}, {0.00101, 990.0986732343004906}, {0.01, 99.99666664444423072}, {0.05, 19.9833305548940134}, {0.1, 9.966644423259237303}, {0.3, 3.232728143765827641}, {0.5, 1.830487721712451919}, {0.7, 1.187241832126679461}, {0.9375, 0.7341755922917412813}, {1.0, 0.642092615934330703}, {1.1, 0.5089681052390642954}, {1.5, 0.07091484430265244879}, {2.0, -0.4576575543602857638}, {2.5, -1.33864812830415136}, {3.0, -7.015252551434533469}, {4.0, 0.8636911544506166139}, {5.0, -0.2958129155327455404}, {6.5, 4.539734472881080381}, {8.0, -0.1470650639494804846}, {12.25, -3.054682493557250898}, {13.0, 2.159728636267591785}, {18.5, -2.743293614530825348}, {25.0, -7.489155308722674235}, {40.0, -0.8950829176379127884}, {100.5, -32.28429256159358216}, {300.0, 0.02210201570902425311}, {700.0, -1.542554770601449688}, {1.5707963257948967, 9.999999219281060318e-10}, {1.5707963277948966, -1.000000021508031042e-9}, {1.5707953267948966, 9.999999999792990353e-7}, {1.5707973267948967, -1.00000000007887896e-6}, {1.5697963267948967, 0.001000000333333417765}, {1.5717963267948967, -0.001000000333333517345}, {1.4707963267948967, 0.1003346720854504723}, {1.6707963267948966, -0.1003346720854505729}, {-1.5707963277948966, 1.000000021508031042e-9}, {-1.5707963257948967, -9.999999219281060318e-10}, {-1.5707973267948967, 1.00000000007887896e-6}, {-1.5707953267948966, -9.999999999792990353e-7}, {-1.5717963267948967, 0.001000000333333517345}, {-1.5697963267948967, -0.001000000333333417765}, {-1.6707963267948966, 0.1003346720854505729}, {-1.4707963267948967, -0.1003346720854504723}, {4.71238897938469, 1.000000266437390872e-9}, {4.71238898138469, -9.999998990433511273e-10}, {4.7123879803846895, 1.00000000032380832e-6}, {4.71238998038469, -9.999999999564142804e-7}, {4.71138898038469, 0.00100000033333309614}, {4.71338898038469, -0.001000000333333616925}, {4.61238898038469, 0.1003346720854503718}, {4.81238898038469, -0.1003346720854508978}, {3.141592652589793, -999999794.7949911949}, {3.141592654589793, 1000000039.724310493}, {3.1415916535897934, -1000000.00018151323}, {3.1415936535897933, 999999.9999823533796}, {3.1405926535897932, -999.9996666666321139}, {3.1425926535897934, 999.999666666432954}, {3.041592653589793, -9.966644423259216661}, {3.241592653589793, 9.966644423259241236}, {-3.141592654589793, -1000000039.724310493}, {-3.141592652589793, 999999794.7949911949}, {-3.1415936535897933, -999999.9999823533796}, {-3.1415916535897934, 1000000.00018151323}, {-3.1425926535897934, -999.999666666432954}, {-3.1405926535897932, 999.9996666666321139}, {-3.241592653589793, -9.966644423259241236}, {-3.041592653589793, 9.966644423259216661}, {6.283185306179586, -999999672.3303765385}, {6.283185308179586, 1000000162.189015135}, {6.283184307179586, -999999.99961495934}, {6.283186307179586, 1000000.00010481806}, {6.282185307179587, -999.9996666669537385}, {6.284185307179587, 999.9996666665554187}, {6.183185307179587, -9.966644423259248931}, {6.383185307179587, 9.966644423259208966}, {-6.283185308179586, -1000000162.189015135}, {-6.283185306179586, 999999672.3303765385}, {-6.283186307179586, -1000000.00010481806}, {-6.283184307179586, 999999.99961495934}, {-6.284185307179587, -999.9996666665554187}, {-6.282185307179587, 999.9996666669537385}, {-6.383185307179587, -9.966644423259208966}, {-6.183185307179587, 9.966644423259248931}, {15.707963266948965, -999999304.9367125402}, {15.707963268948966, 1000000529.583309033}, {15.707962267948966, -1000000.00013574372}, {15.707964267948967, 999999.9995840336797}, {15.706963267948966, -999.9996666665863444}, {15.708963267948967, 999.9996666660346341}, {15.607963267948966, -9.966644423259212069}, {15.807963267948967, 9.966644423259156713}, {1000.25, 0.361926686522426789}, {-1000.25, -0.361926686522426789}, {20000.125, 1.081709285072291437}, {-20000.125, -1.081709285072291437}};
static const int N_P_COT = 132;
static const point P_SINC[] = {{-1e-300, 1.0}, {-1e-15, 1.0}, {-1e-12, 1.0}, {-1e-09, 0.9999999999999999984}, {-3e-07, 0.9999999999998519559}, {-1e-05, 0.9999999998355065933}, {-0.0005, 0.9999995887665340218}, {-0.00099, 0.9999983878009008384}, {-0.00101, 0.9999983220036031103}, {-0.01, 0.999835514710548681}, {-0.05, 0.9958927352435613737}, {-0.1, 0.9836316430834659655}, {-0.3, 0.858393691334139785}, {-0.5, 0.6366197723675813431}, {-0.7, 0.3678830105717742499}, {-0.9375, 0.06623912340961371775}, {-1.1, -0.08942105846213333933}, {-1.5, -0.212206590789193781}, {-2.5, 0.1273239544735162686}, {-6.5, 0.04897075172058318024}, {-12.25, 0.01837380237055318509}, {-18.5, 0.01720593979371841468}, {1e-300, 1.0}, {1e-15, 1.0}, {1e-12, 1.0}, {1e-09, 0.9999999999999999984}, {3e-07, 0.9999999999998519559}, {1e-05, 0.9999999998355065933}, {0.0005, 0.9999995887665340218}, {0.00099, 0.9999983878009008384}, {0.00101, 0.9999983220036031103}, {0.01, 0.999835514710548681}, {0.05, 0.9958927352435613737}, {0.1, 0.9836316430834659655}, {0.3, 0.858393691334139785}, {0.5, 0.6366197723675813431}, {0.7, 0.3678830105717742499}, {0.9375, 0.06623912340961371775}, {1.1, -0.08942105846213333933}, {1.5, -0.212206590789193781}, {2.5, 0.1273239544735162686}, {6.5, 0.04897075172058318024}, {12.25, 0.01837380237055318509}, {18.5, 0.01720593979371841468}, {1e-06, 0.9999999999983550659}, {5e-06, 0.9999999999588766483}, {-2e-06, 0.9999999999934202637}, {100.5, 0.003167262549092444493}, {-777.25, -0.0002895838906906098648}, {1000.5, 0.0003181508107784014708}, {1234.75, 0.0001822871666647309313}, {-4321.25, -0.00005208656732178802832}, {20000.5, 0.00001591509643177873911}, {100000.5, 3.1830829464231746e-6}, {-1000000.25, 2.25079022769520825e-7}};
static const int N_P_SINC = 55;
static const point P_LN[] = {{1e-15, -34.53877639491068518}, {1e-12, -27.63102111592854823}, {1e-09, -20.72326583694641109}, {3e-07, -15.01948336229021014}, {1e-05, -11.51292546497022834}, {0.0005, -7.600902459542082341}, {0.00099, -6.917805614835638499}, {0.00101, -6.897804948128968923}, {0.01, -4.605170185988091347}, {0.05, -2.995732273553990938}, {0.1, -2.302585092994045629}, {0.3, -1.20397280432593603}, {0.5, -0.6931471805599453094}, {0.7, -0.3566749439387324424}, {0.9375, -0.06453852113757117167}, {1.0, 0.0}, {1.1, 0.09531017980432494079}, {1.5, 0.405465108108164382}, {2.0, 0.6931471805599453094}, {2.5, 0.9162907318741550652}, {3.0, 1.098612288668109691}, {4.0, 1.386294361119890619}, {5.0, 1.609437912434100375}, {6.5, 1.871802176901591427}, {8.0, 2.079441541679835928}, {12.25, 2.505525936990735991}, {13.0, 2.564949357461536736}, {18.5, 2.917770732084279135}, {25.0, 3.218875824868200749}, {40.0, 3.688879454113936303}, {100.5, 4.610157727499130442}, {300.0, 5.703782474656201059}, {700.0, 6.551080335043404673}, {10000000000.0, 23.02585092994045684}, {1e-30, -69.07755278982137044}, {1e+30, 69.07755278982137054}, {1e+100, 230.2585092994045684}, {1e-100, -230.2585092994045684}, {1e+300, 690.7755278982137053}, {65536.0, 11.09035488895912495}, {0.25, -1.386294361119890619}, {1023.999, 6.93147082903647628}, {1048577.0, 13.86294456487276785}};
static const int N_P_LN = 43;
static const point P_LOG2[] = {{1e-15, -49.82892142331043511}, {1e-12, -39.8631371386483482}, {1e-09, -29.89735285398626104}, {3e-07, -21.66853416349038032}, {1e-05, -16.60964047443681162}, {0.0005, -10.96578428466208701}, {0.00099, -9.980283854357202128}, {0.00101, -9.951428991685016935}, {0.01, -6.643856189774724666}, {0.05, -4.321928094887362268}, {0.1, -3.321928094887362268}, {0.3, -1.73696559416620622}, {0.5, -1.0}, {0.7, -0.514573172829758332}, {0.9375, -0.09310940439148147068}, {1.0, 0.0}, {1.1, 0.1375035237499350248}, {1.5, 0.5849625007211561815}, {2.0, 1.0}, {2.5, 1.321928094887362348}, {3.0, 1.584962500721156181}, {4.0, 2.0}, {5.0, 2.321928094887362348}, {6.5, 2.70043971814109216}, {8.0, 3.0}, {12.25, 3.614709844115208215}, {13.0, 3.70043971814109216}, {18.5, 4.209453365628949782}, {25.0, 4.643856189774724696}, {40.0, 5.321928094887362348}, {100.5, 6.651051691178928614}, {300.0, 8.228818690495880877}, {700.0, 9.451211111832328803}, {10000000000.0, 33.21928094887362348}, {1e-30, -99.65784284662087032}, {1e+30, 99.65784284662087046}, {1e+100, 332.1928094887362348}, {1e-100, -332.1928094887362348}, {1e+300, 996.5784284662087044}, {65536.0, 16.0}, {0.25, -2.0}, {1023.999, 9.999998591117436234}, {1048577.0, 20.00000137586055084}};
static const int N_P_LOG2 = 43;
static const point P_LOG10[] = {{1e-15, -14.99999999999999997}, {1e-12, -12.00000000000000001}, {1e-09, -8.999999999999999973}, {3e-07, -6.522878745280337582}, {1e-05, -4.999999999999999964}, {0.0005, -3.301029995663981186}, {0.00099, -3.004364805402450087}, {0.00101, -2.995678626217357405}, {0.01, -1.999999999999999991}, {0.05, -1.301029995663981171}, {0.1, -0.9999999999999999759}, {0.3, -0.5228787452803375788}, {0.5, -0.3010299956639811952}, {0.7, -0.1549019599857431968}, {0.9375, -0.02802872360024353877}, {1.0, 0.0}, {1.1, 0.04139268515822507582}, {1.5, 0.1760912590556812421}, {2.0, 0.3010299956639811952}, {2.5, 0.3979400086720376096}, {3.0, 0.4771212547196624373}, {4.0, 0.6020599913279623904}, {5.0, 0.6989700043360188048}, {6.5, 0.812913356642855574}, {8.0, 0.9030899869919435856}, {12.25, 1.088136088700551271}, {13.0, 1.113943352306836769}, {18.5, 1.267171728403013802}, {25.0, 1.39794000867203761}, {40.0, 1.60205999132796239}, {100.5, 2.002166061756507676}, {300.0, 2.477121254719662437}, {700.0, 2.845098040014256831}, {10000000000.0, 10.0}, {1e-30, -29.99999999999999996}, {1e+30, 30.00000000000000001}, {1e+100, 100.0}, {1e-100, -99.99999999999999999}, {1e+300, 300.0}, {65536.0, 4.816479930623699123}, {0.25, -0.6020599913279623904}, {1023.999, 3.010299532523899891}, {1048577.0, 6.020600327454919558}};
static const int N_P_LOG10 = 43;
static const point P_SQRT[] = {{1e-15, 3.162277660168379455e-8}, {1e-12, 9.999999999999999899e-7}, {1e-09, 0.0000316227766016837943}, {3e-07, 0.0005477225575051661011}, {1e-05, 0.003162277660168379461}, {0.0005, 0.0223606797749978972}, {0.00099, 0.03146426544510454632}, {0.00101, 0.03178049716414140754}, {0.01, 0.100000000000000001}, {0.05, 0.2236067977499789758}, {0.1, 0.316227766016837942}, {0.3, 0.5477225575051661033}, {0.5, 0.7071067811865475244}, {0.7, 0.8366600265340755214}, {0.9375, 0.9682458365518542213}, {1.0, 1.0}, {1.1, 1.048808848170151589}, {1.5, 1.224744871391589049}, {2.0, 1.414213562373095049}, {2.5, 1.581138830084189666}, {3.0, 1.732050807568877294}, {4.0, 2.0}, {5.0, 2.236067977499789696}, {6.5, 2.549509756796392415}, {8.0, 2.828427124746190098}, {12.25, 3.5}, {13.0, 3.605551275463989293}, {18.5, 4.301162633521313386}, {25.0, 5.0}, {40.0, 6.324555320336758664}, {100.5, 10.02496882788171068}, {300.0, 17.32050807568877294}, {700.0, 26.45751311064590591}, {10000000000.0, 100000.0}, {1e-30, 1.000000000000000042e-15}, {1e+30, 1000000000000000.01}, {1e+100, 1.000000000000000008e+50}, {1e-100, 1.00000000000000001e-50}, {1e+300, 1.000000000000000026e+150}, {65536.0, 256.0}, {0.25, 0.5}, {1023.999, 31.99998437499618567}, {1048577.0, 1024.000488281133585}};
static const int N_P_SQRT = 43;
static const point P_CBRT[] = {{1e-15, 0.00001000000000000000026}, {1e-12, 0.00009999999999999999933}, {1e-09, 0.001000000000000000021}, {3e-07, 0.006694329500821695118}, {1e-05, 0.02154434690031883781}, {0.0005, 0.07937005259840997429}, {0.00099, 0.0996655493412596362}, {0.00101, 0.1003322283542089215}, {0.01, 0.2154434690031883737}, {0.05, 0.3684031498640386674}, {0.1, 0.4641588833612778978}, {0.3, 0.6694329500821695136}, {0.5, 0.7937005259840997374}, {0.7, 0.8879040017426006897}, {0.9375, 0.9787169102922158989}, {1.0, 1.0}, {1.1, 1.032280115456367187}, {1.5, 1.144714242553331868}, {2.0, 1.259921049894873165}, {2.5, 1.357208808297453286}, {3.0, 1.442249570307408382}, {4.0, 1.587401051968199475}, {5.0, 1.709975946676696989}, {6.5, 1.866255578408624121}, {8.0, 2.0}, {12.25, 2.305218146029223285}, {13.0, 2.35133468772075749}, {18.5, 2.644786236347103866}, {25.0, 2.924017738212866066}, {40.0, 3.419951893353393979}, {100.5, 4.649311957395600199}, {300.0, 6.694329500821695219}, {700.0, 8.879040017426007084}, {10000000000.0, 2154.434690031883722}, {1e-30, 1.000000000000000028e-10}, {1e+30, 10000000000.00000007}, {1e+100, 2.154434690031883733e+33}, {1e-100, 4.641588833612778923e-34}, {1e+300, 1.000000000000000018e+100}, {65536.0, 40.31747359663594127}, {0.25, 0.6299605249474365824}, {1023.999, 10.07936511811351658}, {1048577.0, 101.5936996217115793}, {-1e-15, -0.00001000000000000000026}, {-1e-12, -0.00009999999999999999933}, {-1e-09, -0.001000000000000000021}, {-3e-07, -0.006694329500821695118}, {-1e-05, -0.02154434690031883781}, {-0.0005, -0.07937005259840997429}, {-0.00099, -0.0996655493412596362}, {-0.00101, -0.1003322283542089215}, {-0.01, -0.2154434690031883737}, {-0.05, -0.3684031498640386674}, {-0.1, -0.4641588833612778978}, {-0.3, -0.6694329500821695136}, {-0.5, -0.7937005259840997374}, {-0.7, -0.8879040017426006897}, {-0.9375, -0.9787169102922158989}, {-1.0, -1.0}, {-1.1, -1.032280115456367187}, {-1.5, -1.144714242553331868}, {-2.0, -1.259921049894873165}, {-2.5, -1.357208808297453286}, {-3.0, -1.442249570307408382}, {-4.0, -1.587401051968199475}, {-5.0, -1.709975946676696989}, {-6.5, -1.866255578408624121}, {-8.0, -2.0}, {-12.25, -2.305218146029223285}, {-13.0, -2.35133468772075749}, {-18.5, -2.644786236347103866}, {-25.0, -2.924017738212866066}, {-40.0, -3.419951893353393979}, {-100.5, -4.649311957395600199}, {-300.0, -6.694329500821695219}, {-700.0, -8.879040017426007084}, {-10000000000.0, -2154.434690031883722}, {-1e-30, -1.000000000000000028e-10}, {-1e+30, -10000000000.00000007}, {-1e+100, -2.154434690031883733e+33}, {-1e-100, -4.641588833612778923e-34}, {-1e+300, -1.000000000000000018e+100}, {-65536.0, -40.31747359663594127}, {-0.25, -0.6299605249474365824}, {-1023.999, -10.07936511811351658}, {-1048577.0, -101.5936996217115793}};
static const int N_P_CBRT = 86;
struct point3 { double x, a, y; };
static const point3 P_POWF[] = {{0.01, -10.5, 9.999999999999997814e+20}, {0.01, -1, 99.99999999999999792}, {0.01, -0.5, 9.999999999999999896}, {0.01, -0.001, 1.004615790278395142}, {0.01, 0, 1.0}, {0.01, 0.001, 0.9954054173515269624}, {0.01, 0.3, 0.2511886431509580255}, {0.01, 0.5, 0.100000000000000001}, {0.01, 1, 0.01000000000000000021}, {0.01, 2.5, 0.00001000000000000000052}, {0.01, 30, 1.000000000000000625e-60}, {0.5, -10.5, 1448.15468787004933}, {0.5, -1, 2.0}, {0.5, -0.5, 1.414213562373095049}, {0.5, -0.001, 1.000693387462580633}, {0.5, 0, 1.0}, {0.5, 0.001, 0.9993070929904525219}, {0.5, 0.3, 0.8122523963562355289}, {0.5, 0.5, 0.7071067811865475244}, {0.5, 1, 0.5}, {0.5, 2.5, 0.1767766952966368811}, {0.5, 30, 9.313225746154785156e-10}, {0.9, -10.5, 3.023107918823855907}, {0.9, -1, 1.111111111111111084}, {0.9, -0.5, 1.054092553389459764}, {0.9, -0.001, 1.000105366066271893}, {0.9, 0, 1.0}, {0.9, 0.001, 0.999894645034566377}, {0.9, 0.3, 0.9688861611972633742}, {0.9, 0.5, 0.9486832980505138113}, {0.9, 1, 0.9000000000000000222}, {0.9, 2.5, 0.7684334714209162251}, {0.9, 30, 0.04239115827521623489}, {1, -10.5, 1.0}, {1, -1, 1.0}, {1, -0.5, 1.0}, {1, -0.001, 1.0}, {1, 0, 1.0}, {1, 0.001, 1.0}, {1, 0.3, 1.0}, {1, 0.5, 1.0}, {1, 1, 1.0}, {1, 2.5, 1.0}, {1, 30, 1.0}, {1.5, -10.5, 0.0141592998843332056}, {1.5, -1, 0.6666666666666666667}, {1.5, -0.5, 0.8164965809277260327}, {1.5, -0.001, 0.9995946170817600323}, {1.5, 0, 1.0}, {1.5, 0.001, 1.000405547320196113}, {1.5, 0.3, 1.129346935456855446}, {1.5, 0.5, 1.224744871391589049}, {1.5, 1, 1.5}, {1.5, 2.5, 2.75567596063107536}, {1.5, 30, 191751.0592328840867}, {7, -10.5, 1.338044569735832775e-9}, {7, -1, 0.1428571428571428571}, {7, -0.5, 0.3779644730092272272}, {7, -0.001, 0.9980559819066430044}, {7, 0, 1.0}, {7, 0.001, 1.001947804660860033}, {7, 0.3, 1.79278996252099719}, {7, 0.5, 2.645751311064590591}, {7, 1, 7.0}, {7, 2.5, 129.6418142421649389}, {7, 30, 2.253934029069225809e+25}, {100, -10.5, 1.0e-21}, {100, -1, 0.01}, {100, -0.5, 0.1}, {100, -0.001, 0.9954054173515269624}, {100, 0, 1.0}, {100, 0.001, 1.004615790278395143}, {100, 0.3, 3.981071705534972304}, {100, 0.5, 10.0}, {100, 1, 100.0}, {100, 2.5, 100000.0}, {100, 30, 1.0e+60}};
static const int N_P_POWF = 77;
#endif

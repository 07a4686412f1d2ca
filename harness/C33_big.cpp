// C33, big parameters: counts, degrees of freedom and shapes whose powers and factorials exceed the doubles
#define SYM_PREFIX big_
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
// { distribution, parameter, parameter, point, density } by mpmath
static const real T[][5] = {
	{0, 0.5, 0.0, 0.0, 6.06530659712633424e-1},
	{0, 90.0, 0.0, 0.0, 8.19401262399051543e-40},
	{0, 101.0, 0.0, 0.0, 1.368539471173853e-44},
	{0, 150.0, 0.0, 0.0, 7.17509597316441042e-66},
	{0, 300.0, 0.0, 0.0, 5.14820022241201378e-131},
	{0, 800.0, 0.0, 0.0, 0.0},
	{0, 2000.0, 0.0, 0.0, 0.0},
	{0, 20000.0, 0.0, 0.0, 0.0},
	{0, 0.5, 0.0, 1.0, 3.03265329856316712e-1},
	{0, 90.0, 0.0, 1.0, 7.37461136159146389e-38},
	{0, 101.0, 0.0, 1.0, 1.38222486588559153e-42},
	{0, 150.0, 0.0, 1.0, 1.07626439597466156e-63},
	{0, 300.0, 0.0, 1.0, 1.54446006672360413e-128},
	{0, 800.0, 0.0, 1.0, 0.0},
	{0, 2000.0, 0.0, 1.0, 0.0},
	{0, 20000.0, 0.0, 1.0, 0.0},
	{0, 0.5, 0.0, 60.0, 6.32234469328822898e-101},
	{0, 90.0, 0.0, 60.0, 1.76958873790259945e-4},
	{0, 101.0, 0.0, 60.0, 2.98789206791246542e-6},
	{0, 150.0, 0.0, 60.0, 3.17050475209030596e-17},
	{0, 300.0, 0.0, 60.0, 2.62274376229470326e-64},
	{0, 800.0, 0.0, 60.0, 0.0},
	{0, 2000.0, 0.0, 60.0, 0.0},
	{0, 20000.0, 0.0, 60.0, 0.0},
	{0, 0.5, 0.0, 101.0, 2.53803828249420766e-191},
	{0, 90.0, 0.0, 101.0, 2.07809335471560602e-2},
	{0, 101.0, 0.0, 101.0, 3.96635015159661193e-2},
	{0, 150.0, 0.0, 101.0, 4.64215728025835337e-6},
	{0, 300.0, 0.0, 101.0, 8.44456197231521398e-41},
	{0, 800.0, 0.0, 101.0, 6.34129759682094281e-215},
	{0, 2000.0, 0.0, 101.0, 0.0},
	{0, 20000.0, 0.0, 101.0, 0.0},
	{0, 0.5, 0.0, 150.0, 0.0},
	{0, 90.0, 0.0, 150.0, 1.96326820685193456e-9},
	{0, 101.0, 0.0, 150.0, 1.06554055601712301e-6},
	{0, 150.0, 0.0, 150.0, 3.25554094568365513e-2},
	{0, 300.0, 0.0, 150.0, 3.33388201365103923e-22},
	{0, 800.0, 0.0, 150.0, 1.86646184045254257e-175},
	{0, 2000.0, 0.0, 150.0, 0.0},
	{0, 20000.0, 0.0, 150.0, 0.0},
	{0, 0.5, 0.0, 171.0, 0.0},
	{0, 90.0, 0.0, 171.0, 9.88980292849657059e-15},
	{0, 101.0, 0.0, 171.0, 6.04552664177736733e-11},
	{0, 150.0, 0.0, 171.0, 7.47575238072859704e-3},
	{0, 300.0, 0.0, 171.0, 1.60550580754980869e-16},
	{0, 800.0, 0.0, 171.0, 7.92545396654005512e-161},
	{0, 2000.0, 0.0, 171.0, 0.0},
	{0, 20000.0, 0.0, 171.0, 0.0},
	{0, 0.5, 0.0, 300.0, 0.0},
	{0, 90.0, 0.0, 300.0, 5.01702675123970745e-68},
	{0, 101.0, 0.0, 300.0, 8.84843405976718098e-58},
	{0, 150.0, 0.0, 300.0, 1.57544188470971367e-27},
	{0, 300.0, 0.0, 300.0, 2.30265461491873519e-2},
	{0, 800.0, 0.0, 300.0, 1.01299553521417408e-91},
	{0, 2000.0, 0.0, 300.0, 0.0},
	{0, 20000.0, 0.0, 300.0, 0.0},
	{0, 0.5, 0.0, 1000.0, 0.0},
	{0, 90.0, 0.0, 1000.0, 0.0},
	{0, 101.0, 0.0, 1000.0, 0.0},
	{0, 150.0, 0.0, 1000.0, 0.0},
	{0, 300.0, 0.0, 1000.0, 1.69147633689781807e-221},
	{0, 800.0, 0.0, 1000.0, 1.12139146728310969e-12},
	{0, 2000.0, 0.0, 1000.0, 6.86100341266548603e-136},
	{0, 20000.0, 0.0, 1000.0, 0.0},
	{0, 0.5, 0.0, 20000.0, 0.0},
	{0, 90.0, 0.0, 20000.0, 0.0},
	{0, 101.0, 0.0, 20000.0, 0.0},
	{0, 150.0, 0.0, 20000.0, 0.0},
	{0, 300.0, 0.0, 20000.0, 0.0},
	{0, 800.0, 0.0, 20000.0, 0.0},
	{0, 2000.0, 0.0, 20000.0, 0.0},
	{0, 20000.0, 0.0, 20000.0, 2.82093616381361253e-3},
	{1, 400.0, 0.125, 0.0, 6.35654621599121458e-24},
	{1, 400.0, 0.125, 50.0, 6.02121725104591833e-2},
	{1, 400.0, 0.125, 200.0, 6.25532824098341387e-74},
	{1, 400.0, 0.125, 375.0, 0.0},
	{1, 400.0, 0.125, 400.0, 0.0},
	{1, 400.0, 0.5, 0.0, 3.87259191484931827e-121},
	{1, 400.0, 0.5, 50.0, 6.59730896506106393e-57},
	{1, 400.0, 0.5, 200.0, 3.98693019637929278e-2},
	{1, 400.0, 0.5, 375.0, 1.30699363086712643e-81},
	{1, 400.0, 0.5, 400.0, 3.87259191484931827e-121},
	{1, 400.0, 0.9375, 0.0, 0.0},
	{1, 400.0, 0.9375, 50.0, 0.0},
	{1, 400.0, 0.9375, 200.0, 3.82732768082726221e-128},
	{1, 400.0, 0.9375, 375.0, 8.21298104149162e-2},
	{1, 400.0, 0.9375, 400.0, 6.1448397274755227e-12},
	{1, 501.0, 0.125, 0.0, 8.83150184862898387e-30},
	{1, 501.0, 0.125, 62.0, 5.38585311804889597e-2},
	{1, 501.0, 0.125, 250.0, 1.09376572326971368e-91},
	{1, 501.0, 0.125, 469.0, 0.0},
	{1, 501.0, 0.125, 501.0, 0.0},
	{1, 501.0, 0.5, 0.0, 1.52746818174980234e-151},
	{1, 501.0, 0.5, 62.0, 2.31883899058307071e-71},
	{1, 501.0, 0.5, 250.0, 3.5593600442685009e-2},
	{1, 501.0, 0.5, 469.0, 5.24012857514072541e-101},
	{1, 501.0, 0.5, 501.0, 1.52746818174980234e-151},
	{1, 501.0, 0.9375, 0.0, 0.0},
	{1, 501.0, 0.9375, 62.0, 0.0},
	{1, 501.0, 0.9375, 250.0, 1.33691317102417406e-160},
	{1, 501.0, 0.9375, 469.0, 7.21205379349635279e-2},
	{1, 501.0, 0.9375, 501.0, 9.07004572071981675e-15},
	{1, 600.0, 0.125, 0.0, 1.60262463169645978e-35},
	{1, 600.0, 0.125, 75.0, 4.91908406015028397e-2},
	{1, 600.0, 0.125, 300.0, 6.39883170288690564e-110},
	{1, 600.0, 0.125, 562.0, 0.0},
	{1, 600.0, 0.125, 600.0, 0.0},
	{1, 600.0, 0.5, 0.0, 2.40991986510288412e-181},
	{1, 600.0, 0.5, 75.0, 1.78405415554374258e-84},
	{1, 600.0, 0.5, 300.0, 3.25599313349796784e-2},
	{1, 600.0, 0.5, 562.0, 5.16935179663152014e-121},
	{1, 600.0, 0.5, 600.0, 2.40991986510288412e-181},
	{1, 600.0, 0.9375, 0.0, 0.0},
	{1, 600.0, 0.9375, 75.0, 0.0},
	{1, 600.0, 0.9375, 300.0, 3.06244996536573619e-191},
	{1, 600.0, 0.9375, 562.0, 6.64861955949982051e-2},
	{1, 600.0, 0.9375, 600.0, 1.52323124618073052e-17},
	{1, 1029.0, 0.125, 0.0, 2.11975935194848909e-60},
	{1, 1029.0, 0.125, 128.0, 3.75930805012404718e-2},
	{1, 1029.0, 0.125, 514.0, 1.26233774657806967e-186},
	{1, 1029.0, 0.125, 964.0, 0.0},
	{1, 1029.0, 0.125, 1029.0, 0.0},
	{1, 1029.0, 0.5, 0.0, 0.0},
	{1, 1029.0, 0.5, 128.0, 4.58674861320540227e-144},
	{1, 1029.0, 0.5, 514.0, 2.48551299365744691e-2},
	{1, 1029.0, 0.5, 964.0, 1.71391638723869701e-206},
	{1, 1029.0, 0.5, 1029.0, 0.0},
	{1, 1029.0, 0.9375, 0.0, 0.0},
	{1, 1029.0, 0.9375, 128.0, 0.0},
	{1, 1029.0, 0.9375, 514.0, 0.0},
	{1, 1029.0, 0.9375, 964.0, 5.08588746301102599e-2},
	{1, 1029.0, 0.9375, 1029.0, 1.44026834405715619e-29},
	{1, 1500.0, 0.125, 0.0, 1.02820457864522443e-87},
	{1, 1500.0, 0.125, 187.0, 3.11440016406107042e-2},
	{1, 1500.0, 0.125, 750.0, 0.0},
	{1, 1500.0, 0.125, 1406.0, 0.0},
	{1, 1500.0, 0.125, 1500.0, 0.0},
	{1, 1500.0, 0.5, 0.0, 0.0},
	{1, 1500.0, 0.5, 187.0, 9.32469996772494268e-209},
	{1, 1500.0, 0.5, 750.0, 2.05978575124751201e-2},
	{1, 1500.0, 0.5, 1406.0, 0.0},
	{1, 1500.0, 0.5, 1500.0, 0.0},
	{1, 1500.0, 0.9375, 0.0, 0.0},
	{1, 1500.0, 0.9375, 187.0, 0.0},
	{1, 1500.0, 0.9375, 750.0, 0.0},
	{1, 1500.0, 0.9375, 1406.0, 4.24480941462634111e-2},
	{1, 1500.0, 0.9375, 1500.0, 9.05554513693306619e-43},
	{1, 10000.0, 0.125, 0.0, 0.0},
	{1, 10000.0, 0.125, 1250.0, 1.20620621770119596e-2},
	{1, 10000.0, 0.125, 5000.0, 0.0},
	{1, 10000.0, 0.125, 9375.0, 0.0},
	{1, 10000.0, 0.125, 10000.0, 0.0},
	{1, 10000.0, 0.5, 0.0, 0.0},
	{1, 10000.0, 0.5, 1250.0, 0.0},
	{1, 10000.0, 0.5, 5000.0, 7.97864613938215376e-3},
	{1, 10000.0, 0.5, 9375.0, 0.0},
	{1, 10000.0, 0.5, 10000.0, 0.0},
	{1, 10000.0, 0.9375, 0.0, 0.0},
	{1, 10000.0, 0.9375, 1250.0, 0.0},
	{1, 10000.0, 0.9375, 5000.0, 0.0},
	{1, 10000.0, 0.9375, 9375.0, 1.64788261404132393e-2},
	{1, 10000.0, 0.9375, 10000.0, 0.0},
	{2, 61.0, 0.0, 0.5, 1.40067271501255488e-50},
	{2, 61.0, 0.0, 20.0, 1.48845330362899533e-7},
	{2, 61.0, 0.0, 100.0, 2.63372888067783291e-4},
	{2, 61.0, 0.0, 300.0, 1.16466195777738012e-33},
	{2, 61.0, 0.0, 1000.0, 3.07648080428324068e-170},
	{2, 61.0, 0.0, 10000.0, 0.0},
	{2, 62.0, 0.0, 0.5, 1.27331709303685557e-51},
	{2, 62.0, 0.0, 20.0, 8.55785867768394639e-8},
	{2, 62.0, 0.0, 100.0, 3.38599228575105263e-4},
	{2, 62.0, 0.0, 300.0, 2.59343528647724594e-33},
	{2, 62.0, 0.0, 1000.0, 1.25074595743642768e-169},
	{2, 62.0, 0.0, 10000.0, 0.0},
	{2, 99.0, 0.0, 0.5, 2.83522709897948456e-92},
	{2, 99.0, 0.0, 20.0, 8.28182848378207151e-19},
	{2, 99.0, 0.0, 100.0, 2.7950666362221485e-2},
	{2, 99.0, 0.0, 300.0, 1.43656350676212999e-22},
	{2, 99.0, 0.0, 1000.0, 3.2649407902672515e-149},
	{2, 99.0, 0.0, 10000.0, 0.0},
	{2, 100.0, 0.0, 0.5, 2.02000265681414762e-93},
	{2, 100.0, 0.0, 20.0, 3.73181681444371045e-19},
	{2, 100.0, 0.0, 100.0, 2.81625031625954127e-2},
	{2, 100.0, 0.0, 300.0, 2.50705894152777451e-22},
	{2, 100.0, 0.0, 1000.0, 1.04028993598530001e-148},
	{2, 100.0, 0.0, 10000.0, 0.0},
	{2, 101.0, 0.0, 0.5, 1.43193287827246695e-94},
	{2, 101.0, 0.0, 20.0, 1.67309666339031748e-19},
	{2, 101.0, 0.0, 100.0, 2.82329963254762474e-2},
	{2, 101.0, 0.0, 300.0, 4.35322274776403027e-22},
	{2, 101.0, 0.0, 1000.0, 3.29791999016894091e-148},
	{2, 101.0, 0.0, 10000.0, 0.0},
	{2, 150.0, 0.0, 0.5, 3.29918420884506529e-153},
	{2, 150.0, 0.0, 20.0, 6.86237939087026538e-39},
	{2, 150.0, 0.0, 100.0, 1.54339031036580329e-4},
	{2, 150.0, 0.0, 300.0, 1.16412717743377501e-12},
	{2, 150.0, 0.0, 1000.0, 5.70110333552753217e-126},
	{2, 150.0, 0.0, 10000.0, 0.0},
	{2, 250.0, 0.0, 0.5, 0.0},
	{2, 250.0, 0.0, 20.0, 1.50715993426137409e-88},
	{2, 250.0, 0.0, 100.0, 3.01065230176300855e-19},
	{2, 250.0, 0.0, 300.0, 1.6302266818550746e-3},
	{2, 250.0, 0.0, 1000.0, 1.11209975625845629e-90},
	{2, 250.0, 0.0, 10000.0, 0.0},
	{2, 301.0, 0.0, 0.5, 0.0},
	{2, 301.0, 0.0, 20.0, 1.54006593703865917e-117},
	{2, 301.0, 0.0, 100.0, 2.05010302950769806e-30},
	{2, 301.0, 0.0, 300.0, 1.6291275110769233e-2},
	{2, 301.0, 0.0, 1000.0, 2.39474255051648139e-76},
	{2, 301.0, 0.0, 10000.0, 0.0},
	{2, 303.0, 0.0, 0.5, 0.0},
	{2, 303.0, 0.0, 20.0, 1.02329962593930842e-118},
	{2, 303.0, 0.0, 100.0, 6.81097351995912978e-31},
	{2, 303.0, 0.0, 300.0, 1.62371512731919266e-2},
	{2, 303.0, 0.0, 1000.0, 7.95595531733050295e-76},
	{2, 303.0, 0.0, 10000.0, 0.0},
	{2, 341.0, 0.0, 0.5, 0.0},
	{2, 341.0, 0.0, 20.0, 1.29058610465821009e-141},
	{2, 341.0, 0.0, 100.0, 1.63841322063867531e-40},
	{2, 341.0, 0.0, 300.0, 4.53970809410210662e-3},
	{2, 341.0, 0.0, 1000.0, 1.91384423042112819e-66},
	{2, 341.0, 0.0, 10000.0, 0.0},
	{2, 342.0, 0.0, 0.5, 0.0},
	{2, 342.0, 0.0, 20.0, 3.12783035787031431e-142},
	{2, 342.0, 0.0, 100.0, 8.87901217438900427e-41},
	{2, 342.0, 0.0, 300.0, 4.26117885701530031e-3},
	{2, 342.0, 0.0, 1000.0, 3.279803273586776e-66},
	{2, 342.0, 0.0, 10000.0, 0.0},
	{2, 400.0, 0.0, 0.5, 0.0},
	{2, 400.0, 0.0, 20.0, 5.75660646284852159e-179},
	{2, 400.0, 0.0, 100.0, 3.04381412212554325e-57},
	{2, 400.0, 0.0, 300.0, 1.00253519188560195e-5},
	{2, 400.0, 0.0, 1000.0, 1.12434934493419457e-53},
	{2, 400.0, 0.0, 10000.0, 0.0},
	{2, 1000.0, 0.0, 0.5, 0.0},
	{2, 1000.0, 0.0, 20.0, 0.0},
	{2, 1000.0, 0.0, 100.0, 0.0},
	{2, 1000.0, 0.0, 300.0, 1.08867301164861814e-111},
	{2, 1000.0, 0.0, 1000.0, 8.9191339347558895e-3},
	{2, 1000.0, 0.0, 10000.0, 0.0},
	{2, 10000.0, 0.0, 0.5, 0.0},
	{2, 10000.0, 0.0, 20.0, 0.0},
	{2, 10000.0, 0.0, 100.0, 0.0},
	{2, 10000.0, 0.0, 300.0, 0.0},
	{2, 10000.0, 0.0, 1000.0, 0.0},
	{2, 10000.0, 0.0, 10000.0, 2.82090090233201129e-3},
	{3, 1.0, 0.0, 0.0, 3.18309886183790672e-1},
	{3, 1.0, 0.0, 0.5, 2.54647908947032537e-1},
	{3, 1.0, 0.0, -2.0, 6.36619772367581343e-2},
	{3, 1.0, 0.0, 20.0, 7.93790239859827111e-4},
	{3, 1.0, 0.0, -1000.0, 3.18309567874222797e-7},
	{3, 1.0, 0.0, 1000000.0, 3.18309886183472362e-13},
	{3, 2.0, 0.0, 0.0, 3.53553390593273762e-1},
	{3, 2.0, 0.0, 0.5, 2.96296296296296296e-1},
	{3, 2.0, 0.0, -2.0, 6.80413817439771694e-2},
	{3, 2.0, 0.0, 20.0, 1.24068325386521505e-4},
	{3, 2.0, 0.0, -1000.0, 9.99997000007499983e-10},
	{3, 2.0, 0.0, 1000000.0, 9.99999999997e-19},
	{3, 3.0, 0.0, 0.0, 3.67552596947861366e-1},
	{3, 3.0, 0.0, 0.5, 3.1318091100882862e-1},
	{3, 3.0, 0.0, -2.0, 6.7509660663892904e-2},
	{3, 3.0, 0.0, 20.0, 2.03681653881912474e-5},
	{3, 3.0, 0.0, -1000.0, 3.30795352477983204e-12},
	{3, 3.0, 0.0, 1000000.0, 3.30797337251090446e-24},
	{3, 41.0, 0.0, 0.0, 3.96517346403172369e-1},
	{3, 41.0, 0.0, 0.5, 3.48995776818961545e-1},
	{3, 41.0, 0.0, -2.0, 5.61384468302375399e-2},
	{3, 41.0, 0.0, 20.0, 8.58050410452915647e-23},
	{3, 41.0, 0.0, -1000.0, 2.92650494530240855e-93},
	{3, 41.0, 0.0, 1000000.0, 2.92902569689224091e-219},
	{3, 100.0, 0.0, 0.0, 3.97946186935893807e-1},
	{3, 100.0, 0.0, 0.5, 3.50802833392330316e-1},
	{3, 100.0, 0.0, -2.0, 5.490864329540969e-2},
	{3, 100.0, 0.0, 20.0, 2.00372966881120864e-36},
	{3, 100.0, 0.0, -1000.0, 3.95941724440807696e-203},
	{3, 100.0, 0.0, 1000000.0, 0.0},
	{3, 101.0, 0.0, 0.0, 3.97956036723381651e-1},
	{3, 101.0, 0.0, 0.5, 3.50815306361060037e-1},
	{3, 101.0, 0.0, -2.0, 5.48998183386308245e-2},
	{3, 101.0, 0.0, 20.0, 1.34431529767092189e-36},
	{3, 101.0, 0.0, -1000.0, 6.57640002082150245e-205},
	{3, 101.0, 0.0, 1000000.0, 0.0},
	{3, 250.0, 0.0, 0.0, 3.98543538588460049e-1},
	{3, 250.0, 0.0, 0.5, 3.51559670569327731e-1},
	{3, 250.0, 0.0, -2.0, 5.4364503371467043e-2},
	{3, 250.0, 0.0, 20.0, 3.32139557062571313e-53},
	{3, 250.0, 0.0, -1000.0, 0.0},
	{3, 250.0, 0.0, 1000000.0, 0.0},
	{3, 303.0, 0.0, 0.0, 3.98613256455979572e-1},
	{3, 303.0, 0.0, 0.5, 3.51648055438847734e-1},
	{3, 303.0, 0.0, -2.0, 5.42997959408352287e-2},
	{3, 303.0, 0.0, 20.0, 1.10311773541073469e-56},
	{3, 303.0, 0.0, -1000.0, 0.0},
	{3, 303.0, 0.0, 1000000.0, 0.0},
	{3, 342.0, 0.0, 0.0, 3.98650762904620023e-1},
	{3, 342.0, 0.0, 0.5, 3.51695608882736679e-1},
	{3, 342.0, 0.0, -2.0, 5.42648797817845341e-2},
	{3, 342.0, 0.0, 20.0, 8.16206469537820807e-59},
	{3, 342.0, 0.0, -1000.0, 0.0},
	{3, 342.0, 0.0, 1000000.0, 0.0},
	{3, 400.0, 0.0, 0.0, 3.98693019637929278e-1},
	{3, 400.0, 0.0, 0.5, 3.51749188964334986e-1},
	{3, 400.0, 0.0, -2.0, 5.42254529788540385e-2},
	{3, 400.0, 0.0, 20.0, 1.75438336782749248e-61},
	{3, 400.0, 0.0, -1000.0, 0.0},
	{3, 400.0, 0.0, 1000000.0, 0.0},
	{3, 1000.0, 0.0, 0.0, 3.98842557313858155e-1},
	{3, 1000.0, 0.0, 0.5, 3.51938830615914017e-1},
	{3, 1000.0, 0.0, -2.0, 5.40851740097559328e-2},
	{3, 1000.0, 0.0, 20.0, 2.90883867123547762e-74},
	{3, 1000.0, 0.0, -1000.0, 0.0},
	{3, 1000.0, 0.0, 1000000.0, 0.0},
	{3, 10000.0, 0.0, 0.0, 3.98932306969107688e-1},
	{3, 10000.0, 0.0, 0.5, 3.52052674689817151e-1},
	{3, 10000.0, 0.0, -2.0, 5.40004121602390445e-2},
	{3, 10000.0, 0.0, 20.0, 2.66493146689472377e-86},
	{3, 10000.0, 0.0, -1000.0, 0.0},
	{3, 10000.0, 0.0, 1000000.0, 0.0},
	{4, 0.5, 0.0001220703125, 1024.0, 1.71906897834130604e-4},
	{4, 0.5, 0.0001220703125, 4096.0, 5.90748839158064819e-5},
	{4, 0.5, 0.0001220703125, 8192.0, 2.53361509656124697e-5},
	{4, 0.5, 1.0, 0.125, 1.40826130705719791},
	{4, 0.5, 1.0, 0.5, 4.839414490382867e-1},
	{4, 0.5, 1.0, 1.0, 2.07553748710297352e-1},
	{4, 0.5, 64.0, 0.001953125, 9.01287236516606663e+1},
	{4, 0.5, 64.0, 0.0078125, 3.09722527384503488e+1},
	{4, 0.5, 64.0, 0.015625, 1.32834399174590305e+1},
	{4, 0.5, 8192.0, 1.52587890625e-05, 1.15364766274125653e+4},
	{4, 0.5, 8192.0, 6.103515625e-05, 3.96444835052164464e+3},
	{4, 0.5, 8192.0, 0.0001220703125, 1.7002803094347559e+3},
	{4, 1.0, 0.0001220703125, 2048.0, 9.50684549647711021e-5},
	{4, 1.0, 0.0001220703125, 8192.0, 4.49071583461233303e-5},
	{4, 1.0, 0.0001220703125, 16384.0, 1.65204203169693227e-5},
	{4, 1.0, 1.0, 0.25, 7.78800783071404868e-1},
	{4, 1.0, 1.0, 1.0, 3.67879441171442322e-1},
	{4, 1.0, 1.0, 2.0, 1.35335283236612692e-1},
	{4, 1.0, 64.0, 0.00390625, 4.98432501165699116e+1},
	{4, 1.0, 64.0, 0.015625, 2.35442842349723086e+1},
	{4, 1.0, 64.0, 0.03125, 8.66145812714321228},
	{4, 1.0, 8192.0, 3.0517578125e-05, 6.37993601492094868e+3},
	{4, 1.0, 8192.0, 0.0001220703125, 3.0136683820764555e+3},
	{4, 1.0, 8192.0, 0.000244140625, 1.10866664027433117e+3},
	{4, 3.5, 0.0001220703125, 7168.0, 1.09659511991577889e-5},
	{4, 3.5, 0.0001220703125, 28672.0, 2.54198668965263585e-5},
	{4, 3.5, 0.0001220703125, 57344.0, 4.34227750400372763e-6},
	{4, 3.5, 1.0, 0.875, 8.98330722235006068e-2},
	{4, 3.5, 1.0, 3.5, 2.08239549616343929e-1},
	{4, 3.5, 1.0, 7.0, 3.55719373127985367e-2},
	{4, 3.5, 64.0, 0.013671875, 5.74931662230403883},
	{4, 3.5, 64.0, 0.0546875, 1.33273311754460114e+1},
	{4, 3.5, 64.0, 0.109375, 2.27660398801910635},
	{4, 3.5, 8192.0, 0.0001068115234375, 7.35912527654916971e+2},
	{4, 3.5, 8192.0, 0.00042724609375, 1.70589839045708946e+3},
	{4, 3.5, 8192.0, 0.0008544921875, 2.91405310466445613e+2},
	{4, 15.0, 0.0001220703125, 30720.0, 3.58125417287493202e-9},
	{4, 15.0, 0.0001220703125, 122880.0, 1.25043782549480211e-5},
	{4, 15.0, 0.0001220703125, 245760.0, 6.26707386305932592e-8},
	{4, 15.0, 1.0, 3.75, 2.93376341841914431e-5},
	{4, 15.0, 1.0, 15.0, 1.02435866664534189e-1},
	{4, 15.0, 1.0, 30.0, 5.13398690861819979e-4},
	{4, 15.0, 64.0, 0.05859375, 1.87760858778825236e-3},
	{4, 15.0, 64.0, 0.234375, 6.55589546653018807},
	{4, 15.0, 64.0, 0.46875, 3.28575162151564787e-2},
	{4, 15.0, 8192.0, 0.000457763671875, 2.40333899236896302e-1},
	{4, 15.0, 8192.0, 0.0018310546875, 8.39154619715864073e+2},
	{4, 15.0, 8192.0, 0.003662109375, 4.20576207554002927},
	{4, 20.0, 0.0001220703125, 40960.0, 1.28965369869416163e-10},
	{4, 20.0, 0.0001220703125, 163840.0, 1.08441549550885276e-5},
	{4, 20.0, 0.0001220703125, 327680.0, 1.17186071195632298e-8},
	{4, 20.0, 1.0, 5.0, 1.05648430997025721e-6},
	{4, 20.0, 1.0, 20.0, 8.88353173920852183e-2},
	{4, 20.0, 1.0, 40.0, 9.59988295234619785e-5},
	{4, 20.0, 64.0, 0.078125, 6.76149958380964613e-5},
	{4, 20.0, 64.0, 0.3125, 5.68546031309345397},
	{4, 20.0, 64.0, 0.625, 6.14392508950156662e-3},
	{4, 20.0, 8192.0, 0.0006103515625, 8.65471946727634705e-3},
	{4, 20.0, 8192.0, 0.00244140625, 7.27738920075962108e+2},
	{4, 20.0, 8192.0, 0.0048828125, 7.86422411456200528e-1},
	{4, 21.0, 0.0001220703125, 43008.0, 6.66231983164936632e-11},
	{4, 21.0, 0.0001220703125, 172032.0, 1.05849110843954513e-5},
	{4, 21.0, 0.0001220703125, 344064.0, 8.41594730410179907e-9},
	{4, 21.0, 1.0, 5.25, 5.45777240608716089e-7},
	{4, 21.0, 1.0, 21.0, 8.67115916033675373e-2},
	{4, 21.0, 1.0, 42.0, 6.8943440315201938e-5},
	{4, 21.0, 64.0, 0.08203125, 3.49297433989578297e-5},
	{4, 21.0, 64.0, 0.328125, 5.54954186261552239},
	{4, 21.0, 64.0, 0.65625, 4.41238018017292403e-3},
	{4, 21.0, 8192.0, 0.000640869140625, 4.4710071550666022e-3},
	{4, 21.0, 8192.0, 0.0025634765625, 7.10341358414786866e+2},
	{4, 21.0, 8192.0, 0.005126953125, 5.64784663062134276e-1},
	{4, 50.0, 0.0001220703125, 102400.0, 4.19193752855027613e-19},
	{4, 50.0, 0.0001220703125, 409600.0, 6.87561112368052068e-6},
	{4, 50.0, 0.0001220703125, 819200.0, 7.46546730663374861e-13},
	{4, 50.0, 1.0, 12.5, 3.4340352233883862e-15},
	{4, 50.0, 1.0, 50.0, 5.63250063251908254e-2},
	{4, 50.0, 1.0, 100.0, 6.11571081759436686e-9},
	{4, 50.0, 64.0, 0.1953125, 2.19778254296856717e-13},
	{4, 50.0, 64.0, 0.78125, 3.60480040481221283},
	{4, 50.0, 64.0, 1.5625, 3.91405492326039479e-7},
	{4, 50.0, 8192.0, 0.00152587890625, 2.81316165499976598e-11},
	{4, 50.0, 8192.0, 0.006103515625, 4.61414451815963242e+2},
	{4, 50.0, 8192.0, 0.01220703125, 5.00999030177330533e-5},
	{4, 100.0, 0.0001220703125, 204800.0, 4.52173610398366417e-33},
	{4, 100.0, 0.0001220703125, 819200.0, 4.86584433705409366e-6},
	{4, 100.0, 0.0001220703125, 1638400.0, 1.14730686370245447e-19},
	{4, 100.0, 1.0, 25.0, 3.70420621638341769e-29},
	{4, 100.0, 1.0, 100.0, 3.98609968091471352e-2},
	{4, 100.0, 1.0, 200.0, 9.39873782745050706e-16},
	{4, 100.0, 64.0, 0.390625, 2.37069197848538732e-27},
	{4, 100.0, 64.0, 1.5625, 2.55110379578541665},
	{4, 100.0, 64.0, 3.125, 6.01519220956832452e-14},
	{4, 100.0, 8192.0, 0.0030517578125, 3.03448573246129577e-25},
	{4, 100.0, 8192.0, 0.01220703125, 3.26541285860533332e+2},
	{4, 100.0, 8192.0, 0.0244140625, 7.69944602824745538e-12},
	{4, 101.0, 0.0001220703125, 206848.0, 2.38127185570032923e-33},
	{4, 101.0, 0.0001220703125, 827392.0, 4.84173602489820792e-6},
	{4, 101.0, 0.0001220703125, 1654784.0, 8.39958833708609054e-20},
	{4, 101.0, 1.0, 25.25, 1.9507379041897097e-29},
	{4, 101.0, 1.0, 101.0, 3.96635015159661193e-2},
	{4, 101.0, 1.0, 202.0, 6.88094276574092537e-16},
	{4, 101.0, 64.0, 0.39453125, 1.24847225868141421e-27},
	{4, 101.0, 64.0, 1.578125, 2.53846409702183163},
	{4, 101.0, 64.0, 3.15625, 4.40380337007419224e-14},
	{4, 101.0, 8192.0, 0.003082275390625, 1.59804449111221019e-25},
	{4, 101.0, 8192.0, 0.0123291015625, 3.24923404418794449e+2},
	{4, 101.0, 8192.0, 0.024658203125, 5.63686831369496607e-12},
	{4, 150.5, 0.0001220703125, 308224.0, 4.08820194718214613e-47},
	{4, 150.5, 0.0001220703125, 1232896.0, 3.9674494263072059e-6},
	{4, 150.5, 0.0001220703125, 2465792.0, 1.74251379418097885e-26},
	{4, 150.5, 1.0, 37.625, 3.34905503513161411e-43},
	{4, 150.5, 1.0, 150.5, 3.25013457003086307e-2},
	{4, 150.5, 1.0, 301.0, 1.42746730019305788e-22},
	{4, 150.5, 64.0, 0.587890625, 2.14339522248423303e-41},
	{4, 150.5, 64.0, 2.3515625, 2.08008612481975237},
	{4, 150.5, 64.0, 4.703125, 9.13579072123557041e-21},
	{4, 150.5, 8192.0, 0.0045928955078125, 2.74354588477981828e-39},
	{4, 150.5, 8192.0, 0.01837158203125, 2.66251023976928303e+2},
	{4, 150.5, 8192.0, 0.0367431640625, 1.16938121231815301e-18},
	{4, 300.0, 0.0001220703125, 614400.0, 1.40980770145409827e-88},
	{4, 300.0, 0.0001220703125, 2457600.0, 2.81085768422697167e-6},
	{4, 300.0, 0.0001220703125, 4915200.0, 1.47388293351919155e-46},
	{4, 300.0, 1.0, 75.0, 1.1549144690311973e-84},
	{4, 300.0, 1.0, 300.0, 2.30265461491873519e-2},
	{4, 300.0, 1.0, 600.0, 1.20740489913892172e-42},
	{4, 300.0, 64.0, 1.171875, 7.39145260179966273e-83},
	{4, 300.0, 64.0, 4.6875, 1.47369895354799052},
	{4, 300.0, 64.0, 9.375, 7.72739135448909899e-41},
	{4, 300.0, 8192.0, 0.0091552734375, 9.46105933030356829e-81},
	{4, 300.0, 8192.0, 0.03662109375, 1.88633466054142787e+2},
	{4, 300.0, 8192.0, 0.0732421875, 9.89106093374604671e-39},
	{4, 5000.0, 0.0001220703125, 10240000.0, 0.0},
	{4, 5000.0, 0.0001220703125, 40960000.0, 6.88696509358401193e-7},
	{4, 5000.0, 0.0001220703125, 81920000.0, 0.0},
	{4, 5000.0, 1.0, 1250.0, 0.0},
	{4, 5000.0, 1.0, 5000.0, 5.64180180466402257e-3},
	{4, 5000.0, 1.0, 10000.0, 0.0},
	{4, 5000.0, 64.0, 19.53125, 0.0},
	{4, 5000.0, 64.0, 78.125, 3.61075315498497445e-1},
	{4, 5000.0, 64.0, 156.25, 0.0},
	{4, 5000.0, 8192.0, 0.152587890625, 0.0},
	{4, 5000.0, 8192.0, 0.6103515625, 4.62176403838076729e+1},
	{4, 5000.0, 8192.0, 1.220703125, 0.0},
	{5, 1.0, 0.0001220703125, 2048.0, 9.50684549647711021e-5},
	{5, 1.0, 0.0001220703125, 8192.0, 4.49071583461233303e-5},
	{5, 1.0, 0.0001220703125, 16384.0, 1.65204203169693227e-5},
	{5, 1.0, 1.0, 0.25, 7.78800783071404868e-1},
	{5, 1.0, 1.0, 1.0, 3.67879441171442322e-1},
	{5, 1.0, 1.0, 2.0, 1.35335283236612692e-1},
	{5, 1.0, 64.0, 0.00390625, 4.98432501165699116e+1},
	{5, 1.0, 64.0, 0.015625, 2.35442842349723086e+1},
	{5, 1.0, 64.0, 0.03125, 8.66145812714321228},
	{5, 1.0, 8192.0, 3.0517578125e-05, 6.37993601492094868e+3},
	{5, 1.0, 8192.0, 0.0001220703125, 3.0136683820764555e+3},
	{5, 1.0, 8192.0, 0.000244140625, 1.10866664027433117e+3},
	{5, 15.0, 0.0001220703125, 30720.0, 3.58125417287493202e-9},
	{5, 15.0, 0.0001220703125, 122880.0, 1.25043782549480211e-5},
	{5, 15.0, 0.0001220703125, 245760.0, 6.26707386305932592e-8},
	{5, 15.0, 1.0, 3.75, 2.93376341841914431e-5},
	{5, 15.0, 1.0, 15.0, 1.02435866664534189e-1},
	{5, 15.0, 1.0, 30.0, 5.13398690861819979e-4},
	{5, 15.0, 64.0, 0.05859375, 1.87760858778825236e-3},
	{5, 15.0, 64.0, 0.234375, 6.55589546653018807},
	{5, 15.0, 64.0, 0.46875, 3.28575162151564787e-2},
	{5, 15.0, 8192.0, 0.000457763671875, 2.40333899236896302e-1},
	{5, 15.0, 8192.0, 0.0018310546875, 8.39154619715864073e+2},
	{5, 15.0, 8192.0, 0.003662109375, 4.20576207554002927},
	{5, 20.0, 0.0001220703125, 40960.0, 1.28965369869416163e-10},
	{5, 20.0, 0.0001220703125, 163840.0, 1.08441549550885276e-5},
	{5, 20.0, 0.0001220703125, 327680.0, 1.17186071195632298e-8},
	{5, 20.0, 1.0, 5.0, 1.05648430997025721e-6},
	{5, 20.0, 1.0, 20.0, 8.88353173920852183e-2},
	{5, 20.0, 1.0, 40.0, 9.59988295234619785e-5},
	{5, 20.0, 64.0, 0.078125, 6.76149958380964613e-5},
	{5, 20.0, 64.0, 0.3125, 5.68546031309345397},
	{5, 20.0, 64.0, 0.625, 6.14392508950156662e-3},
	{5, 20.0, 8192.0, 0.0006103515625, 8.65471946727634705e-3},
	{5, 20.0, 8192.0, 0.00244140625, 7.27738920075962108e+2},
	{5, 20.0, 8192.0, 0.0048828125, 7.86422411456200528e-1},
	{5, 21.0, 0.0001220703125, 43008.0, 6.66231983164936632e-11},
	{5, 21.0, 0.0001220703125, 172032.0, 1.05849110843954513e-5},
	{5, 21.0, 0.0001220703125, 344064.0, 8.41594730410179907e-9},
	{5, 21.0, 1.0, 5.25, 5.45777240608716089e-7},
	{5, 21.0, 1.0, 21.0, 8.67115916033675373e-2},
	{5, 21.0, 1.0, 42.0, 6.8943440315201938e-5},
	{5, 21.0, 64.0, 0.08203125, 3.49297433989578297e-5},
	{5, 21.0, 64.0, 0.328125, 5.54954186261552239},
	{5, 21.0, 64.0, 0.65625, 4.41238018017292403e-3},
	{5, 21.0, 8192.0, 0.000640869140625, 4.4710071550666022e-3},
	{5, 21.0, 8192.0, 0.0025634765625, 7.10341358414786866e+2},
	{5, 21.0, 8192.0, 0.005126953125, 5.64784663062134276e-1},
	{5, 50.0, 0.0001220703125, 102400.0, 4.19193752855027613e-19},
	{5, 50.0, 0.0001220703125, 409600.0, 6.87561112368052068e-6},
	{5, 50.0, 0.0001220703125, 819200.0, 7.46546730663374861e-13},
	{5, 50.0, 1.0, 12.5, 3.4340352233883862e-15},
	{5, 50.0, 1.0, 50.0, 5.63250063251908254e-2},
	{5, 50.0, 1.0, 100.0, 6.11571081759436686e-9},
	{5, 50.0, 64.0, 0.1953125, 2.19778254296856717e-13},
	{5, 50.0, 64.0, 0.78125, 3.60480040481221283},
	{5, 50.0, 64.0, 1.5625, 3.91405492326039479e-7},
	{5, 50.0, 8192.0, 0.00152587890625, 2.81316165499976598e-11},
	{5, 50.0, 8192.0, 0.006103515625, 4.61414451815963242e+2},
	{5, 50.0, 8192.0, 0.01220703125, 5.00999030177330533e-5},
	{5, 100.0, 0.0001220703125, 204800.0, 4.52173610398366417e-33},
	{5, 100.0, 0.0001220703125, 819200.0, 4.86584433705409366e-6},
	{5, 100.0, 0.0001220703125, 1638400.0, 1.14730686370245447e-19},
	{5, 100.0, 1.0, 25.0, 3.70420621638341769e-29},
	{5, 100.0, 1.0, 100.0, 3.98609968091471352e-2},
	{5, 100.0, 1.0, 200.0, 9.39873782745050706e-16},
	{5, 100.0, 64.0, 0.390625, 2.37069197848538732e-27},
	{5, 100.0, 64.0, 1.5625, 2.55110379578541665},
	{5, 100.0, 64.0, 3.125, 6.01519220956832452e-14},
	{5, 100.0, 8192.0, 0.0030517578125, 3.03448573246129577e-25},
	{5, 100.0, 8192.0, 0.01220703125, 3.26541285860533332e+2},
	{5, 100.0, 8192.0, 0.0244140625, 7.69944602824745538e-12},
	{5, 101.0, 0.0001220703125, 206848.0, 2.38127185570032923e-33},
	{5, 101.0, 0.0001220703125, 827392.0, 4.84173602489820792e-6},
	{5, 101.0, 0.0001220703125, 1654784.0, 8.39958833708609054e-20},
	{5, 101.0, 1.0, 25.25, 1.9507379041897097e-29},
	{5, 101.0, 1.0, 101.0, 3.96635015159661193e-2},
	{5, 101.0, 1.0, 202.0, 6.88094276574092537e-16},
	{5, 101.0, 64.0, 0.39453125, 1.24847225868141421e-27},
	{5, 101.0, 64.0, 1.578125, 2.53846409702183163},
	{5, 101.0, 64.0, 3.15625, 4.40380337007419224e-14},
	{5, 101.0, 8192.0, 0.003082275390625, 1.59804449111221019e-25},
	{5, 101.0, 8192.0, 0.0123291015625, 3.24923404418794449e+2},
	{5, 101.0, 8192.0, 0.024658203125, 5.63686831369496607e-12},
	{5, 300.0, 0.0001220703125, 614400.0, 1.40980770145409827e-88},
	{5, 300.0, 0.0001220703125, 2457600.0, 2.81085768422697167e-6},
	{5, 300.0, 0.0001220703125, 4915200.0, 1.47388293351919155e-46},
	{5, 300.0, 1.0, 75.0, 1.1549144690311973e-84},
	{5, 300.0, 1.0, 300.0, 2.30265461491873519e-2},
	{5, 300.0, 1.0, 600.0, 1.20740489913892172e-42},
	{5, 300.0, 64.0, 1.171875, 7.39145260179966273e-83},
	{5, 300.0, 64.0, 4.6875, 1.47369895354799052},
	{5, 300.0, 64.0, 9.375, 7.72739135448909899e-41},
	{5, 300.0, 8192.0, 0.0091552734375, 9.46105933030356829e-81},
	{5, 300.0, 8192.0, 0.03662109375, 1.88633466054142787e+2},
	{5, 300.0, 8192.0, 0.0732421875, 9.89106093374604671e-39},
	{5, 5000.0, 0.0001220703125, 10240000.0, 0.0},
	{5, 5000.0, 0.0001220703125, 40960000.0, 6.88696509358401193e-7},
	{5, 5000.0, 0.0001220703125, 81920000.0, 0.0},
	{5, 5000.0, 1.0, 1250.0, 0.0},
	{5, 5000.0, 1.0, 5000.0, 5.64180180466402257e-3},
	{5, 5000.0, 1.0, 10000.0, 0.0},
	{5, 5000.0, 64.0, 19.53125, 0.0},
	{5, 5000.0, 64.0, 78.125, 3.61075315498497445e-1},
	{5, 5000.0, 64.0, 156.25, 0.0},
	{5, 5000.0, 8192.0, 0.152587890625, 0.0},
	{5, 5000.0, 8192.0, 0.6103515625, 4.62176403838076729e+1},
	{5, 5000.0, 8192.0, 1.220703125, 0.0},
	{6, 0.5, 0.5, 0.0009765625, 1.01908935955875077e+1},
	{6, 0.5, 0.5, 0.125, 9.6247862708066832e-1},
	{6, 0.5, 0.5, 0.5, 6.36619772367581343e-1},
	{6, 0.5, 0.5, 0.9375, 1.31499614733119959},
	{6, 0.5, 1.0, 0.0009765625, 1.6e+1},
	{6, 0.5, 1.0, 0.125, 1.41421356237309505},
	{6, 0.5, 1.0, 0.5, 7.07106781186547524e-1},
	{6, 0.5, 1.0, 0.9375, 5.16397779494322251e-1},
	{6, 0.5, 30.0, 0.0009765625, 9.57239977382775065e+1},
	{6, 0.5, 30.0, 0.125, 1.81115135684327232e-1},
	{6, 0.5, 30.0, 0.5, 8.10627509684335954e-9},
	{6, 0.5, 30.0, 0.9375, 3.82570148212480222e-35},
	{6, 0.5, 500.0, 0.0009765625, 2.47864499747197095e+2},
	{6, 0.5, 500.0, 0.125, 4.11495361283528132e-28},
	{6, 0.5, 500.0, 0.5, 1.08980464271184715e-149},
	{6, 0.5, 500.0, 0.9375, 0.0},
	{6, 1.0, 0.5, 0.0009765625, 5.00244319584577933e-1},
	{6, 1.0, 0.5, 0.125, 5.34522483824848769e-1},
	{6, 1.0, 0.5, 0.5, 7.07106781186547524e-1},
	{6, 1.0, 0.5, 0.9375, 2.0},
	{6, 1.0, 1.0, 0.0009765625, 1.0},
	{6, 1.0, 1.0, 0.125, 1.0},
	{6, 1.0, 1.0, 0.5, 1.0},
	{6, 1.0, 1.0, 0.9375, 1.0},
	{6, 1.0, 30.0, 0.0009765625, 2.91619049314835107e+1},
	{6, 1.0, 30.0, 0.125, 6.24244597372632553e-1},
	{6, 1.0, 30.0, 0.5, 5.58793544769287109e-8},
	{6, 1.0, 30.0, 0.9375, 3.61111864572606722e-34},
	{6, 1.0, 500.0, 0.0009765625, 3.07066800203323086e+2},
	{6, 1.0, 500.0, 0.125, 5.76751141134954049e-27},
	{6, 1.0, 500.0, 0.5, 3.05493636349960468e-148},
	{6, 1.0, 500.0, 0.9375, 0.0},
	{6, 8.0, 0.5, 0.0009765625, 1.3313770556877124e-21},
	{6, 8.0, 0.5, 0.125, 8.00856431809463965e-7},
	{6, 8.0, 0.5, 0.5, 1.73577580907265981e-2},
	{6, 8.0, 0.5, 0.9375, 3.99988522303829086},
	{6, 8.0, 1.0, 0.0009765625, 6.77626357803440271e-21},
	{6, 8.0, 1.0, 0.125, 3.814697265625e-6},
	{6, 8.0, 1.0, 0.5, 6.25e-2},
	{6, 8.0, 1.0, 0.9375, 5.09200617671012878},
	{6, 8.0, 30.0, 0.0009765625, 2.54309424546233817e-13},
	{6, 8.0, 30.0, 0.125, 3.06458128614483452},
	{6, 8.0, 30.0, 0.5, 4.49456507340073586e-3},
	{6, 8.0, 30.0, 0.9375, 2.36639344863583858e-27},
	{6, 8.0, 500.0, 0.0009765625, 4.26277538499436426e-4},
	{6, 8.0, 500.0, 0.125, 4.50731422658632208e-18},
	{6, 8.0, 500.0, 0.5, 3.91157336939504977e-135},
	{6, 8.0, 500.0, 0.9375, 0.0},
	{6, 60.0, 0.5, 0.0009765625, 1.07673948387971227e-177},
	{6, 60.0, 0.5, 0.125, 2.43378752176771414e-53},
	{6, 60.0, 0.5, 0.5, 1.06989503668465775e-17},
	{6, 60.0, 0.5, 0.9375, 3.8722306485377149e-1},
	{6, 60.0, 1.0, 0.0009765625, 1.480654765119212e-176},
	{6, 60.0, 1.0, 0.125, 3.13214614463929177e-52},
	{6, 60.0, 1.0, 0.5, 1.04083408558608426e-16},
	{6, 60.0, 1.0, 0.9375, 1.33185381168169926},
	{6, 60.0, 30.0, 0.0009765625, 3.22944620571530902e-153},
	{6, 60.0, 30.0, 0.125, 1.46236292006585795e-30},
	{6, 60.0, 30.0, 0.5, 4.3500198920468324e-2},
	{6, 60.0, 30.0, 0.9375, 3.59713445983441402e-12},
	{6, 60.0, 500.0, 0.0009765625, 2.86120577551792418e-95},
	{6, 60.0, 500.0, 0.125, 1.13682313010459703e+1},
	{6, 60.0, 500.0, 0.5, 2.00099542263097647e-85},
	{6, 60.0, 500.0, 0.9375, 0.0},
	{6, 1000.0, 0.5, 0.0009765625, 0.0},
	{6, 1000.0, 0.5, 0.125, 0.0},
	{6, 1000.0, 0.5, 0.5, 0.0},
	{6, 1000.0, 0.5, 0.9375, 7.12419653014563057e-27},
	{6, 1000.0, 1.0, 0.0009765625, 0.0},
	{6, 1000.0, 1.0, 0.125, 0.0},
	{6, 1000.0, 1.0, 0.5, 0.0},
	{6, 1000.0, 1.0, 0.9375, 9.98401266737429437e-26},
	{6, 1000.0, 30.0, 0.0009765625, 0.0},
	{6, 1000.0, 30.0, 0.125, 0.0},
	{6, 1000.0, 30.0, 0.5, 0.0},
	{6, 1000.0, 30.0, 0.9375, 2.09109675892327935e-4},
	{6, 1000.0, 500.0, 0.0009765625, 0.0},
	{6, 1000.0, 500.0, 0.125, 0.0},
	{6, 1000.0, 500.0, 0.5, 3.72578597188792014e-36},
	{6, 1000.0, 500.0, 0.9375, 4.54553688148599572e-214},
	{7, 0.5, 0.0001220703125, 0.0001220703125, 4.096e+3},
	{7, 0.5, 0.0001220703125, 0.0001239776611328125, 4.00184141097273373e+3},
	{7, 0.5, 0.0001220703125, 0.000244140625, 1.44815468787004933e+3},
	{7, 0.5, 0.5, 0.5, 1.0},
	{7, 0.5, 0.5, 0.5078125, 9.7701206322576507e-1},
	{7, 0.5, 0.5, 1.0, 3.53553390593273762e-1},
	{7, 0.5, 3.0, 3.0, 1.66666666666666667e-1},
	{7, 0.5, 3.0, 3.046875, 1.62835343870960845e-1},
	{7, 0.5, 3.0, 6.0, 5.89255650988789604e-2},
	{7, 0.5, 8192.0, 8192.0, 6.103515625e-5},
	{7, 0.5, 8192.0, 8320.0, 5.96320839371194501e-5},
	{7, 0.5, 8192.0, 16384.0, 2.15791864375777443e-5},
	{7, 1.0, 0.0001220703125, 0.0001220703125, 8.192e+3},
	{7, 1.0, 0.0001220703125, 0.0001239776611328125, 7.94187739644970414e+3},
	{7, 1.0, 0.0001220703125, 0.000244140625, 2.048e+3},
	{7, 1.0, 0.5, 0.5, 2.0},
	{7, 1.0, 0.5, 0.5078125, 1.93893491124260355},
	{7, 1.0, 0.5, 1.0, 5.0e-1},
	{7, 1.0, 3.0, 3.0, 3.33333333333333333e-1},
	{7, 1.0, 3.0, 3.046875, 3.23155818540433925e-1},
	{7, 1.0, 3.0, 6.0, 8.33333333333333333e-2},
	{7, 1.0, 8192.0, 8192.0, 1.220703125e-4},
	{7, 1.0, 8192.0, 8320.0, 1.18343195266272189e-4},
	{7, 1.0, 8192.0, 16384.0, 3.0517578125e-5},
	{7, 8.0, 0.0001220703125, 0.0001220703125, 6.5536e+4},
	{7, 8.0, 0.0001220703125, 0.0001239776611328125, 5.70006078124094192e+4},
	{7, 8.0, 0.0001220703125, 0.000244140625, 1.28e+2},
	{7, 8.0, 0.5, 0.5, 1.6e+1},
	{7, 8.0, 0.5, 0.5078125, 1.39161640167015184e+1},
	{7, 8.0, 0.5, 1.0, 3.125e-2},
	{7, 8.0, 3.0, 3.0, 2.66666666666666667},
	{7, 8.0, 3.0, 3.046875, 2.31936066945025306},
	{7, 8.0, 3.0, 6.0, 5.20833333333333333e-3},
	{7, 8.0, 8192.0, 8192.0, 9.765625e-4},
	{7, 8.0, 8192.0, 8320.0, 8.49375245160004782e-4},
	{7, 8.0, 8192.0, 16384.0, 1.9073486328125e-6},
	{7, 100.0, 0.0001220703125, 0.0001220703125, 8.192e+5},
	{7, 100.0, 0.0001220703125, 0.0001239776611328125, 1.71126904724966201e+5},
	{7, 100.0, 0.0001220703125, 0.000244140625, 3.23117426778526435e-25},
	{7, 100.0, 0.5, 0.5, 2.0e+2},
	{7, 100.0, 0.5, 0.5078125, 4.17790294738687013e+1},
	{7, 100.0, 0.5, 1.0, 7.88860905221011805e-29},
	{7, 100.0, 3.0, 3.0, 3.33333333333333333e+1},
	{7, 100.0, 3.0, 3.046875, 6.96317157897811689},
	{7, 100.0, 3.0, 6.0, 1.31476817536835301e-29},
	{7, 100.0, 8192.0, 8192.0, 1.220703125e-2},
	{7, 100.0, 8192.0, 8320.0, 2.54998959191093148e-3},
	{7, 100.0, 8192.0, 16384.0, 4.81482486096808963e-33},
	{7, 1000.0, 0.0001220703125, 0.0001220703125, 8.192e+6},
	{7, 1000.0, 0.0001220703125, 0.0001239776611328125, 1.49030068820221416},
	{7, 1000.0, 0.0001220703125, 0.000244140625, 0.0},
	{7, 1000.0, 0.5, 0.5, 2.0e+3},
	{7, 1000.0, 0.5, 0.5078125, 3.63842941455618691e-4},
	{7, 1000.0, 0.5, 1.0, 0.0},
	{7, 1000.0, 3.0, 3.0, 3.33333333333333333e+2},
	{7, 1000.0, 3.0, 3.046875, 6.06404902426031152e-5},
	{7, 1000.0, 3.0, 6.0, 0.0},
	{7, 1000.0, 8192.0, 8192.0, 1.220703125e-1},
	{7, 1000.0, 8192.0, 8320.0, 2.22072107822032893e-8},
	{7, 1000.0, 8192.0, 16384.0, 0.0},
};
static void near(real v, real w, const char* id) { if (w == 0) sym_check(v >= 0 && v < 1E-240, id); else { real e = v / w - 1; sym_check(e < 1E-8 && e > -1E-8, id); } }
HARNESS(poisson, "mode=fp t=120 nosum=all max_values=77 nosample", "poisson masses of counts up to 20000 and means up to 20000, at the points of a table") {
	int i = (int) sym_choose("i", 0, 71); real a = T[i][1], b = T[i][2], x = T[i][3], w = T[i][4]; errno = 0; near(distribution::poisson((unsigned) x, a), w, "density"); vec<real> t = {a}; near(distribution::poisson(x, t), w, "wrapper"); sym_check(errno == 0, "no error");
}
HARNESS(binomial, "mode=fp t=120 nosum=all max_values=95 nosample", "binomial masses of 400 to 10000 trials, at the points of a table") {
	int i = (int) sym_choose("i", 72, 161); real a = T[i][1], b = T[i][2], x = T[i][3], w = T[i][4]; errno = 0; near(distribution::binomial((unsigned) x, (unsigned) a, b), w, "density"); vec<real> t = {a, b}; near(distribution::binomial(x, t), w, "wrapper"); sym_check(errno == 0, "no error");
}
HARNESS(chi_squared, "mode=fp t=120 nosum=all max_values=89 nosample", "chi-squared densities of 61 to 10000 degrees of freedom, precomputed and vector forms, at the points of a table") {
	int i = (int) sym_choose("i", 162, 245); real a = T[i][1], b = T[i][2], x = T[i][3], w = T[i][4]; errno = 0; near(distribution::chi_squared(x, (unsigned) a), w, "density"); vec<real> t = {a}; near(distribution::chi_squared(x, t), w, "wrapper"); if (a < 342) near(distribution::chi_squared(x, (unsigned) a, special::half_gamma((unsigned) a)), w, "precomputed"); sym_check(errno == 0, "no error");
}
HARNESS(student, "mode=fp t=120 nosum=all max_values=77 nosample", "student densities of 1 to 10000 degrees of freedom, points up to 1e6, at the points of a table") {
	int i = (int) sym_choose("i", 246, 317); real a = T[i][1], b = T[i][2], x = T[i][3], w = T[i][4]; errno = 0; near(distribution::student(x, (unsigned) a), w, "density"); vec<real> t = {a}; near(distribution::student(x, t), w, "wrapper"); sym_check(errno == 0, "no error");
}
HARNESS(gamma, "mode=fp t=120 nosum=all max_values=149 nosample", "gamma densities of shapes 0.5 to 5000 and rates 2^-13 to 8192, at the points of a table") {
	int i = (int) sym_choose("i", 318, 461); real a = T[i][1], b = T[i][2], x = T[i][3], w = T[i][4]; errno = 0; near(distribution::gamma(x, a, b), w, "density"); vec<real> t = {a, b}; near(distribution::gamma(x, t), w, "wrapper"); sym_check(errno == 0, "no error");
}
HARNESS(erlang, "mode=fp t=120 nosum=all max_values=113 nosample", "erlang densities of shapes 1 to 5000 and rates 2^-13 to 8192, at the points of a table") {
	int i = (int) sym_choose("i", 462, 569); real a = T[i][1], b = T[i][2], x = T[i][3], w = T[i][4]; errno = 0; near(distribution::erlang(x, (unsigned) a, b), w, "density"); vec<real> t = {a, b}; near(distribution::erlang(x, t), w, "wrapper"); sym_check(errno == 0, "no error");
}
HARNESS(beta, "mode=fp t=120 nosum=all max_values=85 nosample", "beta densities of shapes 0.5 to 1000, at the points of a table") {
	int i = (int) sym_choose("i", 570, 649); real a = T[i][1], b = T[i][2], x = T[i][3], w = T[i][4]; errno = 0; near(distribution::beta(x, a, b), w, "density"); vec<real> t = {a, b}; near(distribution::beta(x, t), w, "wrapper"); sym_check(errno == 0, "no error");
}
HARNESS(pareto, "mode=fp t=120 nosum=all max_values=65 nosample", "pareto densities of exponents 0.5 to 1000 and minima 2^-13 to 8192, at the points of a table") {
	int i = (int) sym_choose("i", 650, 709); real a = T[i][1], b = T[i][2], x = T[i][3], w = T[i][4]; errno = 0; near(distribution::pareto(x, b, a), w, "density"); vec<real> t = {b, a}; near(distribution::pareto(x, t), w, "wrapper"); sym_check(errno == 0, "no error");
}

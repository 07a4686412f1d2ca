# writes harness/points.h: points of every magnitude and the values of the elementary functions there (40 digits rounded to double)
import mpmath as mp
mp.mp.dps = 60
P = [1e-300, 1e-15, 1e-12, 1e-9, 3e-7, 1e-5, 0.0005, 0.00099, 0.00101, 0.01, 0.05, 0.1, 0.3, 0.5, 0.7, 0.9375, 1, 1.1, 1.5, 2, 2.5, 3, 4, 5, 6.5, 8, 12.25, 13, 18.5, 25, 40, 100.5, 300, 700]
S = [-x for x in P] + P
near = [mp.pi / 2, -mp.pi / 2, 3 * mp.pi / 2, mp.pi, -mp.pi, 2 * mp.pi, -2 * mp.pi, 5 * mp.pi]
trig = [x for x in S if abs(x) > 1e-290] + [float(n + s * d) for n in near for d in (1e-9, 1e-6, 1e-3, 0.1) for s in (-1, 1)] + [1000.25, -1000.25, 20000.125, -20000.125]
unit = [x for x in S if abs(x) < 1] + [0.99, -0.99, 0.9999, -0.9999, 0.99999999, -0.99999999]
pos = P[1:] + [1e10, 1e-30, 1e30, 1e100, 1e-100, 1e300, 65536, 0.25, 1023.999, 1048577]
ge1 = [x for x in P if x >= 1] + [1.0001, 1.01, 1e5, 1e8, 1e12]
o = '// generated by tools/gen_points.py\n#ifndef POINTS_H\n#define POINTS_H\nstruct point { double x, y; };\n'
def tab(name, f, xs):
    global o
    xs = [float(x) for x in xs]
    v = [(x, f(mp.mpf(x))) for x in xs]
    v = [(x, y) for x, y in v if abs(y) < mp.mpf(10) ** 305 and (y == 0 or abs(y) > mp.mpf(10) ** -305)]
    o += 'static const point %s[] = {%s};\nstatic const int N_%s = %d;\n' % (name, ', '.join('{%r, %s}' % (x, mp.nstr(y, 19)) for x, y in v), name, len(v))
ex = lambda x: mp.exp(x)
tab('P_EXP', mp.exp, S); tab('P_EXPM1', mp.expm1, S)
tab('P_SINH', mp.sinh, S); tab('P_COSH', mp.cosh, S); tab('P_TANH', mp.tanh, S); tab('P_COTH', mp.coth, [x for x in S if abs(x) > 1e-14])
tab('P_SIGMOID', lambda x: 1 / (1 + mp.exp(-x)), S)
tab('P_ASINH', mp.asinh, S + [1e5, -1e5, 1e10, -1e10]); tab('P_ACOSH', mp.acosh, ge1); tab('P_ATANH', mp.atanh, unit)
tab('P_ASIN', mp.asin, unit); tab('P_ACOS', mp.acos, unit); tab('P_ATAN', mp.atan, S + [1e4, -1e5, 1e6, 2e6, -5e6, 8e6, 1e8, -1e8, 1e20])
tab('P_SIN', mp.sin, trig); tab('P_COS', mp.cos, trig); tab('P_TAN', mp.tan, trig); tab('P_COT', mp.cot, [x for x in trig if abs(x) > 1e-13])
tab('P_SINC', lambda x: mp.sin(mp.pi * x) / (mp.pi * x), [x for x in S if x != int(x) and abs(x) < 50] + [1e-6, 5e-6, -2e-6, 100.5, -777.25, 1000.5, 1234.75, -4321.25, 20000.5, 1e5 + 0.5, -1e6 - 0.25])
tab('P_LN', mp.log, pos); tab('P_LOG2', lambda x: mp.log(x) / mp.log(2), pos); tab('P_LOG10', mp.log10, pos)
tab('P_SQRT', mp.sqrt, pos); tab('P_CBRT', lambda x: mp.sign(x) * mp.cbrt(abs(x)), pos + [-x for x in pos])
pw = [(x, a) for x in (0.01, 0.5, 0.9, 1, 1.5, 7, 100) for a in (-10.5, -1, -0.5, -1e-3, 0, 1e-3, 0.3, 0.5, 1, 2.5, 30)]
o += 'struct point3 { double x, a, y; };\nstatic const point3 P_POWF[] = {%s};\nstatic const int N_P_POWF = %d;\n' % (', '.join('{%r, %r, %s}' % (x, a, mp.nstr(mp.power(mp.mpf(x), mp.mpf(a)), 19)) for x, a in pw), len(pw))
o += '#endif\n'
open('harness/points.h', 'w').write(o)

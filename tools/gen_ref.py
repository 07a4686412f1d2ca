# writes harness/ref_tables.h: values of exp, ln, atan, sin, cos at cell centres, 60 digits rounded to double
import mpmath as mp
mp.mp.dps = 40
def arr(name, f, xs):
    return 'static const double %s[] = {%s};\n' % (name, ', '.join(mp.nstr(f(x), 19) for x in xs))
o = '// generated by tools/gen_ref.py\n#ifndef REF_TABLES_H\n#define REF_TABLES_H\n'
K = range(-64, 64)
c = [mp.mpf(2 * k + 1) / 16 for k in K]   # centres of [k/8,(k+1)/8], k = -64..63
o += arr('REF_EXP', mp.exp, c) + arr('REF_SIN', mp.sin, c) + arr('REF_COS', mp.cos, c)
m = [1 + mp.mpf(2 * k + 1) / 16 for k in range(8)]   # centres of the 8 cells of [1,2)
o += arr('REF_LN', mp.log, m)
a = [mp.mpf(2 * k + 1) / 16 for k in range(8)]       # centres of the 8 cells of [0,1)
o += arr('REF_ATAN', mp.atan, a)
o += 'static const double REF_LN2 = %s;\n' % mp.nstr(mp.log(2), 19)
# Taylor coefficients of lngamma at the centres of [1+k/8, 1+(k+1)/8], k = 0..31
o += 'static const double REF_LG[][9] = {\n'
for k in range(32):
    c0 = 1 + mp.mpf(2 * k + 1) / 16
    co = [mp.loggamma(c0)] + [mp.polygamma(n - 1, c0) / mp.factorial(n) for n in range(1, 9)]
    o += '\t{%s},\n' % ', '.join(mp.nstr(x, 19) for x in co)
o += '};\n'
o += '#endif\n'
open('harness/ref_tables.h', 'w').write(o)

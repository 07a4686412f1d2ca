// C37 ratios
#include "sym.h"
#include "theoretica.h"
#include "core/ratio.h"
#include "polynomial/polynomial.h"
using namespace theoretica;
namespace th = theoretica;
typedef ratio<real> R;
typedef ratio<int64_t> Z;
typedef ratio<polynomial<real>> P;
// two ratios are the same fraction
static void req(const R& r, real n, real d, const char* id) { sym_eq(r.num * d, r.den * n, id); sym_check(r.den != 0, id); }
static R rin(const char* n) {
	R r(sym_real(nm(n, 0)), sym_real(nm(n, 1)));
	sym_assume(r.den != 0);
	return r;
}
HARNESS(real_field, "t=60", "sums, differences, products and quotients of real ratios are those of the fractions; operands are unchanged") {
	R p = rin("p"), q = rin("q");
	real k = sym_real("k");
	real pn = p.num, pd = p.den, qn = q.num, qd = q.den;
	req(p + q, pn * qd + qn * pd, pd * qd, "+"); req(p - q, pn * qd - qn * pd, pd * qd, "-"); req(p * q, pn * qn, pd * qd, "*");
	req(p * k, pn * k, pd, "* factor");
	if (k != 0)
		req(p / k, pn, pd * k, "/ factor");
	if (qn != 0) {
		req(p / q, pn * qd, pd * qn, "/");
		req(q / q, 1, 1, "self quotient");
	}
	req(p - p, 0, 1, "self difference");
	sym_eq(p.num, pn, "operand"); sym_eq(p.den, pd, "operand"); sym_eq(q.num, qn, "operand"); sym_eq(q.den, qd, "operand");
	sym_eq(p.eval() * pd, pn, "eval"); sym_eq((real) p * pd, pn, "conversion"); sym_eq(p.eval_as<real>() * pd, pn, "eval_as");
	R d;
	sym_eq(d.num, 0, "default"); sym_eq(d.den, 0, "default");
}
HARNESS(integers, "t=60", "integer ratios: exact cross products, truncated and real evaluation, small 16-bit operands") {
	int64_t a = sym_int_in("a", -200, 200), b = sym_int_in("b", 1, 200), c = sym_int_in("c", -200, 200), d = sym_int_in("d", 1, 200);
	Z p(a, b), q(c, d);
	Z s = p + q, m = p - q, t = p * q;
	sym_check(s.num * (b * d) == s.den * (a * d + c * b) && s.den != 0, "+");
	sym_check(m.num * (b * d) == m.den * (a * d - c * b) && m.den != 0, "-");
	sym_check(t.num * (b * d) == t.den * (a * c) && t.den != 0, "*");
	if (c != 0) {
		Z u = p / q;
		sym_check(u.num * (b * c) == u.den * (a * d) && u.den != 0, "/");
	}
	sym_check(p.eval() == a / b, "eval truncates");
	Z w = p * d;
	sym_check(w.num * b == w.den * (a * d), "* factor");
	Z v = p / d;
	sym_check(v.num * (b * d) == v.den * a, "/ factor");
}
HARNESS(integers_real, "t=60", "integer ratios evaluated as reals are the exact quotient") {
	int64_t a = sym_choose("a", -6, 6), b = sym_choose("b", -4, 4);
	sym_assume(b != 0);
	Z p(a, b);
	sym_eq(p.eval_as<real>() * (real) b, (real) a, "eval_as<real>");
	ratio<int, real> m(a, (real) b);
	sym_eq(m.eval() * (real) b, (real) a, "mixed types divide as the denominator's type");
	sym_eq((real) m * (real) b, (real) a, "mixed conversion");
}
HARNESS(polynomials, "t=60", "rational polynomials of degree up to 2: field operations agree at every point") {
	unsigned n = sym_choose("n", 1, 3), m = sym_choose("m", 1, 3);
	real x = sym_real("x");
	polynomial<real> a(std::vector<real>(n, 0.0)), b(std::vector<real>(m, 0.0)), c(std::vector<real>(2, 0.0)), d(std::vector<real>(n, 0.0));
	for (unsigned i = 0; i < n; ++i) { a[i] = sym_real(nm("a", i)); d[i] = sym_real(nm("d", i)); }
	for (unsigned i = 0; i < m; ++i) b[i] = sym_real(nm("b", i));
	for (unsigned i = 0; i < 2; ++i) c[i] = sym_real(nm("c", i));
	P p(a, b), q(c, d);
	real A = a(x), B = b(x), C = c(x), D = d(x);
	P s = p + q, u = p - q, t = p * q, v = p / q;
	sym_eq(s.num(x) * (B * D), s.den(x) * (A * D + C * B), "+"); sym_eq(u.num(x) * (B * D), u.den(x) * (A * D - C * B), "-");
	sym_eq(t.num(x) * (B * D), t.den(x) * (A * C), "*"); sym_eq(v.num(x) * (B * C), v.den(x) * (A * D), "/");
	if (B * D != 0)
		sym_check(s.den(x) != 0 && u.den(x) != 0 && t.den(x) != 0, "denominators");
	if (B * C != 0)
		sym_check(v.den(x) != 0, "denominator");
	P w = p * a, z = p / b;
	sym_eq(w.num(x) * B, w.den(x) * A * A, "* factor"); sym_eq(z.num(x) * B * B, z.den(x) * A, "/ factor");
}

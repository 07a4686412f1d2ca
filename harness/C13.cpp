// C13 matrices: storage, element-wise operations, products
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef complex<real> cx;
typedef mat<real> M;
typedef vec<real> V;
static real ent(const char* n, int i, int j) { return sym_real(nm(n, i, j)); }
template<typename A> static A min_(const char* n, int r, int c) { A m; m.resize(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = ent(n, i, j); return m; }
template<typename A> static bool iserr(const A& m) { bool r = true; for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) if (i == j) r = r && sym_isnan(m(i, j)); return r; }
template<typename W> static bool allnan(const W& v) { bool r = true; for (unsigned i = 0; i < v.size(); ++i) r = r && sym_isnan(v[i]); return r; }
template<typename A, typename B> static void same(const A& a, const B& b, const char* id) {
	sym_check(a.rows() == b.rows() && a.cols() == b.cols(), id);
	if (a.rows() == b.rows() && a.cols() == b.cols()) for (unsigned i = 0; i < a.rows(); ++i) for (unsigned j = 0; j < a.cols(); ++j) sym_eq(a(i, j), b(i, j), id);
}
#ifdef THOROUGH
#define NM 5
#else
#define NM 4
#endif

template<typename A> static void storage(int r, int c) {
	A m; m.resize(r, c);
	sym_check(m.rows() == (unsigned) r && m.cols() == (unsigned) c && m.size() == (unsigned)(r * c), "shape");
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = ent("a", i, j);
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(m(i, j), ent("a", i, j), "every element is distinct"); sym_eq(m.get(i, j), ent("a", i, j), "get"); sym_eq(m.at(i, j), ent("a", i, j), "at"); }
	A n = m; n(r - 1, 0) += 1; sym_eq(m(r - 1, 0), ent("a", r - 1, 0), "copies do not alias");
	real s = 0, e = 0; for (real x : m) s = 2 * s + x; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) e = 2 * e + ent("a", i, j);
	sym_eq(s, e, "iteration by rows");
	const A k = m; s = 0; for (real x : k) s = 2 * s + x; sym_eq(s, e, "const iteration");
	for (real& x : m) x = -x; same(m, k * -1.0, "writing iteration");
	m.make_zeroes(); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(m(i, j), 0, "zeroes");
}
HARNESS(storage_d, "t=60", "dynamic r x c, 1..4: elements are independent, accessors and iterators agree") { int r = (int) sym_choose("r", 1, NM), c = (int) sym_choose("c", 1, NM); storage<M>(r, c); }
HARNESS(storage_s23, "t=30", "fixed 2x3") { storage<mat<real, 2, 3>>(2, 3); }
HARNESS(storage_s31, "t=30", "fixed 3x1") { storage<mat<real, 3, 1>>(3, 1); }
HARNESS(storage_s44, "t=30", "fixed 4x4") { storage<mat<real, 4, 4>>(4, 4); }
HARNESS(resize, "t=60", "resizing keeps the common elements in place and zeroes the new ones, 0..3 x 0..3 to 0..3 x 0..3") {
	int r = (int) sym_choose("r", 0, 3), c = (int) sym_choose("c", 0, 3), p = (int) sym_choose("p", 0, 3), q = (int) sym_choose("q", 0, 3);
	M m = min_<M>("a", r, c); M& x = m.resize(p, q);
	sym_check(&x == &m && m.rows() == (unsigned) p && m.cols() == (unsigned) q && m.size() == (unsigned)(p * q), "shape");
	for (int i = 0; i < p; ++i) for (int j = 0; j < q; ++j) sym_eq(m(i, j), i < r && j < c ? ent("a", i, j) : 0, "elements");
}

template<typename A> static void linear(int r, int c) {
	A a = min_<A>("a", r, c), b = min_<A>("b", r, c), a0 = a, b0 = b;
	real k = sym_real("k");
	A s = a + b, d = a - b, m = a * k, l = k * a;
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) {
		sym_eq(s(i, j), ent("a", i, j) + ent("b", i, j), "+"); sym_eq(d(i, j), ent("a", i, j) - ent("b", i, j), "-");
		sym_eq(m(i, j), k * ent("a", i, j), "A*k"); sym_eq(l(i, j), k * ent("a", i, j), "k*A");
	}
	A t = a; t += b; same(t, s, "+="); t = a; t -= b; same(t, d, "-="); t = a; t *= k; same(t, m, "*=");
	t = a; t += t; same(t, a * 2.0, "+= self"); t = a; t -= t; same(t, a * 0.0, "-= self");
	same(a, a0, "operand unchanged"); same(b, b0, "operand unchanged");
	errno = 0;
	if (k >= MACH_EPSILON || k <= -MACH_EPSILON) {
		A q = a / k; t = a; t /= k;
		for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(q(i, j) * k, ent("a", i, j), "/"); sym_eq(t(i, j) * k, ent("a", i, j), "/="); }
		sym_check(errno == 0, "no error");
	} else {
		A q = a / k; sym_check(errno == ERANGE && iserr(q), "/ 0");
		errno = 0; t = a; t /= k; sym_check(errno == ERANGE && iserr(t), "/= 0");
	}
}
HARNESS(linear_d, "t=60", "sum, difference and scalar operations in all forms, dynamic 1..4 x 1..4") { int r = (int) sym_choose("r", 1, NM), c = (int) sym_choose("c", 1, NM); linear<M>(r, c); }
HARNESS(linear_s23, "t=30", "the same, fixed 2x3") { linear<mat<real, 2, 3>>(2, 3); }
HARNESS(linear_s41, "t=30", "the same, fixed 4x1") { linear<mat<real, 4, 1>>(4, 1); }
HARNESS(linear_s33, "t=30", "the same, fixed 3x3") { linear<mat<real, 3, 3>>(3, 3); }
HARNESS(linear_mixed, "t=30", "fixed with dynamic operands") {
	mat<real, 2, 3> a = min_<mat<real, 2, 3>>("a", 2, 3); M b = min_<M>("b", 2, 3);
	mat<real, 2, 3> s = a + b, d = a - b; M s2 = b + a, d2 = b - a;
	for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { real x = ent("a", i, j), y = ent("b", i, j); sym_eq(s(i, j), x + y, "+"); sym_eq(d(i, j), x - y, "-"); sym_eq(s2(i, j), x + y, "+"); sym_eq(d2(i, j), y - x, "-"); }
	mat<real, 2, 3> t = a; t += b; same(t, s, "+="); t = a; t -= b; same(t, d, "-="); M u = b; u += a; same(u, s, "+="); u = b; u -= a; same(u, d2, "-=");
}

template<typename A, typename B> static void product_check(const A& p, int r, int q, int c, const char* id) {
	sym_check(p.rows() == (unsigned) r && p.cols() == (unsigned) c, id);
	if (p.rows() != (unsigned) r || p.cols() != (unsigned) c) return;
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { real s = 0; for (int k = 0; k < q; ++k) s += ent("a", i, k) * ent("b", k, j); sym_eq(p(i, j), s, id); }
}
HARNESS(product_d, "t=120", "matrix product in all forms (and with a transposed factor), dynamic, 1..3 (thorough 4) in every dimension") {
	int r = (int) sym_choose("r", 1, NM - 1), q = (int) sym_choose("q", 1, NM - 1), c = (int) sym_choose("c", 1, NM - 1);
	M a = min_<M>("a", r, q), b = min_<M>("b", q, c), a0 = a, b0 = b;
	errno = 0;
	product_check<M, M>(a * b, r, q, c, "*"); product_check<M, M>(a.mul(b), r, q, c, "mul"); product_check<M, M>(algebra::mat_mul(a, b), r, q, c, "mat_mul");
	M t; t.resize(r, c); algebra::mat_mul(t, a, b); product_check<M, M>(t, r, q, c, "mat_mul into");
	t = a; t *= b; product_check<M, M>(t, r, q, c, "*=");
	M at = algebra::transpose(a), bt = algebra::transpose(b);
	product_check<M, M>(algebra::mat_transpose_mul(at, b), r, q, c, "mat_transpose_mul"); product_check<M, M>(algebra::mat_mul_transpose(a, bt), r, q, c, "mat_mul_transpose");
	sym_check(errno == 0, "no error");
	same(a, a0, "operand unchanged"); same(b, b0, "operand unchanged");
}
HARNESS(product_s, "t=60", "matrix product, fixed 2x3 by 3x4, square, and mixed with dynamic") {
	mat<real, 2, 3> a = min_<mat<real, 2, 3>>("a", 2, 3); mat<real, 3, 4> b = min_<mat<real, 3, 4>>("b", 3, 4); M d = min_<M>("b", 3, 4), e = min_<M>("a", 2, 3);
	errno = 0;
	product_check<mat<real, 2, 4>, M>(a * b, 2, 3, 4, "*"); product_check<mat<real, 2, 4>, M>(a.mul(b), 2, 3, 4, "mul");
	product_check<M, M>(a * d, 2, 3, 4, "fixed * dynamic"); product_check<M, M>(a.mul(d), 2, 3, 4, "fixed mul dynamic");
	product_check<mat<real, 3, 3>, M>(min_<mat<real, 3, 3>>("a", 3, 3).mul(min_<mat<real, 3, 3>>("b", 3, 3)), 3, 3, 3, "fixed mul fixed"); M g = min_<M>("b", 2, 4); errno = 0; M h = a.mul(g); sym_check(errno == EINVAL && iserr(h), "fixed mul mismatching"); errno = 0; h = a * g; sym_check(errno == EINVAL && iserr(h), "fixed * mismatching"); errno = 0;
	mat<real, 2, 4> t; algebra::mat_mul(t, e, b); product_check<mat<real, 2, 4>, M>(t, 2, 3, 4, "mat_mul into fixed");
	sym_check(errno == 0, "no error");
}
HARNESS(product_s33, "t=60", "matrix product, fixed square: *, *=, mul, square of itself") {
	typedef mat<real, 3, 3> S;
	S a = min_<S>("a", 3, 3), b = min_<S>("b", 3, 3);
	product_check<S, S>(a * b, 3, 3, 3, "*"); S t = a; t *= b; product_check<S, S>(t, 3, 3, 3, "*=");
	t = a; t *= t; same(t, a * a, "*= self");
}
template<typename W, typename A, typename X> static void transform_check(const W& w, const A& a, const X& v, const char* id) {
	sym_check(w.size() == a.rows(), id); if (w.size() != a.rows()) return;
	for (unsigned i = 0; i < a.rows(); ++i) { real s = 0; for (unsigned j = 0; j < a.cols(); ++j) s += a(i, j) * v[j]; sym_eq(w[i], s, id); }
}
HARNESS(transform_d, "t=60", "matrix-vector and vector-matrix products, dynamic 1..4 x 1..4, every form") {
	int r = (int) sym_choose("r", 1, NM), c = (int) sym_choose("c", 1, NM);
	M a = min_<M>("a", r, c); V v(c), u(r); for (int i = 0; i < c; ++i) v[i] = sym_real(nm("v", i)); for (int i = 0; i < r; ++i) u[i] = sym_real(nm("u", i));
	errno = 0;
	transform_check(a * v, a, v, "*"); transform_check(a.transform(v), a, v, "transform"); transform_check(algebra::transform(a, v), a, v, "algebra::transform");
	V w(r); algebra::transform(w, a, v); transform_check(w, a, v, "transform into");
	w = v; V& x = algebra::apply_transform(a, w); sym_check(&x == &w, "returns its argument"); transform_check(w, a, v, "apply_transform");
	w = operator*(u, a); sym_check(w.size() == (unsigned) c, "row vector size");
	for (int j = 0; j < c; ++j) { real s = 0; for (int i = 0; i < r; ++i) s += u[i] * a(i, j); sym_eq(w[j], s, "vector * matrix"); }
	std::vector<real> sv(c); for (int i = 0; i < c; ++i) sv[i] = v[i]; transform_check(a.transform(sv), a, v, "std::vector");
	sym_check(errno == 0, "no error");
}
HARNESS(transform_s, "t=60", "matrix-vector products, fixed 2x3, 3x2 and 3x3, fixed and dynamic vectors") {
	mat<real, 2, 3> a = min_<mat<real, 2, 3>>("a", 2, 3); mat<real, 3, 2> b = min_<mat<real, 3, 2>>("b", 3, 2); mat<real, 3, 3> c = min_<mat<real, 3, 3>>("c", 3, 3); M d = min_<M>("d", 2, 3);
	vec<real, 3> v; vec<real, 2> u; for (int i = 0; i < 3; ++i) v[i] = sym_real(nm("v", i)); for (int i = 0; i < 2; ++i) u[i] = sym_real(nm("u", i));
	errno = 0;
	transform_check(a * v, a, v, "2x3"); transform_check(b * u, b, u, "3x2"); transform_check(c * v, c, v, "3x3"); transform_check(a.transform(v), a, v, "transform");
	transform_check(d * v, d, v, "dynamic * fixed");
	V w = v; transform_check(a.transform(w), a, w, "fixed by dynamic vector");
	vec<real, 3> r = operator*(u, a); for (int j = 0; j < 3; ++j) sym_eq(r[j], u[0] * a(0, j) + u[1] * a(1, j), "vector * matrix");
	vec<real, 3> t = v; algebra::apply_transform(c, t); transform_check(t, c, v, "apply_transform");
	sym_check(errno == 0, "no error");
}
HARNESS(mismatch, "t=120", "operands of mismatching shapes: error value and EINVAL in every operation, never an access outside; dynamic shapes 1..3 (and empty)") {
	int r = (int) sym_choose("r", 0, 3), c = (int) sym_choose("c", 1, 3), p = (int) sym_choose("p", 1, 3), q = (int) sym_choose("q", 1, 3);
	M a = min_<M>("a", r, c), b = min_<M>("b", p, q), t;
	if (r != p || c != q) {
		errno = 0; t = a + b; sym_check(errno == EINVAL && iserr(t), "+"); errno = 0; t = a - b; sym_check(errno == EINVAL && iserr(t), "-");
		errno = 0; t = a; t += b; sym_check(errno == EINVAL && iserr(t), "+="); errno = 0; t = a; t -= b; sym_check(errno == EINVAL && iserr(t), "-=");
		errno = 0; t = b; algebra::mat_sum(t, a, a); sym_check(errno == EINVAL && iserr(t), "sum into"); errno = 0; t = b; algebra::mat_diff(t, a, a); sym_check(errno == EINVAL && iserr(t), "diff into");
		errno = 0; t = b; algebra::mat_scalmul(t, 2.0, a); sym_check(errno == EINVAL && iserr(t), "scalmul into");
		errno = 0; t = a; algebra::mat_lincomb(1.0, t, 2.0, b); sym_check(errno == EINVAL && iserr(t), "lincomb");
		errno = 0; t = a; algebra::mat_lincomb(t, 1.0, a, 2.0, b); sym_check(errno == EINVAL && iserr(t), "lincomb into");
		errno = 0; t = b; algebra::mat_lincomb(t, 1.0, a, 2.0, a); sym_check(errno == EINVAL && iserr(t), "lincomb into the wrong shape");
		sym_check(!(a == b) && a != b, "different shapes are not equal");
	}
	if (c != p) {
		errno = 0; t = a * b; sym_check(errno == EINVAL && iserr(t), "*"); errno = 0; t = a.mul(b); sym_check(errno == EINVAL && iserr(t), "mul"); errno = 0; t = algebra::mat_mul(a, b); sym_check(errno == EINVAL && iserr(t), "mat_mul");
		errno = 0; t = M(); t.resize(r, q); algebra::mat_mul(t, a, b); sym_check(errno == EINVAL && iserr(t), "mat_mul into");
		V v(p); errno = 0; V w = a * v; sym_check(errno == EINVAL && allnan(w), "A*v"); errno = 0; w = algebra::transform(a, v); sym_check(errno == EINVAL && allnan(w), "transform"); errno = 0; w = a.transform(v); sym_check(errno == EINVAL && allnan(w), "member transform");
		errno = 0; w = v; algebra::apply_transform(a, w); sym_check(errno == EINVAL && allnan(w), "apply_transform");
		{ V z(a.rows(), 1.0); errno = 0; algebra::transform(z, a, v); sym_check(errno == EINVAL && allnan(z), "transform into"); }
		{ V ok(a.cols(), 1.0), z(a.rows() + 1, 1.0), y(a.rows() > 1 ? a.rows() - 1 : 4, 1.0); errno = 0; algebra::transform(z, a, ok); sym_check(errno == EINVAL && allnan(z), "transform into more"); errno = 0; algebra::transform(y, a, ok); sym_check(errno == EINVAL && allnan(y), "transform into fewer"); }
	} else { M x; x.resize(r + 1, q); errno = 0; algebra::mat_mul(x, a, b); sym_check(errno == EINVAL && iserr(x), "mat_mul into the wrong shape"); x.resize(r, q + 1); errno = 0; algebra::mat_mul(x, a, b); sym_check(errno == EINVAL && iserr(x), "mat_mul into the wrong shape"); }
	if (r != p) { errno = 0; t = algebra::mat_transpose_mul(a, b); sym_check(errno == EINVAL && iserr(t), "transpose_mul"); }
	if (c != q) { errno = 0; t = algebra::mat_mul_transpose(a, b); sym_check(errno == EINVAL && iserr(t), "mul_transpose"); }
	if (c != p || r != q) { errno = 0; t = b; algebra::transpose(t, a); sym_check(errno == EINVAL && iserr(t), "transpose into"); errno = 0; t = b; algebra::hermitian(t, a); sym_check(errno == EINVAL && iserr(t), "hermitian into"); }
	if (r != c) { errno = 0; t = a; algebra::make_transposed(t); sym_check(errno == EINVAL && iserr(t), "make_transposed"); errno = 0; t = a; algebra::make_hermitian(t); sym_check(errno == EINVAL && iserr(t), "make_hermitian"); }
}
HARNESS(copies, "t=60", "construction and assignment between fixed and dynamic copy every element; mismatching fixed shapes are rejected") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3);
	M a = min_<M>("a", r, c); mat<real, 2, 3> f = min_<mat<real, 2, 3>>("f", 2, 3);
	M b(a), d; same(b, a, "copy"); d = a; same(d, a, "assign"); d = d; same(d, a, "self assign"); d = M(3, 1); d = a; same(d, a, "reassign");
	M g(f); same(g, f, "dynamic from fixed"); g = a; g = f; same(g, f, "dynamic from fixed"); mat<real, 2, 3> h(f); same(h, f, "fixed copy");
	errno = 0; mat<real, 2, 3> k; k = a;
	if (r == 2 && c == 3) { sym_check(errno == 0, "no error"); same(k, a, "fixed from dynamic"); } else sym_check(errno == EINVAL && iserr(k), "fixed from another shape");
	errno = 0; mat<real, 2, 3> l(a); sym_check(errno == (r == 2 && c == 3 ? 0 : EINVAL), "fixed constructed from another shape");
}
HARNESS(construct, "t=60", "zero, diagonal, list constructors; identity, shift, swaps") {
	real x = sym_real("x"), y = sym_real("y"); int r = (int) sym_choose("r", 1, 4), c = (int) sym_choose("c", 1, 4);
	M z(r, c), d(x, r, c); mat<real, 3, 2> e(x); mat<real, 2, 2> g(x, 2, 2);
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(z(i, j), 0, "zero"); sym_eq(d(i, j), i == j ? x : 0, "diagonal"); }
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) sym_eq(e(i, j), i == j ? x : 0, "fixed diagonal");
	for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) sym_eq(g(i, j), i == j ? x : 0, "fixed diagonal");
	errno = 0; mat<real, 2, 2> gw(x, (unsigned) r, (unsigned) c); sym_check((errno == EINVAL) == (r != 2 || c != 2), "diagonal with the wrong shape");
	M l = {{x, y, 1.0}, {2.0, x, y}}; sym_check(l.rows() == 2 && l.cols() == 3, "list shape"); sym_eq(l(0, 0), x, "list"); sym_eq(l(0, 1), y, "list"); sym_eq(l(0, 2), 1, "list"); sym_eq(l(1, 0), 2, "list"); sym_eq(l(1, 1), x, "list"); sym_eq(l(1, 2), y, "list");
	mat<real, 2, 3> fl = {{x, y, 1.0}, {2.0, x, y}}; same(fl, l, "fixed list");
	errno = 0; M bad = {{x, y}, {x}}; sym_check(errno == EINVAL && sym_isnan(bad(0, 0)), "ragged list"); { typedef std::initializer_list<real> row; errno = 0; M em = {row{x, y}, row{}}; sym_check(errno == EINVAL && iserr(em), "empty row"); errno = 0; M el = {row{x, y}, row{y, x}, row{}}; sym_check(errno == EINVAL && iserr(el), "empty last row"); errno = 0; M ef = {row{}, row{x}}; sym_check(errno == EINVAL, "empty first row"); errno = 0; M ln = {row{x, y}, row{x, y, x}}; sym_check(errno == EINVAL && iserr(ln), "longer row"); } errno = 0; mat<real, 2, 2> fb = {{x, y}, {x}}; sym_check(errno == EINVAL && iserr(fb), "ragged fixed list"); errno = 0; mat<real, 2, 2> fc = {{x, y}}; sym_check(errno == EINVAL && iserr(fc), "short fixed list");
	M a = min_<M>("a", r, c), t = a; algebra::make_identity(t); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), i == j ? 1 : 0, "identity");
	t = a; algebra::mat_zeroes(t); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), 0, "zeroes");
	t = a; algebra::mat_shift_diagonal(t, x); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), a(i, j) + (i == j ? x : 0), "shift");
	t = a; algebra::mat_scalmul(x, t); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), a(i, j) * x, "scalmul");
	M b = min_<M>("b", r, c); t = a; algebra::mat_lincomb(x, t, y, b); M u(r, c); M& lr = algebra::mat_lincomb(u, x, a, y, b); sym_check(&lr == &u, "returns the result");
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(t(i, j), a(i, j) * x + b(i, j) * y, "lincomb"); sym_eq(u(i, j), a(i, j) * x + b(i, j) * y, "lincomb into"); }
}
HARNESS(swaps, "t=60", "row and column swaps exchange exactly the two lines; bad indices are rejected; shapes 1..3") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3), p = (int) sym_choose("p", 0, 3), q = (int) sym_choose("q", 0, 3);
	M a = min_<M>("a", r, c), t = a;
	errno = 0; algebra::mat_swap_rows(t, p, q);
	if (p >= r || q >= r) sym_check(errno == EINVAL && iserr(t), "bad rows");
	else { sym_check(errno == 0, "no error"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), a(i == p ? q : i == q ? p : i, j), "rows"); }
	t = a; errno = 0; algebra::mat_swap_cols(t, p, q);
	if (p >= c || q >= c) sym_check(errno == EINVAL && iserr(t), "bad cols");
	else { sym_check(errno == 0, "no error"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), a(i, j == p ? q : j == q ? p : j), "cols"); }
}
HARNESS(transposes, "t=60", "transpose and hermitian conjugate, in place, out of place and into; trace, diagonal product; shapes 0..4") {
	int r = (int) sym_choose("r", 0, NM), c = (int) sym_choose("c", 0, NM);
	M a = min_<M>("a", r, c), t = algebra::transpose(a), u(c, r); algebra::transpose(u, a);
	sym_check(t.rows() == (unsigned) c && t.cols() == (unsigned) r, "shape"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(t(j, i), a(i, j), "transpose"); sym_eq(u(j, i), a(i, j), "transpose into"); }
	same(algebra::hermitian(a), t, "hermitian of reals");
	if (r == c) { u = a; algebra::make_transposed(u); same(u, t, "make_transposed"); u = a; u.transpose(); same(u, t, "member transpose"); }
	real s = 0, p = 1; for (int i = 0; i < r && i < c; ++i) { s += a(i, i); p *= a(i, i); }
	sym_eq(algebra::trace(a), s, "trace"); sym_eq(algebra::diagonal_product(a), p, "diagonal product");
}
HARNESS(transposes_fixed, "t=60", "transposes of fixed-size matrices") {
	mat<real, 2, 3> a = min_<mat<real, 2, 3>>("a", 2, 3); mat<real, 3, 2> t = algebra::transpose<mat<real, 2, 3>, mat<real, 3, 2>>(a), u; algebra::transpose(u, a);
	for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) { sym_eq(t(j, i), a(i, j), "transpose"); sym_eq(u(j, i), a(i, j), "transpose into"); }
	mat<real, 3, 3> s = min_<mat<real, 3, 3>>("s", 3, 3), v = s; v.transpose(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym_eq(v(i, j), s(j, i), "in place");
}
HARNESS(hermitian_complex, "t=60", "hermitian conjugation of complex matrices conjugates, transposition does not; 1..3") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3);
	mat<cx> a; a.resize(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) a(i, j) = cx(ent("a", i, j), ent("b", i, j));
	mat<cx> h = algebra::hermitian(a), t = algebra::transpose(a), g; g.resize(c, r); algebra::hermitian(g, a);
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(h(j, i).a, a(i, j).a, "Re"); sym_eq(h(j, i).b, -a(i, j).b, "Im"); sym_eq(g(j, i).b, -a(i, j).b, "Im into"); sym_eq(g(j, i).a, a(i, j).a, "Re into"); sym_eq(t(j, i).b, a(i, j).b, "transpose"); }
	if (r == c) {
		mat<cx> m = a, u = a, v = a; mat<cx>& R = algebra::make_hermitian(m); sym_check(&R == &m, "returns its argument"); algebra::make_transposed(u); v.transpose();
		for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(m(i, j).a, h(i, j).a, "in place"); sym_eq(m(i, j).b, h(i, j).b, "in place"); sym_eq(u(i, j).a, a(j, i).a, "transposed in place"); sym_eq(u(i, j).b, a(j, i).b, "transposed in place"); sym_eq(v(i, j).a, a(j, i).a, "member transpose"); sym_eq(v(i, j).b, a(j, i).b, "member transpose"); }
	} else { mat<cx> m = a; errno = 0; algebra::make_hermitian(m); sym_check(errno == EINVAL, "square only"); }
}
static bool big(real x, real t) { return x > t || x < -t; }
HARNESS(equals, "t=60", "== is element-wise equality within 10 machine epsilons, != its negation; shapes up to 4 elements") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3);
	if (r * c > 4) return;
	M a = min_<M>("a", r, c), b = min_<M>("b", r, c); bool eq = true;
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) eq = eq && !big(a(i, j) - b(i, j), 10 * MACH_EPSILON);
	sym_check((a == b) == eq, "=="); sym_check((a != b) == !eq, "!="); sym_check(algebra::mat_equals(a, b) == eq, "mat_equals");
}
HARNESS(density, "t=60", "density is the fraction of non-null elements, sparsity its complement; shapes up to 4 elements") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3);
	if (r * c > 4) return;
	M a = min_<M>("a", r, c); int nz = 0;
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) if (big(a(i, j), 1e-12)) nz++;
	sym_eq(algebra::density(a), real(nz) / (r * c), "density"); sym_eq(algebra::sparsity(a), 1 - real(nz) / (r * c), "sparsity");
}
template<typename F, typename G> static void predicate(F f, G off, const char* id) {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3);
	M a = min_<M>("a", r, c); bool e = true;
	for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) e = e && off(a, i, j);
	sym_check(f(a) == e, id);
}
HARNESS(is_diagonal, "t=60", "diagonal iff every element off the diagonal is null; shapes 1..3") { predicate([](const M& a) { return algebra::is_diagonal(a); }, [](const M& a, int i, int j) { return i == j || !big(a(i, j), 10 * MACH_EPSILON); }, "diagonal"); }
HARNESS(is_symmetric, "t=60", "symmetric iff square and equal to its transpose; shapes 1..3") { predicate([](const M& a) { return algebra::is_symmetric(a); }, [](const M& a, int i, int j) { return a.rows() == a.cols() && !big(a(i, j) - a(j, i), ALGEBRA_ELEMENT_TOL); }, "symmetric"); }
HARNESS(is_lower, "t=60", "lower triangular iff square and null above the diagonal; shapes 1..3") { predicate([](const M& a) { return algebra::is_lower_triangular(a); }, [](const M& a, int i, int j) { return a.rows() == a.cols() && (j <= i || !big(a(i, j), ALGEBRA_ELEMENT_TOL)); }, "lower"); }
HARNESS(is_upper, "t=60", "upper triangular iff square and null below the diagonal; shapes 1..3") { predicate([](const M& a) { return algebra::is_upper_triangular(a); }, [](const M& a, int i, int j) { return a.rows() == a.cols() && (j >= i || !big(a(i, j), ALGEBRA_ELEMENT_TOL)); }, "upper"); }
HARNESS(is_square, "t=60", "square iff as many rows as columns") { predicate([](const M& a) { return algebra::is_square(a); }, [](const M& a, int i, int j) { return a.rows() == a.cols(); }, "square"); }
static void shape(int& r, int& c) { static const int R[] = {5, 8, 7, 1, 9, 12}, C[] = {5, 8, 3, 17, 1, 12}; int k = (int) sym_choose("shape", 0, 5); r = R[k]; c = C[k]; }
HARNESS(large_storage, "t=60", "storage, dynamic 5x5, 8x8, 7x3, 1x17, 9x1 and 12x12") { int r, c; shape(r, c); storage<M>(r, c); }
HARNESS(large_linear, "t=60", "sum, difference and scalar operations in all forms, the same shapes") { int r, c; shape(r, c); linear<M>(r, c); }
HARNESS(large_fixed, "t=60", "storage and linear operations, fixed 6x5 and 8x8") { if (sym_choose("s", 0, 1)) { storage<mat<real, 6, 5>>(6, 5); linear<mat<real, 6, 5>>(6, 5); } else { storage<mat<real, 8, 8>>(8, 8); linear<mat<real, 8, 8>>(8, 8); } }
HARNESS(large_product, "t=60", "products in all forms, 5x6x7, 8x8x8, 1x12x1, 9x1x9 and 4x16x3, and matrix-vector products") {
	static const int R[] = {5, 8, 1, 9, 4}, Q[] = {6, 8, 12, 1, 16}, C[] = {7, 8, 1, 9, 3}; int k = (int) sym_choose("k", 0, 4), r = R[k], q = Q[k], c = C[k];
	M a = min_<M>("a", r, q), b = min_<M>("b", q, c), t; errno = 0;
	product_check<M, M>(a * b, r, q, c, "*"); product_check<M, M>(a.mul(b), r, q, c, "mul"); product_check<M, M>(algebra::mat_mul(a, b), r, q, c, "mat_mul"); t.resize(r, c); algebra::mat_mul(t, a, b); product_check<M, M>(t, r, q, c, "mat_mul into"); t = a; t *= b; product_check<M, M>(t, r, q, c, "*=");
	M at = algebra::transpose(a), bt = algebra::transpose(b); product_check<M, M>(algebra::mat_transpose_mul(at, b), r, q, c, "mat_transpose_mul"); product_check<M, M>(algebra::mat_mul_transpose(a, bt), r, q, c, "mat_mul_transpose");
	V v(q), u(r); for (int i = 0; i < q; ++i) v[i] = sym_real(nm("v", i)); for (int i = 0; i < r; ++i) u[i] = sym_real(nm("u", i)); transform_check(a * v, a, v, "A v"); transform_check(a.transform(v), a, v, "transform"); transform_check(algebra::transform(a, v), a, v, "algebra::transform"); V w(r); algebra::transform(w, a, v); transform_check(w, a, v, "transform into"); w = v; algebra::apply_transform(a, w); transform_check(w, a, v, "apply_transform");
	w = operator*(u, a); for (int j = 0; j < q; ++j) { real s = 0; for (int i = 0; i < r; ++i) s += u[i] * a(i, j); sym_eq(w[j], s, "vector * matrix"); } sym_check(errno == 0, "no error");
}
HARNESS(large_fixed_product, "t=60", "fixed products 5x6 by 6x5 and 8x8, matrix-vector products included") {
	if (sym_choose("s", 0, 1)) { typedef mat<real, 8, 8> S; S a = min_<S>("a", 8, 8), b = min_<S>("b", 8, 8), t; product_check<S, S>(a * b, 8, 8, 8, "*"); t = a; t *= b; product_check<S, S>(t, 8, 8, 8, "*="); vec<real, 8> v; for (int i = 0; i < 8; ++i) v[i] = sym_real(nm("v", i)); transform_check(a * v, a, v, "A v"); transform_check(a.transform(v), a, v, "transform"); }
	else { mat<real, 5, 6> a = min_<mat<real, 5, 6>>("a", 5, 6); mat<real, 6, 5> b = min_<mat<real, 6, 5>>("b", 6, 5); product_check<mat<real, 5, 5>, M>(a * b, 5, 6, 5, "*"); product_check<mat<real, 5, 5>, M>(a.mul(b), 5, 6, 5, "mul"); vec<real, 6> v; for (int i = 0; i < 6; ++i) v[i] = sym_real(nm("v", i)); transform_check(a * v, a, v, "A v"); }
}
HARNESS(large_shapes, "t=60", "transposes, copies, traces, swaps, shifts, combinations, resizes, equality and shape predicates, the large shapes") {
	int r, c; shape(r, c); M a = min_<M>("a", r, c), b = min_<M>("b", r, c), t = algebra::transpose(a), u(c, r); algebra::transpose(u, a); real x = sym_real("x"), y = sym_real("y");
	sym_check(t.rows() == (unsigned) c && t.cols() == (unsigned) r, "shape"); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(t(j, i), a(i, j), "transpose"); sym_eq(u(j, i), a(i, j), "transpose into"); } same(algebra::hermitian(a), t, "hermitian"); if (r == c) { u = a; algebra::make_transposed(u); same(u, t, "make_transposed"); u = a; algebra::make_hermitian(u); same(u, t, "make_hermitian"); }
	real s = 0; for (int i = 0; i < r && i < c; ++i) s += a(i, i); sym_eq(algebra::trace(a), s, "trace");
	M d(a), e; same(d, a, "copy"); e = a; same(e, a, "assign"); e = M(2, 2); e = a; same(e, a, "reassign"); sym_check(a == d && !(a != d), "equal"); d(r - 1, c - 1) = d(r - 1, c - 1) + 1; sym_check(!(a == d) && a != d, "== sees the last element"); d = a; d(r / 2, c / 2) = d(r / 2, c / 2) - 1; sym_check(!(a == d), "== sees every element");
	u = a; algebra::mat_swap_rows(u, 0, r - 1); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(u(i, j), a(i == 0 ? r - 1 : i == r - 1 ? 0 : i, j), "rows"); u = a; algebra::mat_swap_cols(u, 0, c - 1); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(u(i, j), a(i, j == 0 ? c - 1 : j == c - 1 ? 0 : j), "columns");
	u = a; algebra::mat_shift_diagonal(u, x); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(u(i, j), a(i, j) + (i == j ? x : 0), "shift"); u = a; algebra::mat_lincomb(x, u, y, b); M w(r, c); algebra::mat_lincomb(w, x, a, y, b); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { sym_eq(u(i, j), a(i, j) * x + b(i, j) * y, "lincomb"); sym_eq(w(i, j), a(i, j) * x + b(i, j) * y, "lincomb into"); }
	u = a; algebra::make_identity(u); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(u(i, j), i == j ? 1 : 0, "identity"); sym_check(algebra::is_diagonal(u), "diagonal"); if (r == c) { sym_check(algebra::is_symmetric(u) && algebra::is_lower_triangular(u) && algebra::is_upper_triangular(u), "identity shapes"); u(r - 1, 0) = 1; sym_check(!algebra::is_diagonal(u) && !algebra::is_symmetric(u) && algebra::is_lower_triangular(u) && !algebra::is_upper_triangular(u), "lower"); u(0, r - 1) = 1; sym_check(algebra::is_symmetric(u) && !algebra::is_lower_triangular(u), "symmetric"); }
	u = a; u.resize(r + 2, c + 3); for (int i = 0; i < r + 2; ++i) for (int j = 0; j < c + 3; ++j) sym_eq(u(i, j), i < r && j < c ? a(i, j) : 0, "grown"); u.resize((r + 1) / 2, (c + 1) / 2); for (int i = 0; i < (r + 1) / 2; ++i) for (int j = 0; j < (c + 1) / 2; ++j) sym_eq(u(i, j), a(i, j), "shrunk");
	errno = 0; w = M(r + 1, c); u = a + w; sym_check(errno == EINVAL && iserr(u), "mismatch"); errno = 0; w = M(c + 1, 2); u = a * w; sym_check(errno == EINVAL && iserr(u), "product mismatch");
}
HARNESS(aliased, "t=60", "multiplication and division of a matrix by one of its own elements use its value before the operation; kernels with the result among the operands; dynamic and fixed, shapes 1..3") {
	int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3), k = (int) sym_choose("k", 0, 1), p = k ? r - 1 : 0, q = k ? c - 1 : 0; M a = min_<M>("a", r, c), b = min_<M>("b", r, c), t; real s = a(p, q); sym_assume(s > 1e-6 || s < -1e-6); auto all = [&](const M& m, int w, const char* id) { sym_check((int) m.rows() == r && (int) m.cols() == c, id); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) { real x = a(i, j), y = b(i, j); if (w == 1) sym_eq(m(i, j) * s, x, id); else sym_eq(m(i, j), w == 0 ? x * s : w == 2 ? x + y : w == 3 ? y - x : w == 4 ? 2 * x - 3 * y : x, id); } };
	t = a; t *= t(p, q); all(t, 0, "*= element"); t = a; t /= t(p, q); all(t, 1, "/= element"); t = a; algebra::mat_scalmul(t(p, q), t); all(t, 0, "kernel"); t = a; algebra::mat_scalmul(t, t(p, q), t); all(t, 0, "kernel into itself"); t = a; algebra::mat_sum(t, t, b); all(t, 2, "sum into the left"); t = b; algebra::mat_sum(t, a, t); all(t, 2, "sum into the right"); t = a; algebra::mat_diff(t, b, t); all(t, 3, "difference into the right"); t = b; algebra::mat_diff(t, t, a); all(t, 3, "difference into the left"); t = a; algebra::mat_lincomb(t, 2.0, t, -3.0, b); all(t, 4, "combination into the left"); t = b; algebra::mat_lincomb(t, 2.0, a, -3.0, t); all(t, 4, "combination into the right"); t = a; algebra::mat_copy(t, t); all(t, 5, "copied on itself");
	t = a; algebra::mat_sum(t, t); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), 2 * a(i, j), "sum with itself"); t = a; algebra::mat_diff(t, t); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), 0, "difference with itself"); t = a; algebra::mat_lincomb(2.0, t, -5.0, t); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), -3 * a(i, j), "combination with itself"); t = a; t += t; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), 2 * a(i, j), "+= itself"); t = a; t -= t; for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(t(i, j), 0, "-= itself");
	if (r == 3 && c == 2) { mat<real, 3, 2> f = a, g = f; g *= g(p, q); all(M(g), 0, "fixed *= element"); g = f; g /= g(p, q); all(M(g), 1, "fixed /= element"); }
	if (r == c) { t = a; t *= t; M e = a * a; for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) sym_eq(t(i, j), e(i, j), "*= itself"); }
}

template<typename A> static void complex_ops(int n) {
	A a, b; a.resize(n, n); b.resize(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { a(i, j) = cx(ent("a", i, j), ent("b", i, j)); b(i, j) = cx(ent("c", i, j), ent("d", i, j)); }
	cx k(sym_real("k"), sym_real("l")), q(sym_real("q"), 1); const A a0 = a, b0 = b;
	auto eq = [](const cx& x, real re, real im, const char* id) { sym_eq(x.a, re, id); sym_eq(x.b, im, id); };
	A s = a + b, d = a - b, p = a * b, t = algebra::mat_transpose_mul(a, b), m = algebra::mat_mul_transpose(a, b), L = a, S = a, R = a, C = a, D = a; algebra::mat_lincomb(k, L, q, b); algebra::mat_scalmul(k, S); if (n > 1) { algebra::mat_swap_rows(R, 0, 1); algebra::mat_swap_cols(C, 1, 0); } algebra::mat_shift_diagonal(D, k);
	cx tr(0), dp(1); for (int i = 0; i < n; ++i) { tr = cx(tr.a + a0(i, i).a, tr.b + a0(i, i).b); dp = cx(dp.a * a0(i, i).a - dp.b * a0(i, i).b, dp.a * a0(i, i).b + dp.b * a0(i, i).a); }
	eq(algebra::trace(a), tr.a, tr.b, "trace"); eq(algebra::diagonal_product(a), dp.a, dp.b, "diagonal product");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) {
		const cx x = a0(i, j), y = b0(i, j); eq(s(i, j), x.a + y.a, x.b + y.b, "+"); eq(d(i, j), x.a - y.a, x.b - y.b, "-"); eq(S(i, j), x.a * k.a - x.b * k.b, x.a * k.b + x.b * k.a, "scaled");
		eq(L(i, j), x.a * k.a - x.b * k.b + y.a * q.a - y.b * q.b, x.a * k.b + x.b * k.a + y.a * q.b + y.b * q.a, "combination");
		real u[6] = {0, 0, 0, 0, 0, 0};
		for (int h = 0; h < n; ++h) { const cx A1 = a0(i, h), B1 = b0(h, j), A2 = a0(h, i), B2 = b0(j, h); u[0] += A1.a * B1.a - A1.b * B1.b; u[1] += A1.a * B1.b + A1.b * B1.a; u[2] += A2.a * B1.a - A2.b * B1.b; u[3] += A2.a * B1.b + A2.b * B1.a; u[4] += A1.a * B2.a - A1.b * B2.b; u[5] += A1.a * B2.b + A1.b * B2.a; }
		eq(p(i, j), u[0], u[1], "product"); eq(t(i, j), u[2], u[3], "transposed product"); eq(m(i, j), u[4], u[5], "product by the transposed");
		if (n > 1) { const cx r = a0(i < 2 ? 1 - i : i, j), c = a0(i, j < 2 ? 1 - j : j); eq(R(i, j), r.a, r.b, "rows"); eq(C(i, j), c.a, c.b, "columns"); }
		eq(D(i, j), x.a + (i == j ? k.a : 0), x.b + (i == j ? k.b : 0), "shift");
	}
}
HARNESS(complex_dynamic, "t=60", "sums, products, combinations, swaps, shifts and traces of complex matrices, 1x1 to 3x3") { complex_ops<mat<cx>>((int) sym_choose("n", 1, 3)); }
HARNESS(complex_fixed, "t=60", "the same for fixed 2x2 complex matrices") { complex_ops<mat<cx, 2, 2>>(2); }

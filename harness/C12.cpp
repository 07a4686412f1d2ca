// C12 vectors, fixed-size and dynamic
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef complex<real> cx;
typedef vec<real> D;
template<typename V> static V vin(const char* n, int k) { V v; v.resize(k); for (int i = 0; i < k; ++i) v[i] = sym_real(nm(n, i)); return v; }
template<typename V> static bool allnan(const V& v) { bool r = true; for (unsigned i = 0; i < v.size(); ++i) r = r && sym_isnan(v[i]); return r; }
template<typename A, typename B> static void same(const A& a, const B& b, const char* id) { sym_check(a.size() == b.size(), id); if (a.size() == b.size()) for (unsigned i = 0; i < a.size(); ++i) sym_eq(a[i], b[i], id); }

template<typename V> static void space(int n) {
	V v = vin<V>("v", n), w = vin<V>("w", n), v0 = v, w0 = w;
	real k = sym_real("k");
	sym_check(v.size() == (unsigned) n, "size");
	V s = v + w, d = v - w, m = -v, p = +v, a = v * k, b = k * v;
	for (int i = 0; i < n; ++i) {
		sym_eq(s[i], v0[i] + w0[i], "+"); sym_eq(d[i], v0[i] - w0[i], "-"); sym_eq(m[i], -v0[i], "unary -"); sym_eq(p[i], v0[i], "unary +");
		sym_eq(a[i], k * v0[i], "v*k"); sym_eq(b[i], k * v0[i], "k*v");
	}
	sym_check(s.size() == (unsigned) n && d.size() == (unsigned) n && a.size() == (unsigned) n, "sizes");
	V t = v; t += w; same(t, s, "+="); t = v; t -= w; same(t, d, "-="); t = v; t *= k; same(t, a, "*=");
	t = v; t += t; for (int i = 0; i < n; ++i) sym_eq(t[i], 2 * v0[i], "+= self");
	t = v; t -= t; for (int i = 0; i < n; ++i) sym_eq(t[i], 0, "-= self");
	same(v, v0, "operand unchanged"); same(w, w0, "operand unchanged");
	if (k >= MACH_EPSILON || k <= -MACH_EPSILON) {
		errno = 0;
		V q = v / k; for (int i = 0; i < n; ++i) sym_eq(q[i], v0[i] / k, "/");
		t = v; t /= k; same(t, q, "/=");
		sym_check(errno == 0, "no error");
	} else {
		errno = 0; t = v; t /= k;
		sym_check(errno == ERANGE && allnan(t), "/= 0");
	}
}
HARNESS(space_static1, "t=30", "vector space operations in all forms, fixed size 1") { space<vec<real, 1>>(1); }
HARNESS(space_static3, "t=30", "vector space operations in all forms, fixed size 3") { space<vec<real, 3>>(3); }
HARNESS(space_static5, "t=30", "vector space operations in all forms, fixed size 5") { space<vec<real, 5>>(5); }
HARNESS(space_dynamic, "t=60", "vector space operations in all forms, dynamic size 1..8") { space<D>((int) sym_choose("n", 1, 8)); }
HARNESS(space_empty, "t=30", "vector space operations on empty dynamic vectors; += initialises an empty vector") {
	D e; D s = e + e, d = e - e, m = e * 2.0;
	sym_check(s.size() == 0 && d.size() == 0 && m.size() == 0, "empty");
	int n = (int) sym_choose("n", 0, 4);
	D v = vin<D>("v", n); e += v; same(e, v, "+= on empty");
}

template<typename V, typename W> static void metric(int n) {
	V v = vin<V>("v", n); W w = vin<W>("w", n);
	real s = 0, q = 0; for (int i = 0; i < n; ++i) { s += v[i] * w[i]; q += v[i] * v[i]; }
	sym_eq(v.dot(w), s, "dot"); sym_eq(v * w, s, "*"); sym_eq(algebra::dot(v, w), s, "algebra::dot"); sym_eq(algebra::dot(w, v), s, "symmetric");
	sym_eq(v.sqr_norm(), q, "sqr_norm"); sym_eq(algebra::sqr_norm(v), q, "algebra::sqr_norm");
	real nv = v.norm(); sym_check(nv >= 0, "norm sign"); sym_eq(nv * nv, q, "norm"); sym_eq(algebra::norm(v), nv, "algebra::norm");
}
HARNESS(metric_s1, "t=30", "dot product and norms, fixed size 1") { metric<vec<real, 1>, vec<real, 1>>(1); }
HARNESS(metric_s4, "t=30", "dot product and norms, fixed size 4") { metric<vec<real, 4>, vec<real, 4>>(4); }
HARNESS(metric_sd, "t=30", "dot product and norms, fixed with dynamic") { metric<vec<real, 3>, D>(3); }
HARNESS(metric_d, "t=30", "dot product and norms, dynamic size 0..8") { metric<D, D>((int) sym_choose("n", 0, 8)); }

template<typename V> static void normalisation(int n) {
	V v = vin<V>("v", n), v0 = v;
	real q = 0; for (int i = 0; i < n; ++i) q += v[i] * v[i];
	sym_assume(q >= 1e-12 || q == 0);
	errno = 0;
	V u = v.normalized(), a = algebra::normalize(v); V t = v; t.normalize(); V b = v; V& rb = algebra::make_normalized(b);
	same(v, v0, "operand unchanged");
	sym_check(&rb == &b, "returns its argument");
	if (q == 0) { sym_check(errno == ERANGE && allnan(u) && allnan(a) && allnan(t) && allnan(b), "zero vector"); return; }
	sym_check(errno == 0, "no error");
	real m = 0;
	for (int i = 0; i < n; ++i) { m += u[i] * u[i]; sym_eq(u[i] * th::sqrt(q), v[i], "direction"); }
	sym_eq(m, 1, "unit length");
	same(a, u, "algebra::normalize"); same(t, u, "normalize"); same(b, u, "make_normalized");
}
HARNESS(normalise_s2, "t=60", "normalisation: same direction, unit length, zero vector reported, fixed size 2") { normalisation<vec<real, 2>>(2); }
HARNESS(normalise_s3, "t=60", "normalisation, fixed size 3") { normalisation<vec<real, 3>>(3); }
HARNESS(normalise_d, "t=60", "normalisation, dynamic size 1..5") { normalisation<D>((int) sym_choose("n", 1, 5)); }

template<typename V, typename W> static void cross_(bool) {
	V a = vin<V>("a", 3); W b = vin<W>("b", 3);
	V c = a.cross(b), c2 = algebra::cross(a, b);
	real e[3] = {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
	for (int i = 0; i < 3; ++i) { sym_eq(c[i], e[i], "cross"); sym_eq(c2[i], e[i], "algebra::cross"); }
	sym_eq(c[0] * a[0] + c[1] * a[1] + c[2] * a[2], 0, "orthogonal"); sym_eq(c[0] * b[0] + c[1] * b[1] + c[2] * b[2], 0, "orthogonal");
}
HARNESS(cross_ss, "t=30", "cross product, fixed size") { cross_<vec<real, 3>, vec<real, 3>>(true); }
HARNESS(cross_sd, "t=30", "cross product, fixed with dynamic") { cross_<vec<real, 3>, D>(true); }
HARNESS(cross_dd, "t=30", "cross product, dynamic") { cross_<D, D>(true); }
HARNESS(cross_sizes, "t=30", "cross product of other sizes is NaN with EINVAL") {
	int n = (int) sym_choose("n", 0, 5), m = (int) sym_choose("m", 0, 5);
	D a = vin<D>("a", n), b = vin<D>("b", m); vec<real, 3> s = vin<vec<real, 3>>("s", 3);
	errno = 0; D c = algebra::cross(a, b);
	sym_check(c.size() == 3, "size");
	if (n != 3 || m != 3) sym_check(errno == EINVAL && allnan(c), "error"); else sym_check(errno == 0, "no error");
	errno = 0; D e = a.cross(b); if (n != 3 || m != 3) sym_check(errno == EINVAL && allnan(e), "member error");
	errno = 0; vec<real, 3> f = s.cross(b); if (m != 3) sym_check(errno == EINVAL && allnan(f), "fixed member error");
}
HARNESS(mismatch, "t=60", "operands of different sizes: NaN result of the declared size and EINVAL, never an access outside the vectors; sizes 0..4") {
	int n = (int) sym_choose("n", 0, 4), m = (int) sym_choose("m", 0, 4);
	if (n == m) return;
	D v = vin<D>("v", n), w = vin<D>("w", m), v0 = v, w0 = w;
	errno = 0; D s = v + w; sym_check(errno == EINVAL && s.size() == (unsigned) n && allnan(s), "+");
	errno = 0; D d = v - w; sym_check(errno == EINVAL && d.size() == (unsigned) n && allnan(d), "-");
	errno = 0; real p = v.dot(w); sym_check(errno == EINVAL && sym_isnan(p), "dot");
	errno = 0; D t = v; t -= w; sym_check(errno == EINVAL && t.size() == (unsigned)(n ? n : 1) && allnan(t), "-=");
	if (n) { errno = 0; t = v; t += w; sym_check(errno == EINVAL && t.size() == (unsigned) n && allnan(t), "+="); }
	errno = 0; t = v; algebra::vec_sum(t, w); sym_check(errno == EINVAL && allnan(t), "vec_sum");
	errno = 0; t = v; algebra::vec_diff(t, w); sym_check(errno == EINVAL && allnan(t), "vec_diff");
	errno = 0; t = D(); t.resize(m); algebra::vec_sum(t, v, v0); sym_check(errno == EINVAL && allnan(t), "vec_sum into the wrong size");
	errno = 0; t = D(); t.resize(m); algebra::vec_diff(t, v, v0); sym_check(errno == EINVAL && allnan(t), "vec_diff into the wrong size");
	errno = 0; t = D(); t.resize(m); algebra::vec_scalmul(t, 2.0, v); sym_check(errno == EINVAL && allnan(t), "vec_scalmul into the wrong size");
	same(v, v0, "operand unchanged"); same(w, w0, "operand unchanged");
}
HARNESS(equality, "t=60", "== iff same size and all elements equal, != its negation; sizes 0..3 and fixed/dynamic") {
	int n = (int) sym_choose("n", 0, 3), m = (int) sym_choose("m", 0, 3);
	D v = vin<D>("v", n), w = vin<D>("w", m); vec<real, 3> f = vin<vec<real, 3>>("f", 3);
	bool e = n == m; for (int i = 0; i < n && i < m; ++i) e = e && v[i] == w[i];
	sym_check((v == w) == e, "=="); sym_check((v != w) == !e, "!=");
	bool g = m == 3; for (int i = 0; i < m; ++i) g = g && f[i] == w[i];
	sym_check((f == w) == g, "fixed == dynamic"); sym_check((w == f) == g, "dynamic == fixed"); sym_check((f != w) == !g, "fixed != dynamic");
}
HARNESS(copies, "t=60", "constructors, assignment and conversion between fixed, dynamic and std::vector copy every element; mismatching sizes give NaN and EINVAL") {
	int n = (int) sym_choose("n", 0, 5);
	D d = vin<D>("v", n);
	D d2(d); same(d2, d, "dynamic copy"); d2 = d; same(d2, d, "assignment");
	d2 = d2; same(d2, d, "self assignment");
	D other = vin<D>("o", 4); other = d; same(other, d, "shrinking and growing assignment");
	std::vector<real> sv(n); for (int i = 0; i < n; ++i) sv[i] = d[i];
	D d3; d3 = sv; same(d3, d, "from std::vector");
	errno = 0;
	vec<real, 3> f; f = d;
	if (n == 3) { sym_check(errno == 0, "no error"); same(f, d, "fixed from dynamic"); }
	else sym_check(errno == EINVAL && allnan(f), "fixed from another size");
	vec<real, 3> g = vin<vec<real, 3>>("g", 3); D h(g); same(h, g, "dynamic from fixed"); h = g; same(h, g, "dynamic from fixed");
	errno = 0; vec<real, 2> k(g); sym_check(errno == EINVAL && allnan(k), "fixed from longer fixed");
	errno = 0; vec<real, 4> l(g); sym_check(errno == EINVAL && allnan(l), "fixed from shorter fixed");
	vec<real, 3> c(g); same(c, g, "fixed copy"); c[0] = 7; sym_eq(g[0], g.get(0), "copies do not alias"); D e = d; if (n) { real x = d[0]; e[0] = 7; sym_eq(d[0], x, "copies do not alias"); }
}
HARNESS(construct, "t=60", "fill, list and zero constructors, accessors, iterators, bases, make_vec, push") {
	real x = sym_real("x"), y = sym_real("y"), z = sym_real("z");
	int n = (int) sym_choose("n", 0, 5);
	D a(n), b(n, x);
	sym_check(a.size() == (unsigned) n && b.size() == (unsigned) n, "size");
	for (int i = 0; i < n; ++i) { sym_eq(a[i], 0, "zeroes"); sym_eq(b[i], x, "fill"); }
	vec<real, 4> f, g(x), h(4u, x);
	for (int i = 0; i < 4; ++i) { sym_eq(f[i], 0, "fixed zeroes"); sym_eq(g[i], x, "fixed fill"); sym_eq(h[i], x, "fixed fill"); }
	errno = 0; vec<real, 4> hh((unsigned) n, x); sym_check((errno == EINVAL) == (n != 4), "fill with the wrong size");
	D l = {x, y, z}; vec<real, 3> m = {x, y, z};
	sym_check(l.size() == 3, "list size");
	sym_eq(l[0], x, "list"); sym_eq(l[1], y, "list"); sym_eq(l.at(2), z, "list"); sym_eq(m[0], x, "fixed list"); sym_eq(m.get(1), y, "fixed list"); sym_eq(m.at(2), z, "fixed list");
	errno = 0; vec<real, 2> o = {x, y, z}; sym_check(errno == EINVAL && allnan(o), "list of the wrong size");
	real s = 0; for (real e : l) s = 3 * s + e; sym_eq(s, 9 * x + 3 * y + z, "iteration");
	s = 0; for (real e : m) s = 3 * s + e; sym_eq(s, 9 * x + 3 * y + z, "fixed iteration");
	const D cl = l; const vec<real, 3> cm = m; s = 0; for (real e : cl) s = 3 * s + e; for (real e : cm) s = 3 * s + e; sym_eq(s, 27 * (9 * x + 3 * y + z) + 9 * x + 3 * y + z, "const iteration");
	for (real& e : m) e = 2 * e; sym_eq(m[2], 2 * z, "writing iteration");
	m.set(1, z); sym_eq(m[1], z, "set"); sym_eq(m[0], 2 * x, "set only one"); l.set(0, z); sym_eq(l[0], z, "set");
	l.push(x); sym_check(l.size() == 4, "push"); sym_eq(l[3], x, "push"); sym_eq(l[2], z, "push keeps");
	int i = (int) sym_choose("i", 0, 5);
	errno = 0; D e = D::euclidean_base(i, n);
	if (i >= n) sym_check(errno == EINVAL && e.size() == (unsigned) n && allnan(e), "base out of range");
	else { sym_check(errno == 0 && e.size() == (unsigned) n, "base"); for (int j = 0; j < n; ++j) sym_eq(e[j], i == j ? 1 : 0, "base"); }
	errno = 0; vec<real, 3> q = vec<real, 3>::euclidean_base(i, n);
	if (i >= n || n != 3) sym_check(errno == EINVAL && allnan(q), "fixed base out of range");
	else for (int j = 0; j < 3; ++j) sym_eq(q[j], i == j ? 1 : 0, "fixed base");
	D mv = make_vec(x, y, z); sym_check(mv.size() == 3, "make_vec"); sym_eq(mv[0], x, "make_vec"); sym_eq(mv[1], y, "make_vec"); sym_eq(mv[2], z, "make_vec");
}
HARNESS(kernels, "t=60", "algebra::vec_* kernels: sum, difference, scalar multiple, copy, zeroes, error, in place and out of place, mixed types and aliasing") {
	int n = (int) sym_choose("n", 1, 5);
	D v = vin<D>("v", n), w = vin<D>("w", n), r; r.resize(n);
	std::vector<real> sv(n), sw(n); for (int i = 0; i < n; ++i) { sv[i] = v[i]; sw[i] = w[i]; }
	real k = sym_real("k");
	D& q = algebra::vec_sum(r, v, w); sym_check(&q == &r, "returns the result");
	for (int i = 0; i < n; ++i) sym_eq(r[i], v[i] + w[i], "vec_sum");
	algebra::vec_diff(r, v, sw); for (int i = 0; i < n; ++i) sym_eq(r[i], v[i] - w[i], "vec_diff");
	D t = v; algebra::vec_sum(t, sw); for (int i = 0; i < n; ++i) sym_eq(t[i], v[i] + w[i], "vec_sum in place");
	t = v; algebra::vec_diff(t, sw); for (int i = 0; i < n; ++i) sym_eq(t[i], v[i] - w[i], "vec_diff in place");
	t = v; algebra::vec_sum(t, t, t); for (int i = 0; i < n; ++i) sym_eq(t[i], 2 * v[i], "vec_sum aliased");
	t = v; algebra::vec_diff(t, w, t); for (int i = 0; i < n; ++i) sym_eq(t[i], w[i] - v[i], "vec_diff aliased");
	t = v; algebra::vec_scalmul(k, t); for (int i = 0; i < n; ++i) sym_eq(t[i], k * v[i], "vec_scalmul in place");
	algebra::vec_scalmul(t, k, sv); for (int i = 0; i < n; ++i) sym_eq(t[i], k * v[i], "vec_scalmul");
	algebra::vec_zeroes(t); for (int i = 0; i < n; ++i) sym_eq(t[i], 0, "zeroes");
	algebra::vec_error(t); sym_check(allnan(t), "error");
	std::vector<real> c; algebra::vec_copy(c, v); same(c, v, "copy");
	sym_eq(algebra::dot(sv, w), algebra::dot(v, w), "dot of std::vector");
}
HARNESS(complex_vectors, "t=60", "complex vectors: the inner product conjugates the second operand, the norm is real and the sum of square moduli; size 0..3") {
	int n = (int) sym_choose("n", 0, 3);
	vec<cx> v, w; v.resize(n); w.resize(n);
	real re = 0, im = 0, q = 0;
	for (int i = 0; i < n; ++i) {
		v[i] = cx(sym_real(nm("a", i)), sym_real(nm("b", i))); w[i] = cx(sym_real(nm("c", i)), sym_real(nm("d", i)));
		re += v[i].a * w[i].a + v[i].b * w[i].b; im += v[i].b * w[i].a - v[i].a * w[i].b; q += v[i].a * v[i].a + v[i].b * v[i].b;
	}
	cx p = algebra::dot(v, w), s = algebra::sqr_norm(v);
	sym_eq(p.a, re, "dot Re"); sym_eq(p.b, im, "dot Im"); sym_eq(s.a, q, "sqr_norm"); sym_eq(s.b, 0, "sqr_norm real");
	vec<cx> t = v + w, u = v - w; for (int i = 0; i < n; ++i) { sym_eq(t[i].a, v[i].a + w[i].a, "+"); sym_eq(t[i].b, v[i].b + w[i].b, "+"); sym_eq(u[i].a, v[i].a - w[i].a, "-"); sym_eq(u[i].b, v[i].b - w[i].b, "-"); }
	cx k(sym_real("ka"), sym_real("kb")); vec<cx> m = v * k; for (int i = 0; i < n; ++i) { sym_eq(m[i].a, v[i].a * k.a - v[i].b * k.b, "scalar"); sym_eq(m[i].b, v[i].a * k.b + v[i].b * k.a, "scalar"); }
}
static const int BIG[] = {9, 12, 16, 17, 31, 33, 40, 64, 65};
static int big() { return BIG[sym_choose("n", 0, 8)]; }
HARNESS(large_space, "t=60", "vector space operations in all forms, dynamic sizes 9, 12, 16, 17, 31, 33, 40, 64 and 65") { space<D>(big()); }
HARNESS(large_metric, "t=60", "dot product and norms, the same sizes") { metric<D, D>(big()); }
HARNESS(large_static, "t=60", "vector space operations, dot product and norms, fixed sizes 8, 9, 17 and 32") {
	int c = (int) sym_choose("c", 0, 3);
	if (c == 0) { space<vec<real, 8>>(8); metric<vec<real, 8>, vec<real, 8>>(8); }
	else if (c == 1) { space<vec<real, 9>>(9); metric<vec<real, 9>, D>(9); }
	else if (c == 2) { space<vec<real, 17>>(17); metric<vec<real, 17>, vec<real, 17>>(17); }
	else { space<vec<real, 32>>(32); metric<vec<real, 32>, vec<real, 32>>(32); }
}
HARNESS(large_copies, "t=60", "copies, conversions, kernels, equality and normalisation errors, the same sizes") {
	int n = big();
	D v = vin<D>("v", n), w = vin<D>("w", n), r; r.resize(n); real k = sym_real("k");
	std::vector<real> sv(n), sw(n), sc; for (int i = 0; i < n; ++i) { sv[i] = v[i]; sw[i] = w[i]; }
	D a(v); same(a, v, "copy"); D b; b = v; same(b, v, "assignment"); b = sw; same(b, w, "from std::vector"); D o(3, 1.0); o = v; same(o, v, "growing assignment"); o = D(2, 1.0); sym_check(o.size() == 2, "shrinking assignment");
	algebra::vec_copy(sc, v); same(sc, v, "vec_copy");
	algebra::vec_sum(r, v, sw); for (int i = 0; i < n; ++i) sym_eq(r[i], v[i] + w[i], "vec_sum");
	algebra::vec_diff(r, v, sw); for (int i = 0; i < n; ++i) sym_eq(r[i], v[i] - w[i], "vec_diff");
	algebra::vec_scalmul(r, k, v); for (int i = 0; i < n; ++i) sym_eq(r[i], k * v[i], "vec_scalmul");
	r = v; algebra::vec_sum(r, sw); for (int i = 0; i < n; ++i) sym_eq(r[i], v[i] + w[i], "vec_sum in place");
	r = v; algebra::vec_diff(r, sw); for (int i = 0; i < n; ++i) sym_eq(r[i], v[i] - w[i], "vec_diff in place");
	r = v; algebra::vec_scalmul(k, r); for (int i = 0; i < n; ++i) sym_eq(r[i], k * v[i], "vec_scalmul in place");
	sym_check(a == v && !(a != v), "equal"); int j = (int) sym_choose("j", 0, 2); j = j == 0 ? 0 : j == 1 ? n / 2 : n - 1;
	a[j] = a[j] + 1; sym_check(!(a == v) && a != v, "== sees every element");
	algebra::vec_zeroes(r); for (int i = 0; i < n; ++i) sym_eq(r[i], 0, "zeroes"); algebra::vec_error(r); sym_check(allnan(r), "error");
	D f(n, k); for (int i = 0; i < n; ++i) sym_eq(f[i], k, "fill"); for (int i = 0; i < 5; ++i) f.push(v[i]); sym_check(f.size() == (unsigned) n + 5, "push"); sym_eq(f[n + 4], v[4], "push"); sym_eq(f[n - 1], k, "push keeps");
	errno = 0; D q = v + f; sym_check(errno == EINVAL && allnan(q), "mismatch");
	D e = D::euclidean_base(n - 1, n); for (int i = 0; i < n; ++i) sym_eq(e[i], i == n - 1 ? 1 : 0, "base");
	vec<cx> c, d; c.resize(n); d.resize(n); real re = 0, im = 0; for (int i = 0; i < n; ++i) { c[i] = cx(v[i], w[i]); d[i] = cx(k, v[i]); re += v[i] * k + w[i] * v[i]; im += w[i] * k - v[i] * v[i]; }
	cx p = algebra::dot(c, d); sym_eq(p.a, re, "complex dot"); sym_eq(p.b, im, "complex dot");
}
HARNESS(large_normalise, "t=60", "normalisation of large vectors with two symbolic components among fixed ones, the same sizes") {
	int n = big(); D v(n, 0.0); real x = sym_real("x"), y = sym_real("y"); sym_assume(x >= 1); v[n / 2] = x; v[n - 1] = y; v[0] = 2;
	D u = v.normalized(); D t = v; t.normalize(); D b = v; algebra::make_normalized(b); real s = th::sqrt(4 + x * x + y * y);
	for (int i = 0; i < n; ++i) { sym_eq(u[i] * s, v[i], "normalized"); sym_eq(t[i], u[i], "normalize"); sym_eq(b[i], u[i], "make_normalized"); }
}
HARNESS(small_norms, "mode=fp t=60", "normalisation of vectors of length 1e-4 to 1e-15 and 1e4 to 1e150: unit length, same direction, no error, dynamic and fixed size") {
	static const real L[] = {1e-4, 1e-6, 1e-8, 1e-10, 1e-12, 1e-15, 1e4, 1e8, 1e100, 1e150}; real l = L[sym_choose("l", 0, 9)]; static const real U[] = {0.6, -0.64, 0.48}; D v(3); vec<real, 3> f; for (int i = 0; i < 3; ++i) f[i] = v[i] = l * U[i];
	errno = 0; D u = v.normalized(), a = algebra::normalize(v), t = v, b = v; t.normalize(); algebra::make_normalized(b); vec<real, 3> g = f.normalized(), h = f; h.normalize(); sym_check(errno == 0, "no error"); real n = v.norm() / l; sym_check(n > 0.999999 && n < 1.000001, "norm");
	for (int i = 0; i < 3; ++i) { real lo = U[i] - 1e-9, hi = U[i] + 1e-9; sym_check(u[i] > lo && u[i] < hi && a[i] > lo && a[i] < hi && t[i] > lo && t[i] < hi && b[i] > lo && b[i] < hi && g[i] > lo && g[i] < hi && h[i] > lo && h[i] < hi, "direction"); }
}
HARNESS(huge_sizes, "t=100", "sums, differences, multiples, products, copies, equality, bases, dot product and norm of vectors of 127..1025 elements, two of them arbitrary") {
	static const int N[] = {127, 128, 129, 255, 256, 257, 300, 513, 1025}; int n = N[sym_choose("n", 0, 8)]; D v(n), w(n); real x = sym_real("x"), y = sym_real("y"); real p = 0, q = 0; for (int i = 0; i < n; ++i) { v[i] = i % 13 - 6; w[i] = i % 7 - 2; } v[n - 1] = x; w[n / 2] = y; for (int i = 0; i < n; ++i) { p += v[i] * w[i]; q += v[i] * v[i]; }
	D a = v + w, b = v - w, c = v * 2.0, d = -v, e = v, f, g = v, h = v, k = v; e += w; f = v; g -= w; h *= 2; algebra::vec_copy(k, w); std::vector<real> sv; algebra::vec_copy(sv, v); D z(v); D r(n); algebra::vec_sum(r, v, w); D r2(n); algebra::vec_diff(r2, v, w); D r3(n); algebra::vec_scalmul(r3, 3.0, v);
	static const int I[] = {0, 1, 63, 64, 126}; for (int t = 0; t < 10; ++t) { int i = t < 5 ? I[t] : t == 5 ? n / 2 : t == 6 ? n - 1 : t == 7 ? n - 2 : t == 8 ? n * 3 / 4 : n / 4; sym_eq(a[i], v[i] + w[i], "+"); sym_eq(b[i], v[i] - w[i], "-"); sym_eq(c[i], 2 * v[i], "*"); sym_eq(d[i], -v[i], "opposite"); sym_eq(e[i], v[i] + w[i], "+="); sym_eq(f[i], v[i], "assignment"); sym_eq(g[i], v[i] - w[i], "-="); sym_eq(h[i], 2 * v[i], "*="); sym_eq(k[i], w[i], "vec_copy"); sym_eq(sv[i], v[i], "vec_copy"); sym_eq(z[i], v[i], "copy"); sym_eq(r[i], v[i] + w[i], "vec_sum"); sym_eq(r2[i], v[i] - w[i], "vec_diff"); sym_eq(r3[i], 3 * v[i], "vec_scalmul"); }
	sym_eq(v * w, p, "dot"); sym_eq(v.sqr_norm(), q, "square of the norm"); sym_check(z == v, "equal"); z[n - 1] = z[n - 1] + 1; sym_check(z != v, "last element"); int s = 0; for (auto u : w) { (void) u; ++s; } sym_check(s == n, "iteration"); D eb = D::euclidean_base(n - 1, n); real t = 0; for (int i = 0; i < n; ++i) t += eb[i] * (i + 1); sym_eq(t, n, "base");
}
HARNESS(aliased_scalars, "t=60", "multiplication and division of a vector by one of its own elements (or the result of a sum with itself) use its value before the operation; static and dynamic, kernels included, 1..5 elements") {
	int n = (int) sym_choose("n", 1, 5), k = (int) sym_choose("k", 0, 4); if (k >= n) return; D v = vin<D>("v", n); real s = v[k]; sym_assume(s > 1e-6 || s < -1e-6); D t = v; t *= t[k]; for (int i = 0; i < n; ++i) sym_eq(t[i], v[i] * s, "*= element"); t = v; t /= t[k]; for (int i = 0; i < n; ++i) sym_eq(t[i] * s, v[i], "/= element"); t = v; algebra::vec_scalmul(t[k], t); for (int i = 0; i < n; ++i) sym_eq(t[i], v[i] * s, "kernel"); t = v; algebra::vec_scalmul(t, t[k], t); for (int i = 0; i < n; ++i) sym_eq(t[i], v[i] * s, "kernel into itself"); t = v; t = t * t[k]; for (int i = 0; i < n; ++i) sym_eq(t[i], v[i] * s, "* element"); t = v; t = t; t = t + t; for (int i = 0; i < n; ++i) sym_eq(t[i], 2 * v[i], "assigned to itself");
	vec<real, 5> f; for (int i = 0; i < n; ++i) f[i] = v[i]; vec<real, 5> g = f; g *= g[k]; for (int i = 0; i < n; ++i) sym_eq(g[i], v[i] * s, "fixed *= element"); g = f; g /= g[k]; for (int i = 0; i < n; ++i) sym_eq(g[i] * s, v[i], "fixed /= element"); g = f; g = g - g; for (int i = 0; i < n; ++i) sym_eq(g[i], 0, "fixed -"); t = v; t.push(t[k]); sym_check((int) t.size() == n + 1, "push"); sym_eq(t[n], s, "push of an element"); D u = v; algebra::vec_copy(u, u); for (int i = 0; i < n; ++i) sym_eq(u[i], v[i], "copied on itself");
}

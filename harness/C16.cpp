// C16 norms and distances
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef complex<real> cx;
typedef vec<real> V;
typedef vec<cx> C;
template<typename W> static W vin(const char* p, int n) { W v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = sym_real(nm(p, i)); return v; }
static C cin_(const char* p, int n) { C v(n); for (int i = 0; i < n; ++i) v[i] = cx(sym_real(nm(p, i, 0)), sym_real(nm(p, i, 1))); return v; }
static real ab(real x) { return x < 0 ? -x : x; }
#ifdef THOROUGH
#define NM 5
#else
#define NM 3
#endif
HARNESS(l1, "t=60", "L1 norm and Manhattan distance, every vector, sizes 0..3") {
	int n = (int) sym_choose("n", 0, NM); V a = vin<V>("a", n), b = vin<V>("b", n); real e = 0; for (int i = 0; i < n; ++i) e += ab(a[i] - b[i]);
	sym_eq(algebra::manhattan_distance(a, b), e, "distance"); V d = a - b; sym_eq(algebra::l1_norm(d), e, "norm");
}
HARNESS(l2, "t=60", "L2 norm and Euclidean distance, every vector, sizes 0..6, fixed and dynamic") {
	int n = (int) sym_choose("n", 0, 6); V a = vin<V>("a", n), b = vin<V>("b", n); real e = 0; for (int i = 0; i < n; ++i) e += (a[i] - b[i]) * (a[i] - b[i]);
	errno = 0; real r = algebra::euclidean_distance(a, b); sym_eq(r * r, e, "distance squared"); sym_check(r >= 0, "sign"); V d = a - b; real q = algebra::l2_norm(d); sym_eq(q * q, e, "norm squared"); sym_check(q >= 0, "sign"); r = algebra::distance(a, b); sym_eq(r * r, e, "distance"); sym_check(errno == 0, "no error");
	if (n == 3) { vec<real, 3> u = vin<vec<real, 3>>("a", 3), v = vin<vec<real, 3>>("b", 3); r = algebra::distance(u, v); sym_eq(r * r, e, "fixed"); std::vector<real> w = {u[0] - v[0], u[1] - v[1], u[2] - v[2]}; q = algebra::l2_norm(w); sym_eq(q * q, e, "std::vector"); }
}
HARNESS(linf, "t=60", "Linf norm and Chebyshev distance: an upper bound that is attained, sizes 0..3") {
	int n = (int) sym_choose("n", 0, NM); V a = vin<V>("a", n), b = vin<V>("b", n); errno = 0; real r = algebra::chebyshev_distance(a, b); bool at = n == 0 && r == 0; for (int i = 0; i < n; ++i) { real d = ab(a[i] - b[i]); sym_check(d <= r, "bound"); at = at || r == d; } sym_check(at, "attained"); sym_check(errno == 0, "no error");
	V d = a - b; sym_eq(algebra::linf_norm(d), r, "norm");
}
HARNESS(lp, "t=60", "Lp norm and Minkowski distance for p = 1, 2 (every vector, sizes 1..2), signs included; exact powers for p = 3, 4") {
	int p = (int) sym_choose("p", 1, 2), n = (int) sym_choose("n", 1, 2); V a(n), b(n); for (int i = 0; i < n; ++i) { a[i] = sym_real_in(nm("a", i), -4, 4); b[i] = sym_real_in(nm("b", i), -4, 4); } real e = 0; for (int i = 0; i < n; ++i) e += p == 1 ? ab(a[i] - b[i]) : (a[i] - b[i]) * (a[i] - b[i]);
	real r = algebra::minkowski_distance(a, b, p); sym_eq(p == 1 ? r : r * r, e, "distance"); sym_check(r >= 0, "sign"); V d = a - b; sym_eq(algebra::lp_norm(d, p), r, "norm"); if (n == 1) { real s = algebra::minkowski_distance(a[0], b[0], p); sym_eq(p == 1 ? s : s * s, e, "numbers"); }
}
static bool cl(real a, real b) { return a - b < 1e-6 && b - a < 1e-6; }
HARNESS(lp_higher, "t=60 mode=fp", "Lp norm for p = 3, 4 at fixed vectors of both signs") {
	int s = (int) sym_choose("s", 0, 7); V v(3); v[0] = s & 1 ? 3 : -3; v[1] = s & 2 ? 4 : -4; v[2] = s & 4 ? 5 : -5; sym_check(cl(algebra::lp_norm(v, 3), 6), "3-4-5-6"); sym_check(cl(algebra::lp_norm(v, 4), 5.5692122278237566), "p = 4");
	V o(3); sym_check(cl(algebra::minkowski_distance(v, o, 3), 6), "distance"); sym_check(cl(algebra::minkowski_distance(v[0], v[1], 3), ab(v[0] - v[1])), "numbers");
}
HARNESS(lp_powers, "t=60 mode=fp", "Lp norm and Minkowski distance for p = 5..12 at fixed vectors of both signs, dynamic, fixed and std::vector") {
	static const real R[8] = {5.3522016340396725134, 5.2293641517291104056, 5.1546741356911851503, 5.1069901303792790142, 5.075446385581791962, 5.0540081434105401238, 5.0391268184167588699, 5.0286215761607059472}; int s = (int) sym_choose("s", 0, 7), p = (int) sym_choose("p", 5, 12); V v(3), o(3), w(3); v[0] = s & 1 ? 3 : -3; v[1] = s & 2 ? 4 : -4; v[2] = s & 4 ? 5 : -5; sym_check(cl(algebra::lp_norm(v, p), R[p - 5]), "norm"); sym_check(cl(algebra::minkowski_distance(v, o, p), R[p - 5]), "distance");
	for (int i = 0; i < 3; ++i) { o[i] = 2 - i; w[i] = v[i] + o[i]; } sym_check(cl(algebra::minkowski_distance(w, o, p), R[p - 5]), "distance of two vectors"); sym_check(cl(algebra::minkowski_distance(v[0], v[1], p), ab(v[0] - v[1])), "numbers"); vec<real, 3> f; f = v; sym_check(cl(algebra::lp_norm(f, p), R[p - 5]), "fixed"); std::vector<real> u = {v[0], v[1], v[2]}; sym_check(cl(algebra::lp_norm(u, p), R[p - 5]), "std::vector");
}
HARNESS(scalar, "t=60", "distance of numbers and complex numbers, every value") {
	real a = sym_real("a"), b = sym_real("b"); sym_eq(algebra::distance(a, b), ab(a - b), "numbers"); sym_eq(algebra::euclidean_distance(a, b), ab(a - b), "euclidean");
	cx z(a, b), w(sym_real("c"), sym_real("d")); cx d = algebra::distance(z, w); sym_eq(d.Im(), 0, "real"); sym_eq(d.Re() * d.Re(), (a - w.Re()) * (a - w.Re()) + (b - w.Im()) * (b - w.Im()), "complex"); sym_check(d.Re() >= 0, "sign");
}
HARNESS(hermitian, "t=60", "Hermitian distance is the root of the sum of |z_i - w_i|^2, complex vectors of sizes 1..2 in a box, null for equal vectors") {
	int n = (int) sym_choose("n", 1, 2); C a(n), b(n); real e = 0; for (int i = 0; i < n; ++i) { a[i] = cx(sym_real_in(nm("a", i, 0), -4, 4), sym_real_in(nm("a", i, 1), -4, 4)); b[i] = cx(sym_real_in(nm("b", i, 0), -4, 4), sym_real_in(nm("b", i, 1), -4, 4)); e += (a[i].Re() - b[i].Re()) * (a[i].Re() - b[i].Re()) + (a[i].Im() - b[i].Im()) * (a[i].Im() - b[i].Im()); }
	cx z = algebra::hermitian_distance(a, a); sym_eq(z.Re(), 0, "identity"); sym_eq(z.Im(), 0, "identity");
	sym_assume(e >= 1e-9); cx r = algebra::hermitian_distance(a, b); sym_near(r.Re() * r.Re(), e, 1e-9, "square"); sym_check(r.Re() >= 0, "sign"); sym_near(r.Im(), 0, 1e-9, "real"); cx s = algebra::distance(a, b); sym_near(s.Re() * s.Re(), e, 1e-9, "distance");
}
HARNESS(complex_norm, "t=60", "L2 norm of complex vectors, sizes 1..3; L1 and Linf of one element") {
	int n = (int) sym_choose("n", 1, 3); C a(n); real f = 0; for (int i = 0; i < n; ++i) { a[i] = cx(sym_real_in(nm("a", i, 0), -4, 4), sym_real_in(nm("a", i, 1), -4, 4)); f += a[i].Re() * a[i].Re() + a[i].Im() * a[i].Im(); }
	if (n == 1) { real m = algebra::l1_norm(a); sym_eq(m * m, f, "L1"); m = algebra::linf_norm(a); sym_eq(m * m, f, "Linf"); }
	sym_assume(f >= 1e-9); real q = algebra::l2_norm(a); sym_near(q * q, f, 1e-9, "complex norm"); sym_check(q >= 0, "sign");
}
HARNESS(discrete, "t=60", "discrete and Hamming distances count the elements differing by more than the tolerance, every vector, sizes 0..3") {
	int n = (int) sym_choose("n", 0, NM); real t = sym_real_in("t", 0, 4); V a = vin<V>("a", n), b = vin<V>("b", n); int k = 0; for (int i = 0; i < n; ++i) if (ab(a[i] - b[i]) > t) k++;
	sym_eq(algebra::hamming_distance(a, b, t), k, "Hamming"); sym_eq(algebra::discrete_distance(a, b, t), k ? 1 : 0, "discrete"); sym_eq(algebra::hamming_distance(a, a), 0, "equal"); sym_eq(algebra::discrete_distance(a, a), 0, "equal");
}
HARNESS(canberra, "t=60", "Canberra distance, every vector of sizes 0..2, null elements included") {
	int n = (int) sym_choose("n", 0, 2); V a(n), b(n); real e = 0; for (int i = 0; i < n; ++i) { a[i] = sym_real_in(nm("a", i), -8, 8); b[i] = sym_real_in(nm("b", i), -8, 8); real s = ab(a[i]) + ab(b[i]); if (s != 0) e += ab(a[i] - b[i]) / s; }
	real r = algebra::canberra_distance(a, b); sym_eq(r, e, "distance"); sym_eq(algebra::canberra_distance(a, a), 0, "identity");
}
HARNESS(cosine, "t=60", "cosine distance 1 - a.b/(|a||b|), every non-null vector of sizes 1..3; null for parallel, 2 for opposite vectors") {
	int n = (int) sym_choose("n", 1, 3); V a = vin<V>("a", n), b = vin<V>("b", n); real p = 0, x = 0, y = 0; for (int i = 0; i < n; ++i) { p += a[i] * b[i]; x += a[i] * a[i]; y += b[i] * b[i]; } sym_assume(x > 0 && y > 0); real r = algebra::cosine_distance(a, b); sym_eq((1 - r) * sym_sqrt(x * y), p, "cosine");
	sym_eq(algebra::cosine_distance(a, a), 0, "parallel"); V m = -a; sym_eq(algebra::cosine_distance(a, m), 2, "opposite");
}
HARNESS(scales, "mode=fp t=60", "cosine, Canberra, Euclidean, Manhattan, Chebyshev and Minkowski distances and norms of vectors of scales 1e-60, 1e-12, 1e-8, 1e-3, 1e6 and 1e60: as the vector of scale 1, to a relative 1e-9") {
	static const real S[] = {1e-60, 1e-12, 1e-8, 1e-3, 1e6, 1e60}; real s = S[sym_choose("s", 0, 5)], t = S[sym_choose("t", 0, 5)]; int n = 1 + (int) sym_choose("n", 0, 2); static const real A[] = {3, -1, 2}, B[] = {1, 4, -8}, C[] = {0, 1 - (-1.0 / 13.038404810405298), 1 - (-17.0 / 33.674916480965472)}; V a(n), b(n), c(n); real l1 = 0, l2 = 0, li = 0, ca = 0; for (int i = 0; i < n; ++i) { a[i] = A[i] * s; b[i] = B[i] * t; c[i] = B[i] * s; real d = ab(A[i] - B[i]); l1 += d; l2 += d * d; if (d > li) li = d; ca += d / (ab(A[i]) + ab(B[i])); }
	sym_near(algebra::cosine_distance(a, b), C[n - 1], 1e-9, "cosine"); sym_near(algebra::canberra_distance(a, c), ca, 1e-9, "Canberra"); sym_near(algebra::manhattan_distance(a, c) / s, l1, 1e-9, "Manhattan"); sym_near(algebra::chebyshev_distance(a, c) / s, li, 1e-9, "Chebyshev"); real e = algebra::euclidean_distance(a, c) / s, m = algebra::minkowski_distance(a, c, 1) / s; sym_near(e * e, l2, 1e-7, "Euclidean"); sym_near(m, l1, 1e-7, "Minkowski"); e = algebra::minkowski_distance(a, c, 2) / s; sym_near(e * e, l2, 1e-7, "Minkowski"); sym_near(algebra::l1_norm(a) / s, ab(A[0]) + (n > 1 ? 1 : 0) + (n > 2 ? 2 : 0), 1e-9, "L1"); sym_near(algebra::linf_norm(a) / s, 3, 1e-9, "Linf");
}
HARNESS(sizes, "t=60", "vectors of different sizes give NaN and EINVAL in every distance") {
	int n = (int) sym_choose("n", 0, 3), m = (int) sym_choose("m", 0, 3); if (n == m) return; V a(n, 1.0), b(m, 2.0);
	errno = 0; sym_check(sym_isnan(algebra::euclidean_distance(a, b)) && errno == EINVAL, "euclidean"); errno = 0; sym_check(sym_isnan(algebra::minkowski_distance(a, b, 2)) && errno == EINVAL, "minkowski"); errno = 0; sym_check(sym_isnan(algebra::manhattan_distance(a, b)) && errno == EINVAL, "manhattan"); errno = 0; sym_check(sym_isnan(algebra::chebyshev_distance(a, b)) && errno == EINVAL, "chebyshev"); errno = 0; sym_check(sym_isnan(algebra::discrete_distance(a, b)) && errno == EINVAL, "discrete");
	errno = 0; sym_check(sym_isnan(algebra::canberra_distance(a, b)) && errno == EINVAL, "canberra"); errno = 0; sym_check(sym_isnan(algebra::cosine_distance(a, b)) && errno == EINVAL, "cosine"); errno = 0; sym_check(sym_isnan(algebra::hamming_distance(a, b)) && errno == EINVAL, "hamming"); C c(n), d(m); errno = 0; sym_check(sym_isnan(algebra::hermitian_distance(c, d).Re()) && errno == EINVAL, "hermitian");
}
static const int BIG[] = {6, 9, 16, 17, 33, 64};
static int big() { return BIG[sym_choose("n", 0, 5)]; }
HARNESS(large_metric, "t=60", "norms and distances of vectors of 6, 9, 16, 17, 33 and 64 elements: three symbolic components among fixed ones of both signs") {
	int n = big(); V a(n), b(n); for (int i = 0; i < n; ++i) { a[i] = (i * 5) % 7 - 3; b[i] = (i * 3) % 4 - 1; } a[0] = sym_real_in("x", 4, 8); a[n / 2] = sym_real_in("y", -8, -4); b[n - 1] = sym_real_in("z", 4, 8);
	real m = 0, q = 0, k = 0, c = 0, h = 0; for (int i = 0; i < n; ++i) { real d = ab(a[i] - b[i]), s = ab(a[i]) + ab(b[i]); m += d; q += d * d; if (d > k) k = d; if (s != 0) c += d / s; if (d > 0.5) h += 1; }
	errno = 0; V d = a - b; sym_eq(algebra::manhattan_distance(a, b), m, "manhattan"); sym_eq(algebra::l1_norm(d), m, "L1"); real r = algebra::euclidean_distance(a, b); sym_eq(r * r, q, "euclidean"); sym_check(r >= 0, "sign"); r = algebra::l2_norm(d); sym_eq(r * r, q, "L2"); sym_eq(algebra::chebyshev_distance(a, b), k, "chebyshev"); sym_eq(algebra::linf_norm(d), k, "Linf"); sym_eq(algebra::canberra_distance(a, b), c, "canberra"); sym_eq(algebra::hamming_distance(a, b, 0.5), h, "hamming"); sym_eq(algebra::discrete_distance(a, b, 0.5), h > 0 ? 1 : 0, "discrete"); sym_eq(algebra::minkowski_distance(a, b, 1), m, "minkowski 1"); r = algebra::minkowski_distance(a, b, 2); sym_eq(r * r, q, "minkowski 2");
	real p = 0, u = 0, v = 0; for (int i = 0; i < n; ++i) { p += a[i] * b[i]; u += a[i] * a[i]; v += b[i] * b[i]; } sym_eq((1 - algebra::cosine_distance(a, b)) * sym_sqrt(u * v), p, "cosine"); sym_check(errno == 0, "no error");
	V e = a; e[n - 1] = e[n - 1] + 1; sym_eq(algebra::hamming_distance(a, e, 0.5), 1, "one difference"); sym_eq(algebra::discrete_distance(a, e, 0.5), 1, "one difference"); sym_eq(algebra::chebyshev_distance(a, e), 1, "one difference"); sym_eq(algebra::manhattan_distance(a, e), 1, "one difference");
	V o(n + 1, 1.0); errno = 0; sym_check(sym_isnan(algebra::euclidean_distance(a, o)) && errno == EINVAL, "sizes");
}
HARNESS(large_l1, "t=60", "L1, L2 and squared norms of vectors with every component symbolic (positive), the same sizes") {
	int n = big(); V a(n); real s = 0, q = 0; for (int i = 0; i < n; ++i) { a[i] = sym_real_in(nm("a", i), 1, 8); s += a[i]; q += a[i] * a[i]; } V o(n); sym_eq(algebra::l1_norm(a), s, "L1"); real r = algebra::l2_norm(a); sym_eq(r * r, q, "L2"); sym_eq(algebra::manhattan_distance(a, o), s, "manhattan"); r = algebra::distance(a, o); sym_eq(r * r, q, "distance");
}

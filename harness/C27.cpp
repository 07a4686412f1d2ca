// C27 polynomial interpolation
#include "sym.h"
#include <vector>
#include "theoretica.h"
#include "cos1024.h"
using namespace theoretica;
namespace th = theoretica;
static real F(real x) { return sym_uf1("f", x); }
static real ev(const polynomial<real>& p, real x) { real r = 0; for (int i = (int) p.size() - 1; i >= 0; --i) r = r * x + p[i]; return r; }
HARNESS(lagrange, "t=100", "the Lagrange polynomial passes through every set of points with distinct abscissae and has degree below their number, 1..4 points") {
	int n = (int) sym_choose("n", 1, 4); std::vector<vec2> p(n); for (int i = 0; i < n; ++i) { p[i][0] = sym_real(nm("x", i)); p[i][1] = sym_real(nm("y", i)); for (int j = 0; j < i; ++j) { real d = p[i][0] - p[j][0]; sym_assume(d > 1e-9 || d < -1e-9); } } errno = 0; polynomial<real> L = lagrange_polynomial(p); sym_check(errno == 0, "no error"); sym_check((int) L.size() <= n, "degree"); for (int i = 0; i < n; ++i) sym_eq(ev(L, p[i][0]), p[i][1], "point");
}
HARNESS(reproduce, "t=100", "the Lagrange polynomial of points of a polynomial of lower degree is that polynomial, every coefficient, fixed abscissae, 1..6 points") {
	int n = (int) sym_choose("n", 1, 6); static const real X[6] = {-1, 2, 0.5, -0.25, 3, 0}; polynomial<real> q; q.coeff.resize(n); for (int i = 0; i < n; ++i) q.coeff[i] = sym_real(nm("c", i)); std::vector<vec2> p(n); for (int i = 0; i < n; ++i) { p[i][0] = X[i]; p[i][1] = ev(q, X[i]); } polynomial<real> L = lagrange_polynomial(p); sym_check((int) L.size() == n, "size"); for (int i = 0; i < n && i < (int) L.size(); ++i) sym_eq(L[i], q.coeff[i], "coefficient");
}
HARNESS(errors, "t=60", "no points, or any two equal abscissae, adjacent or not, are an error, 2..4 points") {
	int n = (int) sym_choose("n", 2, 4), a = (int) sym_choose("a", 0, 2), b = (int) sym_choose("b", 1, 3); if (a >= b || b >= n) return; std::vector<vec2> p(n), e; for (int i = 0; i < n; ++i) { p[i][0] = i + 1; p[i][1] = sym_real(nm("y", i)); } real x = sym_real("x"); p[a][0] = x; p[b][0] = x; errno = 0; polynomial<real> L = lagrange_polynomial(p); sym_check(errno == EINVAL && L.size() == 1 && sym_isnan(L[0]), "equal abscissae"); errno = 0; L = lagrange_polynomial(e); sym_check(errno == EINVAL && L.size() == 1 && sym_isnan(L[0]), "no points");
}
HARNESS(grid, "t=100", "interpolation on an equidistant grid agrees with an arbitrary function at every node, the ends included, orders 0..3, every interval") {
	unsigned n = (unsigned) sym_choose("n", 0, 3); real a = sym_real("a"), w = sym_real("w"), b = a + w; sym_assume(w > 1e-9 || w < -1e-9); errno = 0; polynomial<real> L = interpolate_grid(F, a, b, n); sym_check(errno == 0, "no error"); sym_check(L.size() <= n + 1, "degree"); for (unsigned i = 0; i <= n; ++i) { real x = n ? a + w * i / n : a; sym_eq(ev(L, x), F(x), "node"); }
}
HARNESS(chebyshev_nodes, "t=60", "Chebyshev nodes are m + c cos((2i-1) pi / 2n), inside the interval, decreasing and symmetric, n = 0..8, every interval") {
	unsigned n = (unsigned) sym_choose("n", 0, 8); real a = sym_real_in("a", -8, 8), b = sym_real_in("b", -8, 8); auto v = th::chebyshev_nodes(a, b, n); vec<real> w = th::chebyshev_nodes<vec<real>>(a, b, n); sym_check(v.size() == n && w.size() == n, "size"); static const real C[9][8] = {{0}, {0}, {0.70710678118654752, -0.70710678118654752}, {0.86602540378443865, 0, -0.86602540378443865}, {0.92387953251128676, 0.38268343236508977, -0.38268343236508977, -0.92387953251128676}, {0.95105651629515357, 0.58778525229247313, 0, -0.58778525229247313, -0.95105651629515357}, {0.96592582628906829, 0.70710678118654752, 0.25881904510252076, -0.25881904510252076, -0.70710678118654752, -0.96592582628906829}, {0.97492791218182361, 0.78183148246802981, 0.43388373911755812, 0, -0.43388373911755812, -0.78183148246802981, -0.97492791218182361}, {0.98078528040323045, 0.83146961230254524, 0.55557023301960222, 0.19509032201612827, -0.19509032201612827, -0.55557023301960222, -0.83146961230254524, -0.98078528040323045}}; for (unsigned i = 0; i < n && i < v.size(); ++i) { sym_near(v[i], (a + b) / 2 + (b - a) / 2 * C[n][i], 1E-12, "node"); sym_near(w[i], v[i], 1E-12, "vec"); }
}
HARNESS(chebyshev, "t=100", "interpolation on Chebyshev nodes agrees with an arbitrary function at the nodes and reproduces polynomials of the order, orders 0..3, two intervals") {
	unsigned n = (unsigned) sym_choose("n", 0, 3); int k = (int) sym_choose("k", 0, 1); real a = k ? -1 : 0.5, b = k ? 1 : 3; polynomial<real> L = interpolate_chebyshev(F, a, b, n); sym_check(L.size() <= n + 1, "degree"); auto v = th::chebyshev_nodes(a, b, n + 1); for (unsigned i = 0; i <= n; ++i) { real y = F(v[i]); sym_assume(y >= -1 && y <= 1); } for (unsigned i = 0; i <= n; ++i) sym_near(ev(L, v[i]), F(v[i]), 1E-9, "node");
}
HARNESS(large_reproduce, "t=60", "the Lagrange polynomial of 7..16 points (ordered and unordered abscissae) passes through arbitrary ordinates") {
	int n = (int) sym_choose("n", 7, 16), k = (int) sym_choose("k", 0, 1); std::vector<vec2> p(n); for (int i = 0; i < n; ++i) { p[i][0] = k ? ((i * 7) % 17 - 8) / 8.0 : (i - n / 2) / 4.0; p[i][1] = sym_real_in(nm("y", i), -1, 1); } errno = 0; polynomial<real> L = lagrange_polynomial(p); sym_check(errno == 0, "no error"); sym_check((int) L.size() == n, "size"); for (int i = 0; i < n; ++i) sym_near(ev(L, p[i][0]), p[i][1], 1E-6, "point");
}
HARNESS(large_errors, "t=60", "two equal abscissae anywhere among 5..12 points are an error") {
	int n = (int) sym_choose("n", 5, 12), a = (int) sym_choose("a", 0, 10), b = (int) sym_choose("b", 1, 11); if (a >= b || b >= n) return; std::vector<vec2> p(n); for (int i = 0; i < n; ++i) { p[i][0] = i + 1; p[i][1] = i; } real x = sym_real("x"); p[a][0] = x; p[b][0] = x; errno = 0; polynomial<real> L = lagrange_polynomial(p); sym_check(errno == EINVAL && L.size() == 1 && sym_isnan(L[0]), "equal abscissae");
}
HARNESS(large_grid, "t=60", "grid interpolation of an arbitrary function, orders 4..12, three intervals; Chebyshev interpolation, orders 4..10") {
	unsigned n = (unsigned) sym_choose("n", 4, 12); int k = (int) sym_choose("k", 0, 3); static const real A[] = {0, -2, 3, -1}, W[] = {1, 4, -2, 2}; errno = 0; if (k == 3) { if (n > 10) return; polynomial<real> L = interpolate_chebyshev(F, -1, 1, n); sym_check(L.size() == n + 1, "degree"); auto v = th::chebyshev_nodes(-1, 1, n + 1); for (unsigned i = 0; i <= n; ++i) { real y = F(v[i]); sym_assume(y >= -1 && y <= 1); } for (unsigned i = 0; i <= n; ++i) sym_near(ev(L, v[i]), F(v[i]), 1E-6, "Chebyshev"); return; }
	polynomial<real> L = interpolate_grid(F, A[k], A[k] + W[k], n); sym_check(errno == 0 && L.size() == n + 1, "degree"); real h = W[k] / n; real xs[13]; for (unsigned i = 0; i <= n; ++i) { xs[i] = A[k] + i * h; real y = F(xs[i]); sym_assume(y >= -1 && y <= 1); } for (unsigned i = 0; i <= n; ++i) sym_near(ev(L, xs[i]), F(xs[i]), 1E-6, "grid");
}
HARNESS(many_nodes, "mode=fp t=60", "Chebyshev nodes, n = 16, 32, 64, 128 and 256, two intervals: m + c cos((2i-1) pi / 2n) to 1e-9") {
	int n = 16 << sym_choose("n", 0, 4), k = (int) sym_choose("k", 0, 1); real a = k ? 3 : -1, b = k ? -5 : 2; auto v = th::chebyshev_nodes(a, b, n); vec<real> w = th::chebyshev_nodes<vec<real>>(a, b, n); sym_check((int) v.size() == n && (int) w.size() == n, "size"); for (int i = 0; i < n; ++i) { int t = (2 * i + 1) * (256 / n); real c = t <= 256 ? C1024[t] : -C1024[512 - t]; sym_near(v[i], (a + b) / 2 + (b - a) / 2 * c, 1e-9, "node"); sym_near(w[i], v[i], 1e-12, "vec"); }
}
HARNESS(many_points, "t=90 max_path_instr=40000000 max_instr=200000000", "grid interpolation of orders 16, 20 and 24 over two symmetric intervals agrees with every a + b / (1 + x^2) at the nodes, within the conditioning of the problem (1e-3 and 0.1)") {
	int n = 16 + 4 * (int) sym_choose("n", 0, 2), k = (int) sym_choose("k", 0, 1); static const real A[] = {-1, 2}, W[] = {2, -4}; real a = sym_real_in("a", -1, 1), b = sym_real_in("b", -1, 1); auto f = [a, b](real x) { return a + b / (1 + x * x); }; errno = 0; polynomial<real> L = interpolate_grid(f, A[k], A[k] + W[k], n); sym_check(errno == 0 && (int) L.size() == n + 1, "degree"); for (int i = 0; i <= n; ++i) { real x = A[k] + i * (W[k] / n); sym_near(ev(L, x), f(x), n > 20 ? 0.1 : 1e-3, "grid"); }
}

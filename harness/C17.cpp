// C17 parallel element-wise evaluation: independent of the team and the schedule
// FLAGS: -fopenmp
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef complex<real> cx;
#ifdef THOROUGH
#define NMAX 8
#else
#define NMAX 4
#endif
template<typename W> static W in(int n, real lo, real hi) { W v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = sym_real_in(nm("x", i), lo, hi); return v; }
template<typename W, typename P, typename S> static void each_(int n, real lo, real hi, P par, S seq) {
	W v = in<W>(n, lo, hi), u = v; const W r = par(v); sym_check(r.size() == v.size(), "size");
	for (int i = 0; i < n; ++i) { sym_eq(r[i], seq(u[i]), "element"); sym_eq(v[i], u[i], "argument unchanged"); }
}
template<typename P, typename S> static void each(real lo, real hi, P par, S seq) {
	int n = (int) sym_choose("n", 0, NMAX); each_<std::vector<real>>(n, lo, hi, par, seq); each_<vec<real>>(n, lo, hi, par, seq); if (n == 3) each_<vec<real, 3>>(3, lo, hi, par, seq);
}
#define PAR(f, lo, hi) HARNESS(par_##f, "t=60", "parallel::" #f " applies " #f " to every element, vectors of 0.." "8 elements, any schedule of a team of 8; no data race") { each(lo, hi, [](const auto& v) { return parallel::f(v); }, [](real x) { return th::f(x); }); }
PAR(square, -1e6, 1e6) PAR(cube, -1e6, 1e6) PAR(abs, 0.5, 1e6) PAR(sqrt, 0.5, 1e6) PAR(exp, 0.5, 4) PAR(ln, 0.5, 4) PAR(log2, 0.5, 4) PAR(log10, 0.5, 4)
PAR(sin, 0.25, 1) PAR(cos, 0.25, 1) PAR(asin, 0.25, 0.75) PAR(acos, 0.25, 0.75) PAR(atan, 0.25, 1) PAR(sinh, 0.25, 1) PAR(cosh, 0.25, 1) PAR(tanh, 0.25, 1) PAR(coth, 0.25, 1)
HARNESS(par_pow, "t=60", "parallel::pow, exponents -3..5") { int k = (int) sym_choose("k", -3, 5); each(0.5, 1e3, [k](const auto& v) { return parallel::pow(v, k); }, [k](real x) { return th::pow(x, k); }); }
HARNESS(par_pow_wide, "t=60 mode=fp", "parallel::pow with exponents to +-1000, powers of two exactly") {
	static const int E[] = {20, 31, 64, 127, 128, 200, 255, 256, 300, 512, 1000, -64, -128, -200, -256, -300, -1000}; int k = E[sym_choose("k", 0, 16)]; std::vector<real> v = {1, 2, 0.5, -2, -1}; auto r = parallel::pow(v, k); sym_check(r.size() == 5, "size"); if (r.size() != 5) return; real p = 1, q = 1; for (int i = 0; i < (k < 0 ? -k : k); ++i) { p *= k < 0 ? 0.5 : 2; q *= k < 0 ? 2 : 0.5; } sym_check(r[0] == 1 && r[1] == p && r[2] == q && r[3] == (k % 2 ? -p : p) && r[4] == (k % 2 ? -1 : 1), "power");
}
HARNESS(par_powf, "t=60", "parallel::powf, every exponent of the box") { real a = sym_real_in("a", 0.25, 2); each(0.5, 4, [a](const auto& v) { return parallel::powf(v, a); }, [a](real x) { return th::powf(x, a); }); }
HARNESS(par_apply, "t=60", "parallel::apply_function with an arbitrary function") { each(-1e6, 1e6, [](const auto& v) { return parallel::apply_function([](real x) { return sym_uf1("f", x); }, v); }, [](real x) { return sym_uf1("f", x); }); }
HARNESS(par_abs_sign, "t=60", "parallel::abs on both signs, 0..3 elements") { int n = (int) sym_choose("n", 0, 3); std::vector<real> v = in<std::vector<real>>(n, -8, 8), r = parallel::abs(v); for (int i = 0; i < n; ++i) sym_eq(r[i], v[i] < 0 ? -v[i] : v[i], "element"); }
HARNESS(par_complex, "t=60", "parallel square, cube and exp of complex vectors") {
	int n = (int) sym_choose("n", 0, 4); vec<cx> v(n); for (int i = 0; i < n; ++i) v[i] = cx(sym_real_in(nm("a", i), -4, 4), sym_real_in(nm("b", i), -4, 4));
	vec<cx> s = parallel::square(v), c = parallel::cube(v), e = parallel::exp(v);
	for (int i = 0; i < n; ++i) { cx q = v[i] * v[i], k = q * v[i]; sym_eq(s[i].Re(), q.Re(), "square"); sym_eq(s[i].Im(), q.Im(), "square"); sym_eq(c[i].Re(), k.Re(), "cube"); sym_eq(c[i].Im(), k.Im(), "cube"); cx z = th::exp(v[i]); sym_eq(e[i].Re(), z.Re(), "exp"); sym_eq(e[i].Im(), z.Im(), "exp"); }
}
template<typename P, typename S> static void trig(P par, S seq) { int n = (int) sym_choose("n", 0, 4); for (int i = 0; i < n; ++i) { real x = sym_real_in(nm("x", i), 0.25, 1); sym_assume(sym_cos(x) >= 0.1 && sym_sin(x) >= 0.1); } each_<vec<real>>(n, 0.25, 1, par, seq); }
HARNESS(par_tan, "t=60", "parallel::tan") { trig([](const auto& v) { return parallel::tan(v); }, [](real x) { return th::tan(x); }); }
HARNESS(par_cot, "t=60", "parallel::cot") { trig([](const auto& v) { return parallel::cot(v); }, [](real x) { return th::cot(x); }); }
HARNESS(par_cbrt, "t=60", "parallel::cbrt at fixed values, 0..4 elements in any of 5 rotations") { int n = (int) sym_choose("n", 0, 4), k = (int) sym_choose("k", 0, 4); vec<real> v(n); for (int i = 0; i < n; ++i) v[i] = (i + k) % 5 * 3 - 4; vec<real> r = parallel::cbrt(v); sym_check(r.size() == v.size(), "size"); for (int i = 0; i < n; ++i) sym_near(r[i], th::cbrt(v[i]), 1e-9, "element"); }
#define LARGE(f, lo, hi) { std::vector<real> v(n); for (int i = 0; i < n; ++i) v[i] = lo + (hi - lo) * ((i * 13) % n) / n; v[n - 1] = sym_real_in("x", lo, hi); std::vector<real> r = parallel::f(v); sym_check(r.size() == v.size(), #f); for (int i = 0; i < n; ++i) sym_eq(r[i], th::f(v[i]), #f); }
HARNESS(large_algebraic, "t=90", "square, cube, abs, sqrt of 9, 20 and 50 elements, the last one symbolic, any schedule of a team of 8") { static const int B[] = {9, 20, 50}; int n = B[sym_choose("n", 0, 2)]; LARGE(square, 1, 8) LARGE(cube, 1, 8) LARGE(abs, 1, 8) LARGE(sqrt, 1, 8) }
HARNESS(large_apply, "t=90", "apply_function with an arbitrary function on 9, 20, 50 and 130 symbolic elements") {
	static const int B[] = {9, 20, 50, 130}; int n = B[sym_choose("n", 0, 3)]; each_<std::vector<real>>(n, -1e6, 1e6, [](const auto& v) { return parallel::apply_function([](real x) { return sym_uf1("f", x); }, v); }, [](real x) { return sym_uf1("f", x); }); each_<vec<real>>(n, -1e6, 1e6, [](const auto& v) { return parallel::square(v); }, [](real x) { return x * x; });
}

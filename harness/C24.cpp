// C24 ordinary differential equations
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static real f1(real t, const real& x) { return sym_uf2("f", t, x); }
typedef real (*fn1)(real, const real&);
template<typename V> static V fv(real t, const V& x) { V r; r.resize(2); r[0] = sym_uf3("g", t, x[0], x[1]); r[1] = sym_uf3("h", t, x[0], x[1]); return r; }
// Butcher tableaux: a (strictly lower triangular), b, c
struct tab { int s; real c[4], a[4][4], b[4]; };
static const tab T[6] = {
	{1, {0}, {{0}}, {1}},
	{2, {0, 0.5}, {{0}, {0.5}}, {0, 1}},
	{2, {0, 1}, {{0}, {1}}, {0.5, 0.5}},
	{2, {0, 0.5}, {{0}, {0.5}}, {0, 1}},
	{4, {0, 0.5, 0.5, 1}, {{0}, {0.5}, {0, 0.5}, {0, 0, 1}}, {1.0 / 6, 1.0 / 3, 1.0 / 3, 1.0 / 6}},
	{4, {0, 1.0 / 3, 2.0 / 3, 1}, {{0}, {1.0 / 3}, {-1.0 / 3, 1}, {1, -1, 1}}, {1.0 / 8, 3.0 / 8, 3.0 / 8, 1.0 / 8}}};
static void rk(const tab& m, int n, real t, const real* x, real h, real* out) { real k[4][2]; for (int s = 0; s < m.s; ++s) { real y[2] = {0, 0}; for (int i = 0; i < n; ++i) { y[i] = x[i]; for (int j = 0; j < s; ++j) y[i] += h * m.a[s][j] * k[j][i]; } if (n == 1) k[s][0] = sym_uf2("f", t + m.c[s] * h, y[0]); else { k[s][0] = sym_uf3("g", t + m.c[s] * h, y[0], y[1]); k[s][1] = sym_uf3("h", t + m.c[s] * h, y[0], y[1]); } } for (int i = 0; i < n; ++i) { out[i] = x[i]; for (int s = 0; s < m.s; ++s) out[i] += h * m.b[s] * k[s][i]; } }
template<typename V, typename G> static V step(int m, G f, const V& x, real t, real h) { switch (m) { case 0: return ode::step_euler<V, G>(f, x, t, h); case 1: return ode::step_midpoint<V, G>(f, x, t, h); case 2: return ode::step_heun<V, G>(f, x, t, h); case 3: return ode::step_rk2<V, G>(f, x, t, h); case 4: return ode::step_rk4<V, G>(f, x, t, h); default: return ode::step_k38<V, G>(f, x, t, h); } }
HARNESS(steps_scalar, "t=60", "Euler, midpoint, Heun, RK2, RK4 and 3/8 steps equal their Butcher tableaux for an arbitrary scalar equation, every state, time and step") {
	int m = (int) sym_choose("m", 0, 5); real t = sym_real("t"), x = sym_real("x"), h = sym_real("h"), e; rk(T[m], 1, t, &x, h, &e); sym_eq(step<real, fn1>(m, f1, x, t, h), e, "step");
}
HARNESS(steps_system, "t=60", "the same for an arbitrary system of two equations, fixed and dynamic vectors; the state is unchanged") {
	int m = (int) sym_choose("m", 0, 5); real t = sym_real("t"), h = sym_real("h"), x[2] = {sym_real("x"), sym_real("y")}, e[2]; rk(T[m], 2, t, x, h, e); vec2 v = {x[0], x[1]}; vec<real> w = {x[0], x[1]}; typedef vec2 (*F2)(real, const vec2&); typedef vec<real> (*Fd)(real, const vec<real>&); vec2 a = step<vec2, F2>(m, fv<vec2>, v, t, h); vec<real> b = step<vec<real>, Fd>(m, fv<vec<real>>, w, t, h); sym_check(b.size() == 2, "size"); for (int i = 0; i < 2; ++i) { sym_eq(a[i], e[i], "fixed"); sym_eq(b[i], e[i], "dynamic"); sym_eq(v[i], x[i], "state"); sym_eq(w[i], x[i], "state"); }
}
HARNESS(order, "t=60", "order conditions: a method of order p integrates every polynomial right-hand side of degree p-1 in time exactly and x' = k x to the Taylor polynomial of order p, every value") {
	int m = (int) sym_choose("m", 0, 5); static const int P[6] = {1, 2, 2, 2, 4, 4}; int p = P[m]; real t = sym_real("t"), x = sym_real("x"), h = sym_real("h"), k = sym_real("k"), c[4]; for (int i = 0; i < 4; ++i) c[i] = sym_real(nm("c", i)); auto f = [c, p](real s, const real&) -> real { real r = 0; for (int i = p - 1; i >= 0; --i) r = r * s + c[i]; return r; }; auto prim = [c, p](real s) { real r = 0; for (int i = p - 1; i >= 0; --i) r = r * s + c[i] / (i + 1); return r * s; }; sym_eq(step<real>(m, f, x, t, h), x + prim(t + h) - prim(t), "polynomial in time"); auto g = [k](real, const real& y) -> real { return k * y; }; real z = k * h, s = 1, q = 1; for (int i = 1; i <= p; ++i) { q = q * z / i; s += q; } sym_eq(step<real>(m, g, x, t, h), x * s, "linear equation");
}
HARNESS(adams, "t=60", "Adams-Bashforth steps of order 2 and 3 of an arbitrary equation, and their exactness on polynomial right-hand sides with equally spaced times, every value") {
	real t = sym_real("t"), h = sym_real("h"), x0 = sym_real("x0"), x1 = sym_real("x1"), x2 = sym_real("x2"), t1 = sym_real("t1"), t2 = sym_real("t2"); sym_eq(ode::step_adams2<real, fn1>(f1, x0, t, x1, t1, h), x1 + h * (3 * f1(t1, x1) - f1(t, x0)) / 2, "order 2"); sym_eq(ode::step_adams3<real, fn1>(f1, x0, t, x1, t1, x2, t2, h), x2 + h * (23 * f1(t2, x2) - 16 * f1(t1, x1) + 5 * f1(t, x0)) / 12, "order 3");
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"); auto l = [a, b](real s, const real&) -> real { return a + b * s; }; auto q = [a, b, c](real s, const real&) -> real { return a + b * s + c * s * s; }; real u = t + h, v = t + 2 * h, w = t + 3 * h; sym_eq(ode::step_adams2<real>(l, x0, t, x1, u, h), x1 + a * h + b * (v * v - u * u) / 2, "exact 2"); sym_eq(ode::step_adams3<real>(q, x0, t, x1, u, x2, v, h), x2 + a * h + b * (w * w - v * v) / 2 + c * (w * w * w - v * v * v) / 3, "exact 3");
	vec2 y0 = {x0, x1}, y1 = {x1, x2}, y2 = {x2, x0}; typedef vec2 (*F2)(real, const vec2&); vec2 r = ode::step_adams3<vec2, F2>(fv<vec2>, y0, t, y1, t1, y2, t2, h), s = ode::step_adams2<vec2, F2>(fv<vec2>, y0, t, y1, t1, h); vec2 p0 = fv(t, y0), p1 = fv(t1, y1), p2 = fv(t2, y2); for (int i = 0; i < 2; ++i) { sym_eq(r[i], y2[i] + h * (23 * p2[i] - 16 * p1[i] + 5 * p0[i]) / 12, "system"); sym_eq(s[i], y1[i] + h * (3 * p1[i] - p0[i]) / 2, "system"); }
}
static real lin(real t, const real& x) { return 2 * x - t; }
template<typename S> static S solve(int m, fn1 f, real x0, real t0, real tf, real h) { switch (m) { case 0: return ode::solve_euler<real, fn1>(f, x0, t0, tf, h); case 1: return ode::solve_midpoint<real, fn1>(f, x0, t0, tf, h); case 2: return ode::solve_heun<real, fn1>(f, x0, t0, tf, h); case 3: return ode::solve_rk2<real, fn1>(f, x0, t0, tf, h); case 4: return ode::solve_rk4<real, fn1>(f, x0, t0, tf, h); default: return ode::solve_k38<real, fn1>(f, x0, t0, tf, h); } }
HARNESS(solvers, "t=60", "the solvers iterate their step from the initial state over equally spaced times and end exactly at the final time with a shortened step, intervals of 0..3.75 steps, every initial time and state") {
	int m = (int) sym_choose("m", 0, 5), l = (int) sym_choose("l", 0, 7); real len = l * 0.25, h = 0.5; if (l == 6) len = 1.75; if (l == 7) len = 1.875; real t0 = sym_real_in("t", -4, 4), x0 = sym_real("x"), tf = t0 + len; errno = 0; ode::ode_solution1d s = solve<ode::ode_solution1d>(m, lin, x0, t0, tf, h); sym_check(errno == 0, "no error"); int full = (int) (len / h), n = full + (len > full * h ? 1 : 0) + 1; sym_check((int) s.t.size() == n && (int) s.x.size() == n, "points"); if ((int) s.t.size() != n || (int) s.x.size() != n) return;
	sym_eq(s.t[0], t0, "initial time"); sym_eq(s.x[0], x0, "initial state"); real x = x0, t = t0; for (int i = 1; i < n; ++i) { real d = i <= full ? h : tf - t; x = step<real, fn1>(m, lin, x, t, d); t = t + d; sym_eq(s.t[i], t, "time"); sym_eq(s.x[i], x, "state"); } sym_eq(s.t[n - 1], tf, "final time");
}
HARNESS(solve_system, "t=60", "solving an arbitrary system in fixed and dynamic vectors gives the iterated step, two and a half steps") {
	real x[2] = {sym_real("x"), sym_real("y")}, t0 = sym_real_in("t", -2, 2); vec2 v = {x[0], x[1]}; vec<real> w = {x[0], x[1]}; typedef vec2 (*F2)(real, const vec2&); typedef vec<real> (*Fd)(real, const vec<real>&); auto a = ode::solve_euler<vec2, F2>(fv<vec2>, v, t0, t0 + 1.25, 0.5); auto b = ode::solve_rk2<vec<real>, Fd>(fv<vec<real>>, w, t0, t0 + 1.25, 0.5); sym_check(a.x.size() == 4 && b.x.size() == 4, "points"); real p[2] = {x[0], x[1]}, q[2] = {x[0], x[1]}, o[2]; for (int i = 1; i < 4; ++i) { real h = i == 3 ? 0.25 : 0.5, t = t0 + 0.5 * (i - 1); rk(T[0], 2, t, p, h, o); p[0] = o[0]; p[1] = o[1]; rk(T[3], 2, t, q, h, o); q[0] = o[0]; q[1] = o[1]; for (int j = 0; j < 2; ++j) { sym_eq(a.x[i][j], p[j], "Euler"); sym_eq(b.x[i][j], q[j], "RK2"); } }
}
HARNESS(custom, "t=60", "solve_fixstep calls an arbitrary stepper once per step with the state, time and step size") {
	real x0 = sym_real("x"), t0 = sym_real_in("t", -2, 2); auto st = [](fn1, const real& x, real t, real h) -> real { return sym_uf3("step", x, t, h); }; auto s = ode::solve_fixstep<real, fn1>(f1, x0, t0, t0 + 0.75, st, 0.25); sym_check(s.x.size() == 4, "points"); real x = x0, t = t0; for (int i = 1; i < 4; ++i) { x = sym_uf3("step", x, t, 0.25); t += 0.25; sym_eq(s.x[i], x, "state"); sym_eq(s.t[i], t, "time"); }
}
HARNESS(errors, "t=60", "a final time before the initial one or a step size which is not positive is an error, for scalar and vector equations") {
	real t0 = sym_real("t"), d = sym_real_in("d", 0.125, 4), x = sym_real("x"); errno = 0; ode::ode_solution1d s = ode::solve_rk4<real, fn1>(f1, x, t0, t0 - d, 0.5); sym_check(errno == EINVAL && s.t.size() == 1 && sym_isnan(s.t[0]), "scalar"); typedef vec<real> (*Fd)(real, const vec<real>&); vec<real> w = {x, x}; errno = 0; auto b = ode::solve_rk4<vec<real>, Fd>(fv<vec<real>>, w, t0, t0 - d, 0.5); sym_check(errno == EINVAL && b.t.size() == 1 && sym_isnan(b.t[0]), "vector"); real h = sym_real_in("h", -2, 0); errno = 0; s = ode::solve_euler<real, fn1>(f1, x, t0, t0 + d, h); sym_check(errno == EINVAL && sym_isnan(s.t[0]), "step size");
}
HARNESS(large_solvers, "t=60", "the same over 5.5, 8, 10.25, 16, 33 and 40.5 steps of two step sizes, all methods") {
	static const real L[] = {5.5, 8, 10.25, 16, 33, 40.5}; int m = (int) sym_choose("m", 0, 5), l = (int) sym_choose("l", 0, 5); real h = sym_choose("h", 0, 1) ? 0.5 : 0.0625, len = L[l] * h; real t0 = -1.5, x0 = sym_real("x"), tf = t0 + len; errno = 0; ode::ode_solution1d s = solve<ode::ode_solution1d>(m, lin, x0, t0, tf, h); sym_check(errno == 0, "no error"); int full = (int) L[l], n = full + (L[l] > full ? 1 : 0) + 1; sym_check((int) s.t.size() == n && (int) s.x.size() == n, "points"); if ((int) s.t.size() != n || (int) s.x.size() != n) return;
	sym_eq(s.t[0], t0, "initial time"); sym_eq(s.x[0], x0, "initial state"); real x = x0, t = t0; for (int i = 1; i < n; ++i) { real d = i <= full ? h : tf - t; x = step<real, fn1>(m, lin, x, t, d); t = t + d; sym_eq(s.t[i], t, "time"); sym_eq(s.x[i], x, "state"); } sym_eq(s.t[n - 1], tf, "final time");
}
// x_i' = t + sum over j of (i - 2 j) x_j
template<typename V> static V fl(real t, const V& x) { V r; r.resize(x.size()); for (unsigned i = 0; i < x.size(); ++i) { real s = t; for (unsigned j = 0; j < x.size(); ++j) s += ((int) i - 2 * (int) j) * x[j]; r[i] = s; } return r; }
HARNESS(large_system, "t=60", "all steps and solvers on linear systems of 3, 5 and 8 equations, dynamic and fixed (5) vectors: the step of the tableau and its iteration") {
	int m = (int) sym_choose("m", 0, 5), c = (int) sym_choose("n", 0, 3); static const int N[] = {3, 5, 8, 5}; int n = N[c]; real t = sym_real("t"), h = 0.25; std::vector<real> x(n); for (int i = 0; i < n; ++i) x[i] = sym_real(nm("x", i));
	std::vector<std::vector<real>> k(4, std::vector<real>(n)); std::vector<real> e(x); const tab& M = T[m]; for (int s = 0; s < M.s; ++s) { std::vector<real> y(x); for (int i = 0; i < n; ++i) for (int j = 0; j < s; ++j) y[i] += h * M.a[s][j] * k[j][i]; for (int i = 0; i < n; ++i) { real q = t + M.c[s] * h; for (int j = 0; j < n; ++j) q += (i - 2 * j) * y[j]; k[s][i] = q; } } for (int i = 0; i < n; ++i) for (int s = 0; s < M.s; ++s) e[i] += h * M.b[s] * k[s][i];
	typedef vec<real> (*Fd)(real, const vec<real>&); typedef vec<real, 5> (*F5)(real, const vec<real, 5>&);
	if (c < 3) { vec<real> w; w.resize(n); for (int i = 0; i < n; ++i) w[i] = x[i]; vec<real> b = step<vec<real>, Fd>(m, fl<vec<real>>, w, t, h); sym_check((int) b.size() == n, "size"); for (int i = 0; i < n; ++i) { sym_eq(b[i], e[i], "dynamic"); sym_eq(w[i], x[i], "state"); } }
	else { vec<real, 5> w; for (int i = 0; i < n; ++i) w[i] = x[i]; vec<real, 5> b = step<vec<real, 5>, F5>(m, fl<vec<real, 5>>, w, t, h); for (int i = 0; i < n; ++i) sym_eq(b[i], e[i], "fixed"); }
}
HARNESS(large_solve_system, "t=60", "the solvers on linear systems of 3 and 5 equations iterate their step over 6.5 steps") {
	int m = (int) sym_choose("m", 0, 5), n = sym_choose("n", 0, 1) ? 5 : 3; typedef vec<real> V; typedef V (*Fd)(real, const V&); V w; w.resize(n); for (int i = 0; i < n; ++i) w[i] = sym_real(nm("x", i)); real h = 0.25, t0 = 1; Fd f = fl<V>; real tf = t0 + 6.5 * h; auto s = ode::solve_euler<V, Fd>(f, w, t0, t0 + h, h); switch (m) { case 0: s = ode::solve_euler<V, Fd>(f, w, t0, tf, h); break; case 1: s = ode::solve_midpoint<V, Fd>(f, w, t0, tf, h); break; case 2: s = ode::solve_heun<V, Fd>(f, w, t0, tf, h); break; case 3: s = ode::solve_rk2<V, Fd>(f, w, t0, tf, h); break; case 4: s = ode::solve_rk4<V, Fd>(f, w, t0, tf, h); break; default: s = ode::solve_k38<V, Fd>(f, w, t0, tf, h); }
	sym_check(s.t.size() == 8 && s.x.size() == 8, "points"); if (s.x.size() != 8) return; V x = w; for (int i = 0; i < 8; ++i) { if (i) x = step<V, Fd>(m, f, x, t0 + (i - 1) * h, i == 7 ? h / 2 : h); sym_eq(s.t[i], i == 7 ? tf : t0 + i * h, "time"); sym_check((int) s.x[i].size() == n, "size"); for (int j = 0; j < n; ++j) sym_eq(s.x[i][j], x[j], "state"); }
}
HARNESS(remainders, "t=60", "the solvers add a last step of whatever length is left: 2^-10, 2^-13, 2^-20, 2^-30, 1 - 2^-13 and 1 - 2^-30 of a step after 0, 1, 3 steps of two sizes, from -1.5 and 1024, every initial state") {
	static const real L[] = {0.0009765625, 0.0001220703125, 9.5367431640625e-07, 9.313225746154785e-10, 1 - 0.0001220703125, 1 - 9.313225746154785e-10}; int m = (int) sym_choose("m", 0, 5), l = (int) sym_choose("l", 0, 5), k = (int) sym_choose("k", 0, 2), full = k == 2 ? 3 : k; int hk = (int) sym_choose("h", 0, 2); real h = hk == 1 ? 0.5 : 0.0078125, t0 = hk == 2 ? 1024 : -1.5, x0 = sym_real("x"), tf = t0 + (full + L[l]) * h; errno = 0; ode::ode_solution1d s = solve<ode::ode_solution1d>(m, lin, x0, t0, tf, h); sym_check(errno == 0, "no error"); int n = full + 2; sym_check((int) s.t.size() == n && (int) s.x.size() == n, "points"); if ((int) s.t.size() != n || (int) s.x.size() != n) return;
	real x = x0, t = t0; for (int i = 1; i < n; ++i) { real d = i <= full ? h : tf - t; x = step<real, fn1>(m, lin, x, t, d); t = t + d; sym_eq(s.t[i], t, "time"); sym_eq(s.x[i], x, "state"); } sym_eq(s.t[n - 1], tf, "final time");
}
static real in_time(real t, const real& x) { return 2 * t; }
HARNESS(many_steps, "t=90", "129, 260.5 and 1030.25 steps of x' = 2 t, all methods: every state and time, every initial state") {
	static const real L[] = {129, 260.5, 1030.25}; int m = (int) sym_choose("m", 0, 5), l = (int) sym_choose("l", 0, 2); real h = 0.0625, t0 = -2, x0 = sym_real("x"), tf = t0 + L[l] * h; errno = 0; ode::ode_solution1d s = solve<ode::ode_solution1d>(m, in_time, x0, t0, tf, h); sym_check(errno == 0, "no error"); int full = (int) L[l], n = full + (L[l] > full ? 1 : 0) + 1; sym_check((int) s.t.size() == n && (int) s.x.size() == n, "points"); if ((int) s.t.size() != n || (int) s.x.size() != n) return;
	real x = x0; for (int i = 1; i < n; ++i) { real t = t0 + (i - 1) * h, u = i <= full ? t + h : tf; sym_eq(s.t[i], u, "time"); x += m == 0 ? 2 * t * (u - t) : u * u - t * t; sym_eq(s.x[i], x, "state"); }
}

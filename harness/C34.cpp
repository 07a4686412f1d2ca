// C34 sampling and Monte Carlo methods
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef std::vector<real> sv;
typedef std::vector<uint64_t> wv;
// a generator which replays the words p[1], p[2], ... : the samplers are decided for every stream of words
static uint64_t scripted(uint64_t, std::vector<uint64_t>& p) { return p[++p[0]]; }
static PRNG script(const wv& w) { wv p(1, 0); for (unsigned i = 0; i < w.size(); ++i) p.push_back(w[i]); return PRNG(scripted, 0, p); }
static wv words(int n) { wv w(n); for (int i = 0; i < n; ++i) w[i] = sym_u64(nm("w", i)); return w; }
static unsigned drawn(const PRNG& g) { return (unsigned) g.get_param()[0]; }
static real U(uint64_t w) { return (real) (w & 0x7fffffffu) / 2147483648.0; }
typedef real (*sampler)(const sv&, PRNG&);
static void badsize(sampler s, unsigned n, const char* id) { for (unsigned k = 0; k < 4; ++k) if (k != n) { sv t(k, 1.0); PRNG g = script({7, 7, 7, 7}); errno = 0; real z = s(t, g); sym_check(sym_isnan(z) && errno == EINVAL, id); } }
#ifndef THEORETICA_DISABLE_X86
HARNESS(uniform, "t=60", "rand_uniform maps the next word to a + (b - a) u with u in [0, 1), every word, interval and precision; parameter vectors agree and wrong sizes are errors") {
	wv w = words(1); real a = sym_real("a"), b = sym_real("b"); PRNG g = script(w), h = script(w); real x = rand_uniform(a, b, g); sym_check(drawn(g) == 1, "one draw"); sym_eq(x, a + (b - a) * U(w[0]), "value"); sym_eq(rand_uniform(sv{a, b}, h), x, "wrapper"); if (a <= b) sym_check(x >= a && (x < b || a == b), "range"); badsize(rand_uniform, 2, "size"); PRNG k = script(w); uint64_t q = 1 + sym_choose("q", 0, 9); real y = rand_uniform(0, 1, k, q); sym_eq(y * q, (real) (w[0] % q), "precision");
}
HARNESS(discrete, "t=60", "coin tosses are +-1 by parity and dice rolls are 1 + word mod faces, every word; no faces, negative faces and wrong sizes are errors") {
	wv w = words(1); PRNG g = script(w), h = script(w), k = script(w), l = script(w); real c = rand_cointoss(g); sym_eq(c, w[0] & 1 ? -1 : 1, "coin"); sym_eq(rand_cointoss(sv{}, h), c, "coin wrapper"); unsigned f = (unsigned) sym_choose("f", 0, 20); errno = 0; real d = rand_diceroll(f, k); if (f == 0) { sym_check(sym_isnan(d) && errno == EINVAL, "no faces"); errno = 0; d = rand_diceroll(sv{-1.0}, k); sym_check(sym_isnan(d) && errno == EINVAL, "negative"); badsize(rand_diceroll, 1, "size"); return; } sym_eq(d, (real) (w[0] % f + 1), "dice"); sym_eq(rand_diceroll(sv{(real) f}, l), d, "dice wrapper"); sym_check(errno == 0 && drawn(k) == 1, "one draw");
}
HARNESS(exponential, "t=60", "exponential samples are the quantile -ln(1 - u)/lambda, non-negative for a positive rate, every word; a null rate is an error") {
	wv w = words(1); real l = sym_real("l"); sym_assume(l == 0 || l >= 1e-9 || l <= -1e-9); PRNG g = script(w), h = script(w); errno = 0; real x = rand_exponential(l, g); if (l == 0) { sym_check(sym_isnan(x) && errno == ERANGE, "null rate"); badsize(rand_exponential, 1, "size"); return; } sym_check(errno == 0, "no error"); sym_eq(x * l, -sym_ln(1 - U(w[0])), "quantile"); sym_eq(rand_exponential(sv{l}, h), x, "wrapper");
}
HARNESS(rayleigh, "t=60", "rayleigh samples are sigma sqrt(-2 ln(1 - u)), every word and sigma") {
	wv w = words(1); real s = sym_real("s"); sym_assume(sym_ln(1 - U(w[0])) <= 0); PRNG g = script(w), h = script(w); errno = 0; real x = rand_rayleigh(s, g); sym_check(errno == 0, "no error"); sym_eq(x * x, -2 * s * s * sym_ln(1 - U(w[0])), "quantile"); sym_check(x * s >= 0, "sign"); sym_eq(rand_rayleigh(sv{s}, h), x, "wrapper"); badsize(rand_rayleigh, 1, "size");
}
HARNESS(cauchy, "t=60", "cauchy samples are mu + alpha tan(pi (u - 1/2)) of the first non-null uniform, every words") {
	wv w = words(2); real m = sym_real("m"), a = sym_real("a"); real u = U(w[0]); int n = 1; if (u == 0) { u = U(w[1]); n = 2; sym_assume(u > 0); } real t = PI * (u - 0.5), c = sym_cos(t); sym_assume(c > 1e-9); PRNG g = script(w), h = script(w); errno = 0; real x = rand_cauchy(m, a, g); sym_check(errno == 0, "no error"); sym_check(drawn(g) == n, "draws"); sym_eq((x - m) * c, a * sym_sin(t), "quantile"); sym_eq(rand_cauchy(sv{m, a}, h), x, "wrapper"); badsize(rand_cauchy, 2, "size");
}
HARNESS(laplace, "t=60", "laplace samples are mu -+ b ln(1 - u) with the sign of a coin toss, every words") {
	wv w = words(2); real m = sym_real("m"), b = sym_real("b"); PRNG g = script(w), h = script(w); errno = 0; real x = rand_laplace(m, b, g); sym_check(errno == 0, "no error"); sym_eq(x, m - (w[1] & 1 ? -1 : 1) * b * sym_ln(1 - U(w[0])), "quantile"); sym_eq(rand_laplace(sv{m, b}, h), x, "wrapper"); badsize(rand_laplace, 2, "size");
}
HARNESS(pareto, "t=60", "pareto samples are x_m (1 - u)^(-1/alpha), every word") {
	wv w = words(1); real m = sym_real("m"), a = sym_real_in("a", 0.0625, 16); PRNG g = script(w), h = script(w); errno = 0; real x = rand_pareto(m, a, g); sym_check(errno == 0, "no error"); sym_eq(x * sym_exp(sym_ln(1 - U(w[0])) / a), m, "quantile"); sym_eq(rand_pareto(sv{m, a}, h), x, "wrapper"); badsize(rand_pareto, 2, "size");
}
HARNESS(polar, "t=60", "gaussian samples by the polar method: points outside of the unit circle are drawn again, the pair is the projected point and the second value is kept for the following call with its own mean and sigma") {
	wv w = words(4); real m = sym_real("m"), s = sym_real("s"), m2 = sym_real("m2"), s2 = sym_real("s2"); real x = 2 * U(w[0]) - 1, y = 2 * U(w[1]) - 1, r = x * x + y * y; unsigned n = 2; if (r >= 1 || r <= MACH_EPSILON) { x = 2 * U(w[2]) - 1; y = 2 * U(w[3]) - 1; r = x * x + y * y; n = 4; sym_assume(r < 1 && r > 1e-9); } sym_assume(sym_ln(r) <= 0); PRNG g = script(w); errno = 0; real p = rand_gaussian_polar(m, s, g); sym_check(drawn(g) == n, "draws"); real q = rand_gaussian_polar(m2, s2, g); sym_check(drawn(g) == n && errno == 0, "spare"); sym_eq((p - m) * (p - m) * r, -2 * s * s * x * x * sym_ln(r), "first"); sym_eq((q - m2) * (q - m2) * r, -2 * s2 * s2 * y * y * sym_ln(r), "second"); sym_eq((p - m) * s2 * y, (q - m2) * s * x, "pair"); sym_check((p - m) * s * x >= 0, "sign");
}
HARNESS(gaussian, "t=60", "rand_gaussian is the polar method and its parameter vectors agree; wrong sizes are errors") {
	wv w = words(2); real m = sym_real("m"), s = sym_real("s"); real x = 2 * U(w[0]) - 1, y = 2 * U(w[1]) - 1, r = x * x + y * y; sym_assume(r < 1 && r > 1e-9 && sym_ln(r) <= 0); PRNG g = script(w), h = script(w); real p = rand_gaussian(m, s, g), q = rand_gaussian(m, s, g), a = rand_gaussian(sv{m, s}, h), b = rand_gaussian(sv{m, s}, h); sym_eq(a, p, "wrapper"); sym_eq(b, q, "wrapper"); sym_eq((p - m) * (p - m) * r, -2 * s * s * x * x * sym_ln(r), "polar"); badsize(rand_gaussian, 2, "size");
}
HARNESS(boxmuller, "t=60", "gaussian samples by the Box-Muller method: sqrt(-2 ln u) cos and sin of 2 pi v, with a non-null u, the second value kept for the following call") {
	wv w = words(3); real m = sym_real("m"), s = sym_real("s"), m2 = sym_real("m2"), s2 = sym_real("s2"); unsigned n = 2; real u = U(w[0]), v = U(w[1]); if (u == 0) { u = v; v = U(w[2]); n = 3; sym_assume(u > 0); } sym_assume(sym_ln(u) <= 0); PRNG g = script(w); errno = 0; real p = rand_gaussian_boxmuller(m, s, g); sym_check(drawn(g) == n, "draws"); real q = rand_gaussian_boxmuller(m2, s2, g); sym_check(drawn(g) == n && errno == 0, "spare"); real c = sym_cos(TAU * v), t = sym_sin(TAU * v); sym_eq((p - m) * (p - m), -2 * s * s * c * c * sym_ln(u), "first"); sym_eq((q - m2) * (q - m2), -2 * s2 * s2 * t * t * sym_ln(u), "second"); sym_eq((p - m) * s2 * t, (q - m2) * s * c, "pair"); sym_check((p - m) * s * c >= 0, "sign");
}
HARNESS(clt, "t=60", "gaussian samples by the central limit theorem: the sum of N uniforms in [-1, 1) rescaled to unit variance, N = 12 and N = 1..5") {
	int n = (int) sym_choose("n", 0, 5); int k = n ? n : 12; wv w = words(k); real m = sym_real("m"), s = sym_real("s"), t = 0; for (int i = 0; i < k; ++i) t += 2 * U(w[i]) - 1; PRNG g = script(w); real x = n ? rand_gaussian_clt(m, s, g, n) : rand_gaussian_clt(m, s, g); sym_check(drawn(g) == k, "draws"); sym_eq((x - m) * (x - m) * k, 3 * s * s * t * t, "variance"); if (k == 3) sym_eq(x - m, s * t, "three"); if (k == 12) sym_eq(2 * (x - m), s * t, "twelve");
}
static real dens(real x, const vec<real>& t) { return sym_uf2("f", x, t[0]); }
HARNESS(trycatch, "t=60", "rejection in a rectangle returns the first abscissa whose ordinate does not exceed the density, within the allowed tries, and NaN with EFAULT-like error after them, for an arbitrary density") {
	wv w = words(8); real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"); vec<real> t = {sym_real("t")}; unsigned M = (unsigned) sym_choose("M", 1, 3); PRNG g = script(w); errno = 0; real r = rand_trycatch(dens, t, a, b, c, d, g, M); for (unsigned i = 0; i < M; ++i) { real x = a + (b - a) * U(w[2 * i]), y = c + (d - c) * U(w[2 * i + 1]); if (!(y > sym_uf2("f", x, t[0]))) { sym_eq(r, x, "accepted"); sym_check(errno == 0 && drawn(g) == 2 * i + 2, "draws"); return; } } sym_check(sym_isnan(r) && errno != 0, "exhausted");
}
static real prop_(real x) { return sym_uf1("p", x); }
static real pinv(real x) { return sym_uf1("q", x); }
HARNESS(rejectsamp, "t=60", "rejection sampling returns the first proposal accepted by the density ratio, within the allowed tries, and NaN with an error after them, for arbitrary densities") {
	wv w = words(6); vec<real> t = {sym_real("t")}; unsigned M = (unsigned) sym_choose("M", 0, 3); PRNG g = script(w); errno = 0; real r = rand_rejectsamp(dens, t, prop_, pinv, g, M); for (unsigned i = 0; i < M; ++i) { real x = sym_uf1("q", U(w[2 * i])); if (U(w[2 * i + 1]) * sym_uf1("p", x) < sym_uf2("f", x, t[0])) { sym_eq(r, x, "accepted"); sym_check(errno == 0 && drawn(g) == 2 * i + 2, "draws"); return; } } sym_check(sym_isnan(r) && errno != 0, "exhausted");
}
static real mysampler(const sv& t, PRNG& g) { return t[0] * U(g()) + t[1]; }
HARNESS(samplers, "t=60", "pdf_sampler draws from its distribution with its parameters by every form, and the predefined samplers are their functions") {
	wv w = words(6); real a = sym_real_in("a", 0.25, 4), b = sym_real_in("b", 0.25, 4); PRNG g = script(w); pdf_sampler s(mysampler, {a, b}, g); real y; sv v(2), u(5, 9.0); real x = s.next(); sym_eq(x, a * U(w[0]) + b, "next"); x = s(); sym_eq(x, a * U(w[1]) + b, "call"); s >> y; sym_eq(y, a * U(w[2]) + b, "stream"); s.fill(v); sym_eq(v[0], a * U(w[3]) + b, "fill"); sym_eq(v[1], a * U(w[4]) + b, "fill"); s.fill(u, 1); sym_eq(u[0], a * U(w[5]) + b, "fill n"); sym_eq(u[1], 9, "fill n");
	PRNG h = script(w), i = script(w); int k = (int) sym_choose("k", 0, 6); real p, q; switch (k) { case 6: { wv z = {0x48000000, 0x28000000, 7, 9}; PRNG d = script(z), e = script(z); pdf_sampler G = pdf_sampler::gaussian(1.5, 2.5, d); real g1 = G(), g2 = G(), r1 = rand_gaussian(1.5, 2.5, e), r2 = rand_gaussian(1.5, 2.5, e); sym_near(g1, r1, 1e-9, "gaussian"); sym_near(g2, r2, 1e-9, "gaussian"); sym_check(g1 != g2, "gaussian"); sym_check(drawn(d) == drawn(e), "draws"); return; } case 0: p = pdf_sampler::uniform(a, b, h)(); q = rand_uniform(a, b, i); break; case 1: p = pdf_sampler::exponential(a, h)(); q = rand_exponential(a, i); break; case 2: p = pdf_sampler::rayleigh(a, h)(); q = rand_rayleigh(a, i); break; case 3: p = pdf_sampler::pareto(a, b, h)(); q = rand_pareto(a, b, i); break; case 4: p = pdf_sampler::laplace(a, b, h)(); q = rand_laplace(a, b, i); break; default: sym_assume(U(w[0]) > 0 && sym_cos(PI * (U(w[0]) - 0.5)) > 1e-9); p = pdf_sampler::cauchy(a, b, h)(); q = rand_cauchy(a, b, i); } if (k == 2) sym_assume(sym_ln(1 - U(w[0])) <= 0); sym_eq(p, q, "predefined"); sym_check(drawn(h) == drawn(i), "draws");
}
static real target(real x) { return sym_uf1("p", x); }
HARNESS(metropolis_, "t=60", "the Metropolis chain adds proposals and accepts them by the density ratio, every words and an arbitrary density, 0..2 steps, with one or two generators") {
	wv w = words(4), z = words(4); int n = (int) sym_choose("n", 0, 2); real x0 = sym_real("x0"), a = sym_real("a"), b = sym_real("b"); bool two = sym_choose("two", 0, 1); PRNG g = script(w), h = script(z); for (int i = 0; i < 4; ++i) z[i] = w[i]; pdf_sampler s(mysampler, {a, b}, g); real r = two ? metropolis(target, s, x0, h, n) : metropolis(target, s, x0, n); real c = x0; for (int i = 0; i < n; ++i) { real y = c + (a * U(two ? w[i] : w[2 * i]) + b), u = U(two ? z[i] : w[2 * i + 1]); if (u * sym_uf1("p", c) <= sym_uf1("p", y)) c = y; } sym_eq(r, c, "chain");
}
static real fun(real x) { return sym_uf1("F", x); }
static real fun2(real x, real y) { return sym_uf2("G", x, y); }
static real funv(vec<real, 2> v) { return sym_uf2("G", v[0], v[1]); }
HARNESS(crude, "t=60", "crude Monte Carlo is the measure times the mean of an arbitrary function over the sampled points, in one and two dimensions, every words and interval, 1..3 points") {
	int n = (int) sym_choose("n", 1, 3); wv w = words(6); real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"), s = 0, t = 0; PRNG g = script(w), h = script(w); for (int i = 0; i < n; ++i) { s += fun(a + (b - a) * U(w[i])); t += fun2(a + (b - a) * U(w[2 * i]), c + (d - c) * U(w[2 * i + 1])); } sym_eq(integral_crude(fun, a, b, g, n) * n, (b - a) * s, "one dimension"); vec<vec2, 2> e = {{a, b}, {c, d}}; sym_eq(integral_crude<2>(funv, e, h, n) * n, (b - a) * (d - c) * t, "two dimensions"); sym_check(drawn(g) == n && drawn(h) == 2 * n, "draws");
}
HARNESS(quasi_crude, "t=60", "quasi-Monte Carlo is the measure times the mean of an arbitrary function over the Weyl points, in one and two dimensions, every interval, 1..4 points") {
	int n = (int) sym_choose("n", 1, 4); real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"), s = 0, t = 0, q = 0; vec<real, 2> al = {0.625, 0.28125}; for (int i = 0; i < n; ++i) { s += fun(a + (b - a) * qrand_weyl(i)); t += fun2(a + (b - a) * qrand_weyl(i, al[0]), c + (d - c) * qrand_weyl(i, al[1])); q += fun2(a + (b - a) * qrand_weyl(i, 0.5625), c + (d - c) * qrand_weyl(i, 0.31640625)); } sym_eq(integral_quasi_crude(fun, a, b, n) * n, (b - a) * s, "one dimension"); vec<vec2, 2> e = {{a, b}, {c, d}}; sym_eq(integral_quasi_crude<2>(funv, e, n, al) * n, (b - a) * (d - c) * t, "two dimensions"); sym_eq(integral_quasi_crude<2>(funv, e, n, 0.5625) * n, (b - a) * (d - c) * q, "powers of alpha");
}
HARNESS(hom, "t=60", "hit-or-miss Monte Carlo of an arbitrary function between any c and d: c times the measure plus the area times the fraction of points below the function, exact for the constants c - 0 hits - and d, every words, 1..2 points") {
	int n = (int) sym_choose("n", 1, 2); wv w = words(4); real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"); PRNG g = script(w), h = script(w); int k = 0, l = 0; for (int i = 0; i < n; ++i) { real f = fun(a + (b - a) * U(w[2 * i])); if (f >= c + (d - c) * U(w[2 * i + 1])) k++; if (f > d * U(w[2 * i + 1])) l++; } sym_eq(integral_hom(fun, a, b, c, d, g, n) * n, c * (b - a) * n + k * (b - a) * (d - c), "range"); sym_eq(integral_hom(fun, a, b, d, h, n) * n, l * (b - a) * d, "positive"); sym_check(drawn(g) == 2 * n && drawn(h) == 2 * n, "draws");
}
HARNESS(hom_constant, "t=60", "hit-or-miss integration of a constant k between any c <= k <= d is exact when the points are all below or all above, and bounded by c and d times the measure") {
	wv w = words(4); real c = sym_real("c"), d = sym_real("d"), b = sym_real("b"); sym_assume(c < d && b > 0); static real k; k = sym_real("k"); sym_assume(k >= c && k <= d); PRNG g = script(w); real r = integral_hom([](real) { return k; }, 0, b, c, d, g, 2); sym_check(r >= c * b && r <= d * b, "bounds"); if (k == d) sym_eq(r, d * b, "maximum");
}
HARNESS(quasi_hom, "t=60", "hit-or-miss quasi-Monte Carlo over the two-dimensional Weyl points, an arbitrary function, 1..3 points") {
	int n = (int) sym_choose("n", 1, 3); real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"); int k = 0, l = 0; for (int i = 0; i < n; ++i) { vec2 v = qrand_weyl2(i); real f = fun(a + (b - a) * v[0]); if (f >= c + (d - c) * v[1]) k++; if (f > d * v[1]) l++; } sym_eq(integral_quasi_hom(fun, a, b, c, d, (unsigned) n) * n, c * (b - a) * n + k * (b - a) * (d - c), "range"); sym_eq(integral_quasi_hom(fun, a, b, d, (unsigned) n) * n, l * (b - a) * d, "positive");
}
HARNESS(hom_2d, "t=60", "two-dimensional hit-or-miss: the volume times the fraction of points below an arbitrary function, every words, 1..2 points") {
	int n = (int) sym_choose("n", 1, 2); wv w = words(6); real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d"), m = sym_real("m"); PRNG g = script(w); int k = 0; for (int i = 0; i < n; ++i) if (fun2(a + (b - a) * U(w[3 * i]), c + (d - c) * U(w[3 * i + 1])) > m * U(w[3 * i + 2])) k++; sym_eq(integral_hom_2d(fun2, a, b, c, d, m, g, n) * n, k * (b - a) * (d - c) * m, "volume"); sym_check(drawn(g) == 3 * n, "draws");
}
HARNESS(impsamp, "t=60", "importance sampling is the mean of f/g at the transformed uniforms, random and quasi-random, arbitrary functions, 1..3 points") {
	int n = (int) sym_choose("n", 1, 3); wv w = words(3); PRNG g = script(w); real s = 0, t = 0; for (int i = 0; i < n; ++i) { real z = pinv(U(w[i])), y = pinv(qrand_weyl(i + 1)); real p = prop_(z), q = prop_(y); sym_assume(p >= 1e-9 && q >= 1e-9); s += fun(z) / p; t += fun(y) / q; } sym_eq(integral_impsamp(fun, prop_, pinv, g, n) * n, s, "random"); sym_eq(integral_quasi_impsamp(fun, prop_, pinv, n) * n, t, "quasi-random");
}
HARNESS(sample, "t=60", "sample_mc evaluates the function at vectors of one draw of every variable in order, 0..3 values of 1..2 variables") {
	int n = (int) sym_choose("n", 0, 3), m = (int) sym_choose("m", 1, 2); wv w = words(6); PRNG g = script(w); std::vector<pdf_sampler> rv; for (int j = 0; j < m; ++j) rv.push_back(pdf_sampler(mysampler, {real(j + 1), real(3 * j)}, g)); sv s = sample_mc([m](vec<real> v) { return m == 1 ? fun(v[0]) : fun2(v[0], v[1]); }, rv, n); sym_check((int) s.size() == n, "size"); for (int i = 0; i < n; ++i) sym_eq(s[i], m == 1 ? fun(U(w[i])) : fun2(U(w[2 * i]), 2 * U(w[2 * i + 1]) + 3), "value"); sym_check((int) drawn(g) == n * m, "draws");
}
static wv fewwords(int n) { wv w(n); for (int i = 0; i < n; ++i) w[i] = i == n / 2 || i == n - 1 ? sym_u64(nm("w", i)) : (uint64_t) (i * 2654435761u) ^ 0x5bd1e995u; return w; }
static const int BIG[] = {4, 5, 8, 10, 16, 17, 33, 50};
HARNESS(large_crude, "t=60", "crude Monte Carlo and quasi-Monte Carlo in one, two and three dimensions with 4..50 points, two words arbitrary") {
	int n = BIG[sym_choose("n", 0, 7)]; wv w = fewwords(3 * n); real a = -1, b = 3, c = 0.5, d = 2, s = 0, t = 0, q = 0, s3 = 0, q2 = 0; PRNG g = script(w), h = script(w), k = script(w); auto f3 = [](vec<real, 3> v) { return fun2(v[0], v[1]) * v[2]; }; for (int i = 0; i < n; ++i) { s += fun(a + (b - a) * U(w[i])); t += fun2(a + (b - a) * U(w[2 * i]), c + (d - c) * U(w[2 * i + 1])); s3 += fun2(a + (b - a) * U(w[3 * i]), c + (d - c) * U(w[3 * i + 1])) * (4 * U(w[3 * i + 2])); q += fun(a + (b - a) * qrand_weyl(i)); q2 += fun2(a + (b - a) * qrand_weyl(i, 0.5625), c + (d - c) * qrand_weyl(i, 0.31640625)); } sym_eq(integral_crude(fun, a, b, g, n) * n, (b - a) * s, "one dimension"); vec<vec2, 2> e = {{a, b}, {c, d}}; vec<vec2, 3> e3 = {{a, b}, {c, d}, {0, 4}}; sym_eq(integral_crude<2>(funv, e, h, n) * n, (b - a) * (d - c) * t, "two dimensions"); sym_eq(integral_crude<3>(f3, e3, k, n) * n, (b - a) * (d - c) * 4 * s3, "three dimensions"); sym_eq(integral_quasi_crude(fun, a, b, n) * n, (b - a) * q, "quasi"); sym_eq(integral_quasi_crude<2>(funv, e, n, 0.5625) * n, (b - a) * (d - c) * q2, "quasi two"); sym_check((int) drawn(g) == n && (int) drawn(h) == 2 * n && (int) drawn(k) == 3 * n, "draws");
}
HARNESS(large_hom, "t=60", "hit-or-miss with 4..50 points of a constant between c and d, two words arbitrary, and quasi-random points") {
	int n = BIG[sym_choose("n", 0, 7)]; wv w = fewwords(3 * n); static real K; K = sym_choose("k", 0, 2) * 0.75 - 0.25; real a = 1, b = 3, c = -1, d = 2; PRNG g = script(w), h = script(w), m = script(w); int k = 0, l = 0, q = 0, o = 0, v = 0; for (int i = 0; i < n; ++i) { real u = U(w[2 * i + 1]); if (K >= c + (d - c) * u) k++; if (K > d * u) l++; if (K > 4 * U(w[3 * i + 2])) v++; vec2 y = qrand_weyl2(i); if (K >= c + (d - c) * y[1]) q++; if (K > d * y[1]) o++; } auto f = [](real) { return K; }; sym_eq(integral_hom(f, a, b, c, d, g, n) * n, c * (b - a) * n + k * (b - a) * (d - c), "range"); sym_eq(integral_hom(f, a, b, d, h, n) * n, l * (b - a) * d, "positive"); sym_eq(integral_hom_2d([](real, real) { return K; }, a, b, c, d, 4, m, n) * n, v * (b - a) * (d - c) * 4, "volume"); sym_eq(integral_quasi_hom(f, a, b, c, d, (unsigned) n) * n, c * (b - a) * n + q * (b - a) * (d - c), "quasi range"); sym_eq(integral_quasi_hom(f, a, b, d, (unsigned) n) * n, o * (b - a) * d, "quasi positive"); sym_check((int) drawn(g) == 2 * n && (int) drawn(h) == 2 * n && (int) drawn(m) == 3 * n, "draws");
}
HARNESS(large_samples, "t=60", "importance sampling, sample_mc of three variables, filling and the central limit theorem with 4..50 draws, two words arbitrary") {
	int n = BIG[sym_choose("n", 0, 7)]; wv w = fewwords(3 * n); PRNG g = script(w), h = script(w), k = script(w), l = script(w); real s = 0, t = 0, r = 0; auto P = [](real x) { return 0.5 + x; }; auto Q = [](real x) { return x * x; }; for (int i = 0; i < n; ++i) { real z = U(w[i]); z *= z; real y = qrand_weyl(i + 1); y *= y; s += (3 + 2 * z) / (0.5 + z); t += (3 + 2 * y) / (0.5 + y); r += 2 * U(w[i]) - 1; } auto f = [](real x) { return 3 + 2 * x; }; sym_near(integral_impsamp(f, P, Q, g, n) * n, s, 1e-9, "importance"); sym_near(integral_quasi_impsamp(f, P, Q, n) * n, t, 1e-9, "quasi importance"); std::vector<pdf_sampler> rv; for (int j = 0; j < 3; ++j) rv.push_back(pdf_sampler(mysampler, {real(j + 1), real(3 * j)}, h)); sv m = sample_mc([](vec<real> v) { return v[0] + 2 * v[1] - v[2]; }, rv, n); sym_check((int) m.size() == n, "size"); for (int i = 0; i < n; ++i) sym_eq(m[i], U(w[3 * i]) + 4 * U(w[3 * i + 1]) + 6 - 3 * U(w[3 * i + 2]) - 6, "value"); sym_check((int) drawn(h) == 3 * n, "draws");
	pdf_sampler p(mysampler, {2, 1}, k); sv v(n); p.fill(v); for (int i = 0; i < n; ++i) sym_eq(v[i], 2 * U(w[i]) + 1, "fill"); vec<real> u(n, 9.0); p.fill(u, n - 1); for (int i = 0; i < n - 1; ++i) sym_eq(u[i], 2 * U(w[n + i]) + 1, "fill n"); sym_eq(u[n - 1], 9, "fill n"); real x = rand_gaussian_clt(1, 2, l, n); sym_check((int) drawn(l) == n, "clt draws"); sym_near((x - 1) * (x - 1) * n, 12 * r * r, 1e-9, "clt");
}
HARNESS(large_metropolis, "t=60", "the Metropolis chain with 3..20 steps of fixed words and one arbitrary, a fixed density and an arbitrary start") {
	int n = (int) sym_choose("n", 3, 20); wv w(2 * n), z(n); for (int i = 0; i < 2 * n; ++i) w[i] = (uint64_t) (i * 2654435761u) ^ 0x5bd1e995u; for (int i = 0; i < n; ++i) z[i] = w[2 * n - 1 - i]; w[n | 1] = sym_u64("w"); real x0 = sym_choose("x", 0, 4) - 2.25; bool two = sym_choose("two", 0, 1); auto f = [](real x) { return 1 / (1 + x * x); }; PRNG g = script(w), h = script(z); pdf_sampler s(mysampler, {4, -2}, g); real r = two ? metropolis(f, s, x0, h, n) : metropolis(f, s, x0, n), c = x0; if (two) w[n | 1] = w[n | 1]; for (int i = 0; i < n; ++i) { real y = c + (4 * U(two ? w[i] : w[2 * i]) - 2), u = U(two ? z[i] : w[2 * i + 1]); if (u * (1 / (1 + c * c)) <= 1 / (1 + y * y)) c = y; } sym_eq(r, c, "chain");
}
HARNESS(large_rejection, "t=60", "rejection sampling and the rectangle method with up to 20 rejected tries before a fixed accepted one; defaults") {
	int k = (int) sym_choose("k", 0, 20); wv w; for (int i = 0; i < k; ++i) { w.push_back(0x20000000u + 7 * i); w.push_back(0x7fffff00u); } uint64_t x = sym_u64("x"); w.push_back(x); w.push_back(0x00000100u); vec<real> t = {1.0}; auto d = [](real x, const vec<real>&) -> real { return 0.5; }; PRNG g = script(w), h = script(w); errno = 0; real r = rand_trycatch(d, t, 1, 3, 0, 1, g), q = rand_rejectsamp(d, t, [](real) -> real { return 1; }, [](real u) -> real { return 3 * u; }, h); sym_eq(r, 1 + 2 * U(x), "rectangle"); sym_eq(q, 3 * U(x), "rejection"); sym_check(errno == 0 && (int) drawn(g) == 2 * k + 2 && (int) drawn(h) == 2 * k + 2, "draws");
}
#else
HARNESS(finite, "mode=fp t=60 nosum=all", "samples are finite and raise no error for the extreme words 0 and 2^31 - 1 of every sampler") {
	uint64_t v[3] = {0, 0x7fffffff, 0x40000000}; uint64_t a = v[sym_choose("a", 0, 2)], b = v[sym_choose("b", 0, 2)]; int k = (int) sym_choose("k", 0, 6); PRNG g = script({a, b, 0x30000001, 0x10000001, 5, 6}); errno = 0; real x = k == 0 ? rand_cauchy(1, 2, g) : k == 1 ? rand_gaussian_boxmuller(1, 2, g) : k == 2 ? rand_exponential(2, g) : k == 3 ? rand_rayleigh(2, g) : k == 4 ? rand_laplace(1, 2, g) : k == 5 ? rand_pareto(1, 2, g) : rand_gaussian_polar(1, 2, g); sym_check(x - x == 0, "finite"); sym_check(errno == 0, "no error");
}
#endif
#ifndef THEORETICA_DISABLE_X86
HARNESS(huge, "t=100 max_path_instr=50000000", "Monte Carlo and quasi-Monte Carlo integrals, hit-or-miss, importance sampling, sample_mc and the central limit theorem with 300 and 1100 points of fixed words and one arbitrary") {
	int n = sym_choose("n", 0, 1) ? 1100 : 300; wv w(2 * n); for (int i = 0; i < 2 * n; ++i) w[i] = i == n - 2 ? sym_u64("w") : (uint64_t) (i * 2654435761u) ^ 0x5bd1e995u; real a = -1, b = 3, s = 0, q = 0, q2 = 0, z = 0, r = 0; auto f = [](real x) { return 3 + 2 * x; }; auto P = [](real x) { return 1 + 0 * x; }; auto Q = [](real x) { return 2 * x; };
	for (int i = 0; i < n; ++i) { s += f(a + (b - a) * U(w[i])); q += f(a + (b - a) * qrand_weyl(i)); z += f(2 * qrand_weyl(i + 1)); q2 += f(2 * U(w[i])); r += 2 * U(w[i]) - 1; }
	PRNG g = script(w), h = script(w), k = script(w), l = script(w), m = script(w); sym_near(integral_crude(f, a, b, g, n) * n, (b - a) * s, 1e-6, "crude"); sym_near(integral_quasi_crude(f, a, b, n) * n, (b - a) * q, 1e-6, "quasi"); sym_near(integral_impsamp(f, P, Q, h, n) * n, q2, 1e-6, "importance"); sym_near(integral_quasi_impsamp(f, P, Q, n) * n, z, 1e-6, "quasi importance"); real x = rand_gaussian_clt(1, 2, k, n); sym_near((x - 1) * (x - 1) * n, 12 * r * r, 1e-6, "clt"); sym_eq(integral_hom([](real) { return 2.0; }, a, b, 2.0, l, n), (b - a) * 2, "hit or miss"); PRNG o = script(w); sym_near(integral_hom([](real) { return 2.5; }, a, b, 0.5, 2.25, o, n), (b - a) * 2.25, 1e-9, "hit or miss over a minimum"); std::vector<pdf_sampler> rv; rv.push_back(pdf_sampler(mysampler, {1, 3}, m)); sv t = sample_mc([](vec<real> v) { return v[0]; }, rv, n); sym_check((int) t.size() == n && (int) drawn(m) == n && (int) drawn(g) == n && (int) drawn(h) == n && (int) drawn(k) == n && (int) drawn(l) == 2 * n, "draws"); for (int i = 0; i < n; ++i) sym_eq(t[i], U(w[i]) + 3, "sample");
}
#endif
#ifndef THEORETICA_DISABLE_X86
static real weigh4(vec<real, 4> v) { return v[0] + 3 * v[1] + 9 * v[2] + 27 * v[3]; }
static real weigh3(vec<real, 3> v) { return v[0] + 3 * v[1] + 9 * v[2]; }
static real weigh1(vec<real, 1> v) { return v[0]; }
HARNESS(dimensions, "t=60 mode=fp", "quasi-Monte Carlo in 1, 3 and 4 dimensions with the default parameter: powers of the reciprocal of the root of x^(S+1) = x + 1; 2 and 7 points, extremes of either order") {
	int n = sym_choose("n", 0, 1) ? 7 : 2, S = (int) sym_choose("S", 0, 2), k = (int) sym_choose("k", 0, 1); real al = S == 0 ? 1 / 1.618033988749895 : S == 1 ? 1 / 1.2207440846057596 : 1 / 1.1673039782614187; int m = S == 0 ? 1 : S + 2; real lo[4] = {0, -1, 2, 0.5}, hi[4] = {1, 3, 3, 1}, vol = 1, s = 0; if (k) { lo[0] = 2; hi[0] = 1; } for (int j = 0; j < m; ++j) vol *= hi[j] - lo[j]; for (int i = 0; i < n; ++i) { real c = 1, p = 1; for (int j = 0; j < m; ++j) { p *= al; real u = i * p; u -= (int) u; s += c * (lo[j] + u * (hi[j] - lo[j])); c *= 3; } } real r = S == 0 ? integral_quasi_crude<1>(weigh1, {{lo[0], hi[0]}}, n) : S == 1 ? integral_quasi_crude<3>(weigh3, {{lo[0], hi[0]}, {lo[1], hi[1]}, {lo[2], hi[2]}}, n) : integral_quasi_crude<4>(weigh4, {{lo[0], hi[0]}, {lo[1], hi[1]}, {lo[2], hi[2]}, {lo[3], hi[3]}}, n); sym_near(r * n, vol * s, 1e-4, "integral");
}
HARNESS(many_variables, "t=60", "sample_mc of 3..9 variables: one draw of every variable in order, two words arbitrary") {
	int m = (int) sym_choose("m", 3, 9), n = 3; wv w = fewwords(m * n); PRNG g = script(w); std::vector<pdf_sampler> rv; for (int j = 0; j < m; ++j) rv.push_back(pdf_sampler(mysampler, {real(j + 1), real(3 * j)}, g)); sv s = sample_mc([m](vec<real> v) { real r = 0; for (int j = 0; j < m; ++j) r = 2 * r + v[j]; return r; }, rv, n); sym_check((int) s.size() == n, "size"); for (int i = 0; i < n && i < (int) s.size(); ++i) { real r = 0; for (int j = 0; j < m; ++j) r = 2 * r + (j + 1) * U(w[m * i + j]) + 3 * j; sym_eq(s[i], r, "value"); } sym_check((int) drawn(g) == n * m, "draws");
}
#endif

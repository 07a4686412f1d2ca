// C33 probability distributions
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
static const real R2PI = 0.39894228040143267794; // 1/sqrt(2 pi)
static real fct(int n) { real r = 1; for (int i = 2; i <= n; ++i) r = r * i; return r; }
static real ipow(real x, int n) { real r = 1; for (int i = 0; i < n; ++i) r = r * x; return r; }
typedef real (*dist)(real, const vec<real>&);
static void badsize(dist d, unsigned n, const char* id) { for (unsigned k = 0; k < 4; ++k) if (k != n) { vec<real> t; t.resize(k); for (unsigned i = 0; i < k; ++i) t[i] = 1; errno = 0; real z = d(1, t); sym_check(sym_isnan(z) && errno == EINVAL, id); } }
HARNESS(gaussian, "nosample t=60", "gaussian density, every x, mean and sigma in [1/16, 16]; the parameter-vector form agrees") {
	real x = sym_real("x"), m = sym_real("m"), s = sym_real_in("s", 1e-9, 1e6); errno = 0; real g = distribution::gaussian(x, m, s); sym_check(errno == 0, "no error"); sym_near(g * s / sym_exp(-(x - m) * (x - m) / (2 * s * s)), R2PI, 1E-10, "density"); vec<real> t = {m, s}; sym_eq(distribution::gaussian(x, t), g, "wrapper");
}
HARNESS(bernoulli, "t=60", "bernoulli: p at 1, 1 - p at 0, 0 elsewhere, every p and k in 0..5") {
	real p = sym_real("p"); int k = (int) sym_choose("k", 0, 5); sym_assume(p == 0 || p == 1 || (p >= 1e-9 && p <= 0.999)); errno = 0; real want = k == 0 ? 1 - p : k == 1 ? p : 0; sym_eq(distribution::bernoulli((unsigned) k, p), want, "mass"); vec<real> t = {p}; sym_eq(distribution::bernoulli((real) k, t), want, "wrapper"); sym_check(errno == 0, "no error");
}
HARNESS(poisson, "t=60", "poisson mass for k in 0..30, every mean in [0, 50]") {
	int k = (int) sym_choose("k", 0, 30); real l = sym_real_in("l", 0, 50); errno = 0; real d = distribution::poisson((unsigned) k, l); sym_eq(d * fct(k), sym_exp(-l) * ipow(l, k), "mass"); vec<real> t = {l}; sym_eq(distribution::poisson((real) k, t), d, "wrapper"); sym_check(errno == 0, "no error");
}
HARNESS(binomial, "t=60", "binomial mass n!/(nu!(n-nu)!) p^nu (1-p)^(n-nu) for n in 0..8 and nu in 0..10 (0 for nu > n), every p; masses sum to one") {
	int n = (int) sym_choose("n", 0, 8), k = (int) sym_choose("k", 0, 10); real p = sym_real("p"); sym_assume(p == 0 || p == 1 || (p >= 1e-9 && p <= 0.999)); errno = 0; real want = k > n ? 0 : fct(n) / (fct(k) * fct(n - k)) * ipow(p, k) * ipow(1 - p, n - k); sym_eq(distribution::binomial((unsigned) k, (unsigned) n, p), want, "mass"); vec<real> t = {(real) n, p}; sym_eq(distribution::binomial((real) k, t), want, "wrapper"); sym_check(errno == 0, "no error"); if (k == 0) { real s = 0; for (int i = 0; i <= n; ++i) s += distribution::binomial((unsigned) i, (unsigned) n, p); sym_eq(s, 1, "total"); }
}
HARNESS(binomial_large, "t=60", "binomial mass with large n: coefficients up to n = 70") {
	int n = (int) sym_choose("n", 58, 70), k = n / 2; real p = 0.5; real want = fct(n) / (fct(k) * fct(n - k)) * ipow(p, n); sym_near(distribution::binomial((unsigned) k, (unsigned) n, p), want, 1E-12, "mass");
}
HARNESS(multinomial, "t=60", "multinomial mass of two and three classes, every probabilities, counts in 0..3; sizes that do not match are an error") {
	int a = (int) sym_choose("a", 0, 3), b = (int) sym_choose("b", 0, 3), c = (int) sym_choose("c", 0, 2); real p = sym_real("p"), q = sym_real("q"), r = sym_real("r"); int n = a + b + c; errno = 0; std::vector<unsigned> x = {(unsigned) a, (unsigned) b, (unsigned) c}; std::vector<real> P = {p, q, r}; sym_eq(distribution::multinomial(x, n, 3, P), fct(n) / (fct(a) * fct(b) * fct(c)) * ipow(p, a) * ipow(q, b) * ipow(r, c), "mass"); sym_eq(distribution::multinomial({(unsigned) a, (unsigned) b}, a + b, 2, {p, 1 - p}), distribution::binomial((unsigned) a, (unsigned) (a + b), p), "two classes"); sym_check(errno == 0, "no error"); real z = distribution::multinomial(x, n, 2, P); sym_check(sym_isnan(z) && errno == EINVAL, "sizes"); errno = 0; z = distribution::multinomial(x, n, 3, {p, q}); sym_check(sym_isnan(z) && errno == EINVAL, "sizes");
}
HARNESS(multinomial_large, "t=60", "multinomial mass with more than 20 trials") {
	int n = (int) sym_choose("n", 20, 30); real p = 0.5; real want = fct(n) / (fct(n / 2) * fct(n - n / 2)) * ipow(p, n); sym_near(distribution::multinomial({(unsigned) (n / 2), (unsigned) (n - n / 2)}, n, 2, {p, p}), want, 1E-12, "mass");
}
HARNESS(chi_even, "t=60", "chi-squared density with an even number of degrees of freedom 2..24, every x >= 0; zero for x < 0; precomputed and vector forms agree") {
	int h = (int) sym_choose("h", 1, 12); unsigned k = 2 * h; real x = sym_real("x"); sym_assume(x >= -1000 && x <= 1000); errno = 0; real d = distribution::chi_squared(x, k), e = distribution::chi_squared(x, k, special::half_gamma(k)); vec<real> t = {(real) k}; sym_eq(distribution::chi_squared(x, t), d, "wrapper"); sym_eq(e, d, "precomputed"); sym_check(errno == 0, "no error"); if (x < 0) sym_eq(d, 0, "support"); else if (x == 0) sym_near(d, h == 1 ? 0.5 : 0, 1E-12, "origin"); else { sym_assume(x >= 1e-9); real w = 1; for (int i = 1; i < h; ++i) w = w * x / (2 * i); sym_near(d / sym_exp(-x / 2) / w, 0.5, 1E-9, "density"); }
}
HARNESS(chi_odd, "t=60", "chi-squared density with an odd number of degrees of freedom 1..15, every x > 0; zero for x < 0; precomputed and vector forms agree") {
	int h = (int) sym_choose("h", 0, 7); unsigned k = 2 * h + 1; real x = sym_real("x"); sym_assume((x >= -1000 && x < 0) || (x >= 1e-9 && x <= 1000)); errno = 0; real d = distribution::chi_squared(x, k), e = distribution::chi_squared(x, k, special::half_gamma(k)); vec<real> t = {(real) k}; sym_eq(distribution::chi_squared(x, t), d, "wrapper"); sym_eq(e, d, "precomputed"); sym_check(errno == 0, "no error"); if (x < 0) sym_eq(d, 0, "support"); else { real w = 1; for (int i = 1; i <= h; ++i) w = w * x / (2 * i - 1); real q = sym_sqrt(x); sym_near(d * q / sym_exp(-x / 2) / w, R2PI, 1E-9, "density"); }
}
HARNESS(student, "t=60", "student density with 1..12 degrees of freedom, every x; the vector form agrees") {
	int n = (int) sym_choose("n", 1, 12); real x = sym_real("x"); sym_assume(x >= -1e9 && x <= 1e9); errno = 0; real d = distribution::student(x, (unsigned) n); vec<real> t = {(real) n}; sym_eq(distribution::student(x, t), d, "wrapper"); sym_check(errno == 0, "no error");
	// c_n = Gamma((n+1)/2) / (sqrt(n pi) Gamma(n/2)), by c_{n+2} sqrt(n+2) = c_n sqrt(n) (n+1)/n
	real c = n % 2 ? 0.31830988618379067154 : 0.5; for (int i = n % 2 ? 1 : 2; i + 2 <= n; i += 2) c = c * (i + 1) / i;
	// c = c_n sqrt(n): 1/pi for n = 1, 1/2 for n = 2
	real a = 1 + x * x / n; sym_check(d > 0, "sign"); sym_near(d * d * ipow(a, n + 1) * n, c * c, 1E-9, "density");
}
HARNESS(gamma_d, "t=60 expsplit", "gamma density for every x > 0, rate and shape; zero for x < 0; integer shapes agree with the erlang density") {
	real x = sym_real("x"), a = sym_real_in("a", 0.25, 8), b = sym_real_in("b", 0.0625, 16); sym_assume((x >= -1000 && x < 0) || (x >= 1e-9 && x <= 1000)); errno = 0; real d = distribution::gamma(x, a, b); vec<real> t = {a, b}; sym_eq(distribution::gamma(x, t), d, "wrapper"); sym_check(errno == 0, "no error"); if (x < 0) { sym_eq(d, 0, "support"); return; } sym_assume(a >= 1); sym_eq(d * special::gamma(a), sym_exp(a * sym_ln(b)) * sym_exp((a - 1) * sym_ln(x)) * sym_exp(-b * x), "density");
}
HARNESS(gamma_erlang, "mode=fp t=60 nosum=all", "gamma density with integer shape 1..5 is the erlang density, on a grid of points and rates") {
	int k = (int) sym_choose("k", 1, 5); real x = 0.5 + 0.625 * sym_choose("x", 0, 4), b = 0.5 + 0.75 * sym_choose("b", 0, 2), e = distribution::erlang(x, (unsigned) k, b), g = distribution::gamma(x, (real) k, b) / e - 1; sym_check(g < 1E-8 && g > -1E-8, "erlang");
}
HARNESS(beta_d, "t=60 expsplit", "beta density for every x in (0, 1) and shapes; zero outside [0, 1]") {
	real x = sym_real("x"), a = sym_real_in("a", 1, 8), b = sym_real_in("b", 1, 8); sym_assume((x >= -100 && x < 0) || (x > 1 && x <= 100) || (x >= 1e-9 && x <= 0.999)); errno = 0; real d = distribution::beta(x, a, b); vec<real> t = {a, b}; sym_eq(distribution::beta(x, t), d, "wrapper"); sym_check(errno == 0, "no error"); if (x < 0 || x > 1) { sym_eq(d, 0, "support"); return; } sym_eq(d * special::beta(a, b), sym_exp((a - 1) * sym_ln(x)) * sym_exp((b - 1) * sym_ln(1 - x)), "density");
}
HARNESS(log_normal, "nosample t=60", "log-normal density, every x > 0, mu and sigma; zero for x < 0") {
	real x = sym_real("x"), m = sym_real("m"), s = sym_real_in("s", 1e-9, 1e6); sym_assume((x >= -1000 && x < 0) || (x >= 1e-9 && x <= 1000)); errno = 0; real d = distribution::log_normal(x, m, s); vec<real> t = {m, s}; sym_eq(distribution::log_normal(x, t), d, "wrapper"); sym_check(errno == 0, "no error"); if (x < 0) { sym_eq(d, 0, "support"); return; } real l = sym_ln(x) - m; sym_near(d * s * x / sym_exp(-l * l / (2 * s * s)), R2PI, 1E-10, "density");
}
HARNESS(exponential, "t=60", "exponential density, every x and rate; zero for x < 0") {
	real x = sym_real("x"), l = sym_real("l"); real d = distribution::exponential(x, l); vec<real> t = {l}; sym_eq(distribution::exponential(x, t), d, "wrapper"); sym_eq(d, x < 0 ? 0 : l * sym_exp(-l * x), "density");
}
HARNESS(rayleigh, "t=60", "rayleigh density, every x and sigma; zero for x < 0; a null sigma is an error") {
	real x = sym_real("x"), s = sym_real_in("s", 0, 16); sym_assume(s == 0 || s >= 1e-9); errno = 0; real d = distribution::rayleigh(x, s); vec<real> t = {s}; if (x < 0) { sym_eq(d, 0, "support"); sym_eq(distribution::rayleigh(x, t), 0, "wrapper"); return; } if (s == 0) { sym_check(sym_isnan(d) && errno == ERANGE, "null sigma"); return; } sym_check(errno == 0, "no error"); sym_eq(distribution::rayleigh(x, t), d, "wrapper"); sym_eq(d * s * s, x * sym_exp(-x * x / (2 * s * s)), "density");
}
HARNESS(cauchy_bw, "t=60", "cauchy and breit-wigner densities, every x, location and width, and their identity at Gamma = 2 alpha") {
	real x = sym_real("x"), m = sym_real("m"), a = sym_real_in("a", 1e-9, 1e6); real d = distribution::cauchy(x, m, a), b = distribution::breit_wigner(x, m, 2 * a); vec<real> t = {m, a}, u = {m, 2 * a}; sym_eq(distribution::cauchy(x, t), d, "wrapper"); sym_eq(distribution::breit_wigner(x, u), b, "wrapper"); real q = (x - m) * (x - m) + a * a; sym_near(d * q / a, 0.31830988618379067154, 1E-10, "cauchy"); sym_near(b * q / a, 0.31830988618379067154, 1E-10, "breit-wigner");
}
HARNESS(maxwell, "nosample t=60", "maxwell density, every x >= 0 and scale; zero for x < 0") {
	real x = sym_real("x"), a = sym_real_in("a", 1e-9, 1e6); sym_assume(x <= 0 || x >= 1e-9); real d = distribution::maxwell(x, a); vec<real> t = {a}; sym_eq(distribution::maxwell(x, t), d, "wrapper"); if (x <= 0) { sym_eq(d, 0, "support"); return; } sym_near(d * a * a * a / (x * x * sym_exp(-x * x / (2 * a * a))), 2 * R2PI, 1E-9, "density");
}
HARNESS(laplace, "t=60", "laplace density, every x, location and scale") {
	real x = sym_real("x"), m = sym_real("m"), b = sym_real_in("b", 1e-9, 1e6); real d = distribution::laplace(x, m, b); vec<real> t = {m, b}; sym_eq(distribution::laplace(x, t), d, "wrapper"); real y = x < m ? m - x : x - m; sym_eq(2 * b * d, sym_exp(-y / b), "density");
}
HARNESS(pareto, "t=60 expsplit", "pareto density, every x, minimum and exponent; zero below the minimum; a non-positive exponent is an error") {
	real u = sym_real_in("u", -5, 5), v = sym_real_in("v", -5, 5), x = sym_exp(u), m = sym_exp(v), a = sym_real_in("a", -4, 8); errno = 0; real d = distribution::pareto(x, m, a); vec<real> t = {m, a}; if (a <= 0) { sym_check(sym_isnan(d) && errno == EDOM, "exponent"); return; } sym_check(errno == 0, "no error"); sym_eq(distribution::pareto(x, t), d, "wrapper"); if (x < m) { sym_eq(d, 0, "support"); return; } sym_eq(d * sym_exp((a + 1) * u), a * sym_exp(a * v), "density");
}
HARNESS(erlang, "t=60 expsplit", "erlang density for k in 1..30, every x >= 0 and rate; zero for x < 0; k = 0 is an error") {
	int k = (int) sym_choose("k", 0, 30); real x = sym_real_in("x", -10, 10), l = sym_real_in("l", 0.0625, 16); errno = 0; real d = distribution::erlang(x, (unsigned) k, l); if (k == 0) { sym_check(sym_isnan(d) && errno == EINVAL, "k = 0"); return; } sym_check(errno == 0, "no error"); vec<real> t = {(real) k, l}; sym_eq(distribution::erlang(x, t), d, "wrapper"); if (x < 0) { sym_eq(d, 0, "support"); return; } sym_eq(d * fct(k - 1), ipow(l, k) * ipow(x, k - 1) * sym_exp(-l * x), "density");
}
HARNESS(sizes, "t=60", "a parameter vector of the wrong size is an error for every distribution") {
	badsize(distribution::gaussian, 2, "gaussian"); badsize(distribution::bernoulli, 1, "bernoulli"); badsize(distribution::poisson, 1, "poisson"); badsize(distribution::binomial, 2, "binomial"); badsize(distribution::chi_squared, 1, "chi_squared"); badsize(distribution::gamma, 2, "gamma"); badsize(distribution::beta, 2, "beta"); badsize(distribution::student, 1, "student"); badsize(distribution::log_normal, 2, "log_normal"); badsize(distribution::exponential, 1, "exponential"); badsize(distribution::rayleigh, 1, "rayleigh"); badsize(distribution::cauchy, 2, "cauchy"); badsize(distribution::breit_wigner, 2, "breit_wigner"); badsize(distribution::maxwell, 1, "maxwell"); badsize(distribution::laplace, 2, "laplace"); badsize(distribution::pareto, 2, "pareto"); badsize(distribution::erlang, 2, "erlang");
}
static real any(real x, const vec<real>& t) { return sym_uf2("f", x, t[0]); }
HARNESS(likelihood, "t=60", "the likelihood is the product of the density over the sample (1 for an empty one) and the log-likelihood the sum of its logarithms, for an arbitrary density, samples of 0..5 values") {
	int n = (int) sym_choose("n", 0, 5); vec<real> x, t = {sym_real("t")}; x.resize(n); real p = 1, l = 0; for (int i = 0; i < n; ++i) { x[i] = sym_real(nm("x", i)); real f = sym_uf2("f", x[i], t[0]); sym_assume(f > 1e-300); p *= f; l += sym_ln(f); } sym_eq(stats::likelihood(x, t, any), p, "likelihood"); sym_eq(stats::log_likelihood(x, t, any), l, "log-likelihood");
}
HARNESS(large_likelihood, "t=60", "likelihood and log-likelihood of 6..64 values of an arbitrary density") {
	static const int Z[] = {6, 8, 9, 16, 20, 33, 64}; int n = Z[sym_choose("n", 0, 6)]; vec<real> x, t = {sym_real("t")}; x.resize(n); real p = 1, l = 0; for (int i = 0; i < n; ++i) { x[i] = i % 5 * 0.5; real f = sym_uf2("f", x[i], t[0]); if (i < 5) sym_assume(f > 1e-300); l += sym_ln(f); if (n < 17) p *= f; } if (n < 17) sym_eq(stats::likelihood(x, t, any), p, "likelihood"); sym_eq(stats::log_likelihood(x, t, any), l, "log-likelihood");
}
HARNESS(large_masses, "t=60", "poisson masses for k = 35, 42, .. 98 and binomial masses for n = 9..30 at a few parameters; multinomial masses with 4 and 5 classes") {
	int k = (int) sym_choose("k", 9, 40); if (k > 30) { k = 7 * k - 182; real l = sym_real_in("l", 1, 100); sym_eq(distribution::poisson((unsigned) k, l) * fct(k), sym_exp(-l) * ipow(l, k), "poisson"); return; }
	for (int j = 0; j <= k; j += 1 + k / 6) for (int q = 1; q < 4; ++q) { real p = q * 0.25; sym_near(distribution::binomial((unsigned) j, (unsigned) k, p), fct(k) / (fct(j) * fct(k - j)) * ipow(p, j) * ipow(1 - p, k - j), 1E-12, "binomial"); }
	std::vector<unsigned> x = {1, (unsigned) (k % 4), 2, (unsigned) (k % 3), (unsigned) (k % 2)}; std::vector<real> P = {sym_real("p"), 0.25, sym_real("q"), 0.125, 0.5}; unsigned n = 3 + k % 4 + k % 3 + k % 2; real w = fct(n) / (fct(x[1]) * 2 * fct(x[3])) * P[0] * P[2] * P[2]; w *= ipow(0.25, x[1]) * ipow(0.125, x[3]) * ipow(0.5, x[4]); sym_eq(distribution::multinomial(x, n, 5, P), w, "multinomial");
}
HARNESS(large_degrees, "t=60", "student density with 13..40 and chi-squared with 26..60 (even) degrees of freedom at fixed points") {
	int n = (int) sym_choose("n", 13, 40); real x = sym_choose("x", 0, 8) * 0.75 - 3, d = distribution::student(x, (unsigned) n), c = n % 2 ? 0.31830988618379067154 : 0.5; for (int i = n % 2 ? 1 : 2; i + 2 <= n; i += 2) c = c * (i + 1) / i; real a = 1 + x * x / n; sym_check(d > 0, "sign"); sym_near(d * d * ipow(a, n + 1) * n, c * c, 1E-9, "density"); int h = n; if (h <= 30) { real u = 2 + 3 * (n % 4), w = 1; for (int i = 1; i < h; ++i) w = w * u / (2 * i); sym_near(distribution::chi_squared(u, 2 * h) / sym_exp(-u / 2) / w, 0.5, 1E-9, "chi-squared"); }
}
HARNESS(endpoints, "t=60 expsplit", "gamma density at 0 and beta density at 0 and 1: the factor with null exponent is one, with positive exponent null; and the others") {
	real b = sym_real_in("b", 0.0625, 16), a = sym_real_in("a", 1.0625, 8); errno = 0; sym_near(distribution::gamma(0, 1, b), b, 1e-9, "gamma"); sym_eq(distribution::gamma(0, a, b), 0, "gamma"); sym_eq(distribution::gamma(0, 30, b), 0, "gamma"); sym_eq(distribution::beta(0, a, a), 0, "beta"); sym_eq(distribution::beta(1, a, a), 0, "beta");
	for (int i = 1; i < 9; ++i) { sym_near(distribution::beta(0, 1, i), i, 1e-7, "beta"); sym_near(distribution::beta(1, i, 1), i, 1e-7, "beta"); } sym_eq(distribution::beta(0, 1000, 500), 0, "beta"); sym_eq(distribution::beta(1, 1000, 500), 0, "beta"); sym_eq(distribution::erlang(0, 1, b), b, "erlang"); sym_eq(distribution::erlang(0, 2, b), 0, "erlang"); sym_eq(distribution::erlang(0, 40, b), 0, "erlang"); sym_eq(distribution::log_normal(0, a, b), 0, "log-normal"); sym_eq(distribution::maxwell(0, b), 0, "maxwell"); sym_eq(distribution::rayleigh(0, b), 0, "rayleigh"); sym_eq(distribution::exponential(0, b), b, "exponential"); sym_eq(distribution::pareto(b, b, a) * b, a, "pareto"); sym_eq(distribution::chi_squared(0, 120), 0, "chi-squared"); sym_eq(distribution::chi_squared(0, 121), 0, "chi-squared"); sym_check(errno == 0, "no error");
}
HARNESS(negative_points, "t=60", "masses from a parameter vector are null at every negative point") {
	real k = sym_real_in("k", -1000, -1e-9), p = sym_real_in("p", 0.125, 0.875); vec<real> t = {p}, u = {5, p}; errno = 0; sym_eq(distribution::bernoulli(k, t), 0, "bernoulli"); sym_eq(distribution::poisson(k, t), 0, "poisson"); sym_eq(distribution::binomial(k, u), 0, "binomial"); sym_check(errno == 0, "no error");
}
HARNESS(multinomial_support, "t=60", "the multinomial mass is null for outcomes which do not add up to the number of trials") {
	int a = (int) sym_choose("a", 0, 3), b = (int) sym_choose("b", 0, 3), n = (int) sym_choose("n", 0, 8); real p = sym_real("p"), q = sym_real("q"), r = sym_real("r"); if (n == a + b + 1) return; errno = 0; sym_eq(distribution::multinomial({(unsigned) a, (unsigned) b, 1}, n, 3, {p, q, r}), 0, "support"); sym_check(errno == 0, "no error");
}
HARNESS(certain, "t=60", "binomial and poisson masses with a null or certain parameter, also for many trials") {
	static const unsigned N[] = {1, 5, 60, 501, 2000}; unsigned n = N[sym_choose("n", 0, 4)], k = (unsigned) sym_choose("k", 0, 2); k = k == 0 ? 0 : k == 1 ? 1 : n; if (n == 1 && k == 1) k = 0; errno = 0; sym_eq(distribution::binomial(k, n, 0), k == 0, "null"); sym_eq(distribution::binomial(k, n, 1), k == n, "certain"); sym_eq(distribution::poisson(k, 0), k == 0, "poisson"); sym_check(errno == 0, "no error");
}
HARNESS(scales, "mode=fp t=60", "densities scaled by 1e-12, 1e-6, 1e5 and 1e12 in the variable and every parameter of its dimension: s f(s x; s theta) = f(x; theta), relative 1e-7, seven points of both signs and the far tails; log-normals moved by factors 1e-30 to 1e30") {
	static const real S[] = {1e-12, 1e-6, 1e5, 1e12}, X[] = {-4, -0.5, 0, 0.125, 1, 3, 12}; real s = S[sym_choose("s", 0, 3)], x = X[sym_choose("x", 0, 6)]; auto near = [](real a, real b, const char* id) { sym_near(a, b, 1e-7 * (b < 0 ? -b : b) + 1e-300, id); }; errno = 0; typedef vec<real> T;
	near(s * distribution::gaussian(s * x, s * 0.5, s * 2), distribution::gaussian(x, 0.5, 2), "gaussian"); near(s * distribution::gaussian(s * x, T{s * 0.5, s * 2}), distribution::gaussian(x, 0.5, 2), "gaussian"); near(s * distribution::cauchy(s * x, s * 0.5, s * 2), distribution::cauchy(x, 0.5, 2), "cauchy"); near(s * distribution::breit_wigner(s * x, s * 0.5, s * 2), distribution::breit_wigner(x, 0.5, 2), "Breit-Wigner"); near(s * distribution::laplace(s * x, s * 0.5, s * 2), distribution::laplace(x, 0.5, 2), "laplace"); near(s * distribution::exponential(s * x, 0.75 / s), distribution::exponential(x, 0.75), "exponential"); near(s * distribution::rayleigh(s * x, s * 2), distribution::rayleigh(x, 2), "rayleigh"); near(s * distribution::maxwell(s * x, s * 2), distribution::maxwell(x, 2), "maxwell"); near(s * distribution::pareto(s * x, s * 0.5, 2.5), distribution::pareto(x, 0.5, 2.5), "pareto"); if (x > 0) { near(s * distribution::gamma(s * x, 2.5, 0.5 / s), distribution::gamma(x, 2.5, 0.5), "gamma"); near(s * distribution::erlang(s * x, 3, 0.5 / s), distribution::erlang(x, 3, 0.5), "erlang"); }
	if (x > 0) { static const real G[4][2] = {{1e-30, -69.077552789821370521}, {1e-6, -13.815510557964274104}, {1e5, 11.512925464970228420}, {1e30, 69.077552789821370521}}; const real* g = G[s < 1e-9 ? 0 : s < 1 ? 1 : s < 1e9 ? 2 : 3]; near(distribution::log_normal(g[0] * x, 0.5 + g[1], 2) * g[0], distribution::log_normal(x, 0.5, 2), "log-normal"); } sym_check(errno == 0, "no error");
}
HARNESS(tails, "mode=fp t=60", "masses and densities far in the tails, down to 1e-270: Poisson, binomial, Student and chi-squared at fixed points, relative 1e-6 (values from the logarithms)") {
	static const real P[][3] = {{100, 800, 8.0058882159864403e-216}, {0, 700, 9.8596765437597709e-305}, {3, 690, 1.1890592851351511e-292}, {90, 900, 6.9961054462580725e-264}, {60, 300, 2.6227437622947033e-64}, {250, 120, 1.4804279916379517e-25}, {1, 101, 1.3822248658855915e-42}, {1000, 900, 5.9269532854188998e-5}}, B[][4] = {{400, 1000, 0.25, 8.1040960930962428e-26}, {3, 600, 0.0001, 3.3744214988921123e-5}, {10, 900, 0.5, 1.0811213191648908e-248}, {700, 1000, 0.9, 5.0630993840402042e-69}, {30, 40, 0.01, 7.666089872156993e-52}}, T[][3] = {{5, 40, 1.1476745739098755e-8}, {101, 30, 6.2818448874556184e-52}, {250, 20, 3.3213955706257131e-53}, {3, 1000, 3.307953524779832e-12}}, C[][3] = {{150, 20, 6.8623793908702654e-39}, {300, 900, 1.0335120594652919e-61}, {60, 400, 4.2015029976425394e-52}, {5, 300, 4.9579073612472842e-63}, {101, 5, 4.7726553836679961e-46}}; int i = (int) sym_choose("i", 0, 7); auto near = [](real a, real b, const char* id) { sym_near(a / b, 1, 1e-6, id); }; errno = 0; near(distribution::poisson((unsigned) P[i][0], P[i][1]), P[i][2], "poisson"); near(distribution::poisson(P[i][0], vec<real>{P[i][1]}), P[i][2], "poisson"); if (i < 5) { near(distribution::binomial((unsigned) B[i][0], (unsigned) B[i][1], B[i][2]), B[i][3], "binomial"); near(distribution::chi_squared(C[i][1], (unsigned) C[i][0]), C[i][2], "chi-squared"); } if (i < 4) { near(distribution::student(T[i][1], (unsigned) T[i][0]), T[i][2], "student"); near(distribution::student(-T[i][1], (unsigned) T[i][0]), T[i][2], "student"); } sym_check(errno == 0, "no error");
}

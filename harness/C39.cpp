// C39 builds with exceptions
// FLAGS: -fexceptions -DTHEORETICA_THROW_EXCEPTIONS -UTHEORETICA_NO_PRINT
#include "sym.h"
#include "../harness/text.h"
#include "theoretica.h"
#include "complex/quat.h"
#include "complex/phasor.h"
using namespace theoretica;
namespace th = theoretica;
struct outcome { bool threw; int code; real val; std::string fn, file; unsigned line; int err; };
template<typename F> static outcome run(F f) {
	outcome o;
	o.threw = false; o.code = 0; o.val = 0; o.line = 0;
	errno = 0;
	try { f(); } catch (const math_exception& x) {
		o.threw = true; o.code = x.err_code(); o.val = x.get_value(); o.fn = x.get_function_name(); o.file = x.get_file_name(); o.line = x.get_line_number();
	}
	o.err = errno;
	return o;
}
// thrown exactly when the arguments are wrong, with the code, and errno set as well (or untouched in builds with exceptions only)
static bool expect(const outcome& o, bool wrong, int code, const char* id) {
	sym_check(o.threw == wrong, id);
	if (!o.threw || !wrong) return false;
	sym_check(o.code == code, id);
#ifdef THEORETICA_ONLY_EXCEPTIONS
	sym_check(o.err == 0, id);
#else
	sym_check(o.err == th_errcode_to_errno((MATH_ERRCODE) code), id);
#endif
	sym_check(o.line > 0 && o.fn.size() > 0 && o.file.size() > 2, id);
	return true;
}
HARNESS(real_functions, "t=60 nosum=ln", "sqrt, logarithms, inverse functions: thrown exactly outside the domain, with the offending value and the function's name, for every real argument") {
	real x = sym_real("x");
	volatile real r;
	outcome o = run([&] { r = th::sqrt(x); });
	if (expect(o, x < 0, OUT_OF_DOMAIN, "sqrt")) { sym_eq(o.val, x, "value"); sym_check(o.fn == "sqrt", "name"); }
	o = run([&] { r = th::ln(x); });
	if (x != 0) { if (expect(o, x < 0, OUT_OF_DOMAIN, "ln")) { sym_eq(o.val, x, "value"); sym_check(o.fn == "ln", "name"); } }
	else expect(o, true, OUT_OF_RANGE, "ln 0");
	o = run([&] { r = th::asin(x); });
	if (expect(o, x < -1 || x > 1, OUT_OF_DOMAIN, "asin")) { sym_eq(o.val, x, "value"); sym_check(o.fn == "asin", "name"); }
	o = run([&] { r = th::acos(x); });
	if (expect(o, x < -1 || x > 1, OUT_OF_DOMAIN, "acos")) { sym_eq(o.val, x, "value"); sym_check(o.fn == "acos", "name"); }
	o = run([&] { r = th::acosh(x); });
	if (expect(o, x < 1, OUT_OF_DOMAIN, "acosh")) sym_check(o.fn == "acosh", "name");
	o = run([&] { r = th::atanh(x); });
	if (x != 1 && x != -1 && expect(o, x < -1 || x > 1, OUT_OF_DOMAIN, "atanh")) sym_check(o.fn == "atanh", "name");
	int n = sym_choose("n", 0, 3), m = sym_choose("m", 0, 4);
	o = run([&] { r = binomial_coeff(n, m); });
	expect(o, m > n, IMPOSSIBLE_OPERATION, "binomial_coeff");
}
HARNESS(vectors, "t=60", "vector operations on operands of 0..3 elements: thrown exactly on a size mismatch, the operands keep their contents") {
	unsigned n = sym_choose("n", 0, 3), m = sym_choose("m", 0, 3);
	vec<real> a(n), b(m), r(n);
	for (unsigned i = 0; i < n; ++i) a[i] = sym_real(nm("a", i));
	for (unsigned i = 0; i < m; ++i) b[i] = sym_real(nm("b", i));
	vec<real> a0 = a, b0 = b;
	bool bad = n != m;
	expect(run([&] { real d = a.dot(b); (void) d; }), bad, INVALID_ARGUMENT, "dot");
	expect(run([&] { a + b; }), bad, INVALID_ARGUMENT, "+");
	expect(run([&] { a - b; }), bad, INVALID_ARGUMENT, "-");
	vec<real> c = a, d = a;
	if (n) { expect(run([&] { c += b; }), bad, INVALID_ARGUMENT, "+="); }
	else c = a;
	if (n) expect(run([&] { d -= b; }), bad, INVALID_ARGUMENT, "-=");
	expect(run([&] { algebra::vec_copy(r, b); }), false, 0, "copy resizes");
	expect(run([&] { algebra::cross(a, b); }), n != 3 || m != 3, INVALID_ARGUMENT, "cross");
	expect(run([&] { algebra::euclidean_distance(a, b); }), bad, INVALID_ARGUMENT, "distance");
	expect(run([&] { product_sum(a, b); }), bad || !n, INVALID_ARGUMENT, "product_sum");
	if (bad && n) for (unsigned i = 0; i < n; ++i) { sym_eq(a[i], a0[i], "operand"); }
	sym_check(a.size() == n && b.size() == m, "sizes");
	real s = sym_real("s");
	expect(run([&] { vec<real> e = a0; e /= s; }), th::abs(s) < MACH_EPSILON, DIV_BY_ZERO, "/=");
	expect(run([&] { arithmetic_mean(a0); }), n == 0, DIV_BY_ZERO, "mean");
}
HARNESS(matrices, "t=120", "matrix operations on shapes up to 3x3: thrown exactly on incompatible shapes or null determinants") {
	unsigned n = sym_choose("n", 1, 3), k = sym_choose("k", 1, 3), p = sym_choose("p", 1, 3), q = sym_choose("q", 1, 3);
	mat<real> A(n, k), B(p, q);
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < k; ++j) A(i, j) = i == j ? 2 : 1;
	for (unsigned i = 0; i < p; ++i) for (unsigned j = 0; j < q; ++j) B(i, j) = i + j;
	bool diff = n != p || k != q;
	expect(run([&] { A + B; }), diff, INVALID_ARGUMENT, "+");
	expect(run([&] { A - B; }), diff, INVALID_ARGUMENT, "-");
	expect(run([&] { A * B; }), k != p, INVALID_ARGUMENT, "*");
	expect(run([&] { algebra::mat_transpose_mul(A, B); }), n != p, INVALID_ARGUMENT, "A^T B");
	expect(run([&] { algebra::mat_mul_transpose(A, B); }), k != q, INVALID_ARGUMENT, "A B^T");
	expect(run([&] { algebra::inverse(A); }), n != k, INVALID_ARGUMENT, "inverse shape");
	expect(run([&] { algebra::det(A); }), n != k, INVALID_ARGUMENT, "det shape");
	expect(run([&] { A * vec<real>(p, 1.0); }), k != p, INVALID_ARGUMENT, "A v");
	if (n == k) {
		mat<real> S = A;
		for (unsigned j = 0; j < n; ++j) S(n - 1, j) = n == 1 ? 0 : S(0, j);
		expect(run([&] { algebra::inverse(S); }), true, IMPOSSIBLE_OPERATION, "singular");
	}
}
HARNESS(algebraic, "t=60", "quotients of complex, quaternion, phasor, dual and polynomial operands: thrown exactly for a null divisor") {
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d");
	complex<real> z(a, b), w(c, d);
	sym_assume((c == 0 && d == 0) || c * c + d * d > 1);
	bool nul = c == 0 && d == 0;
	expect(run([&] { z / w; }), nul, DIV_BY_ZERO, "complex");
	expect(run([&] { complex<real> t = z; t /= w; }), nul, DIV_BY_ZERO, "complex /=");
	expect(run([&] { w.inverse(); }), nul, DIV_BY_ZERO, "complex inverse");
	expect(run([&] { quat<real>(a, b, a, b) / quat<real>(c, 0, d, 0); }), nul, DIV_BY_ZERO, "quat");
	sym_assume(c == 0 || c > 1 || c < -1);
	expect(run([&] { dual(a, b) / dual(c, d); }), c == 0, DIV_BY_ZERO, "dual");
	expect(run([&] { dual2(a, b, d) / dual2(c, d, a); }), c == 0, DIV_BY_ZERO, "dual2");
	expect(run([&] { multidual<2>(a, {b, d}) / multidual<2>(c, {d, a}); }), c == 0, DIV_BY_ZERO, "multidual");
	polynomial<real> p({1, 2, 3}), q({c});
	expect(run([&] { p / q; }), c == 0, DIV_BY_ZERO, "polynomial");
}
HARNESS(algorithms, "t=60", "quadrature, statistics, interpolation and distributions: thrown exactly for invalid sizes and counts") {
	unsigned n = sym_choose("n", 0, 3), m = sym_choose("m", 0, 3);
	real x = sym_real_in("x", -2, 2);
	auto f = [](real t) { return t * t; };
	expect(run([&] { integral_midpoint(f, 0.0, 1.0, n); }), n == 0, DIV_BY_ZERO, "midpoint");
	expect(run([&] { integral_trapezoid(f, 0.0, 1.0, n); }), n == 0, DIV_BY_ZERO, "trapezoid");
	vec<real> X(n), Y(m);
	for (unsigned i = 0; i < n; ++i) X[i] = i;
	for (unsigned i = 0; i < m; ++i) Y[i] = i + 1;
	if (n == m || (n > 1 && m > 1)) expect(run([&] { stats::covariance(X, Y); }), n != m || n < 2, INVALID_ARGUMENT, "covariance");
	expect(run([&] { stats::variance(X); }), n < 2, INVALID_ARGUMENT, "variance");
	expect(run([&] { distribution::gaussian(x, X); }), n != 2, INVALID_ARGUMENT, "gaussian parameters");
	expect(run([&] { distribution::exponential(x, Y); }), m != 1, INVALID_ARGUMENT, "exponential parameters");
	expect(run([&] { vec<complex<real>> t(n, complex<real>(1.0, 0.0)); signal::fft(t); }), n == 3, INVALID_ARGUMENT, "fft length");
}
HARNESS(bracketing, "t=60 mode=fp", "bisection throws exactly when the interval does not bracket a root, chosen intervals") {
	real x = sym_choose("x", -8, 8) / 4.0;
	expect(run([&] { root_bisect([](real t) { return t - 0.5; }, x, 1.0); }), x >= 0.5, INVALID_ARGUMENT, "bisect");
	expect(run([&] { root_itp([](real t) { return t - 0.5; }, x, 1.0); }), x >= 0.5, INVALID_ARGUMENT, "itp");
}
HARNESS(base_class, "t=60", "the exception is a std::exception, describes its code, carries its value, and its text names file, line, function and value") {
	static const MATH_ERRCODE codes[7] = {NO_ERROR, DIV_BY_ZERO, OUT_OF_DOMAIN, OUT_OF_RANGE, IMPOSSIBLE_OPERATION, NO_ALGO_CONVERGENCE, INVALID_ARGUMENT};
	int k = sym_choose("code", 0, 6);
	real v = sym_real("v");
	bool caught = false;
	try { throw math_exception(codes[k], "fun", "file.h", 17, v); }
	catch (const std::exception& e) { caught = true; sym_check(std::string(e.what()) != "Unknown error" && e.what()[0] != 0, "described"); }
	sym_check(caught, "caught as std::exception");
	math_exception e(codes[k], "fun", "file.h", 17, v);
	sym_check(e.err_code() == codes[k] && e.get_line_number() == 17 && e.get_function_name() == "fun" && e.get_file_name() == "file.h", "fields");
	sym_eq(e.get_value(), v, "value");
	reader(e.to_string(), "text").lit("file.h(").val(17).lit("):fun(").val(v).lit("): ").lit(e.what()).end();
	for (int j = 0; j < 7; ++j) sym_check((std::string(math_exception(codes[j], "", "", 1, v).what()) == e.what()) == (j == k), "distinct");
}

HARNESS(errno_map, "t=60", "each error code has its errno, in any previous state of errno: EDOM for domains and impossible operations, ERANGE for null divisors, range and convergence, EINVAL for invalid arguments") {
	static const MATH_ERRCODE codes[7] = {NO_ERROR, DIV_BY_ZERO, OUT_OF_DOMAIN, OUT_OF_RANGE, IMPOSSIBLE_OPERATION, NO_ALGO_CONVERGENCE, INVALID_ARGUMENT}; static const int E[7] = {0, ERANGE, EDOM, ERANGE, EDOM, ERANGE, EINVAL}; int k = (int) sym_choose("code", 0, 6); sym_check(th_errcode_to_errno(codes[k]) == E[k], "errno of the code"); sym_check(th_errcode_to_errno((MATH_ERRCODE) 0x77) == 0, "unknown");
	static const int S[] = {0, EINVAL, ERANGE, EDOM, 99}; int before = S[sym_choose("before", 0, 4)]; errno = before; bool t = false; volatile real r; try { r = th::sqrt(-1.0); } catch (const math_exception& e) { t = true; } sym_check(t, "thrown");
#ifdef THEORETICA_ONLY_EXCEPTIONS
	sym_check(errno == before, "errno untouched");
#else
	sym_check(errno == EDOM, "errno set again");
#endif
	errno = before; r = th::sqrt(4.0); sym_check(errno == before, "no error leaves errno");
}
HARNESS(fields, "mode=fp t=60", "the exception carries lines to 2^32 - 1 and any value, NaN and infinities included, and copies keep them") {
	static const unsigned L[] = {1, 999, 1000, 1234, 65536, 4294967295u}; unsigned l = L[sym_choose("line", 0, 5)]; real v = sym_real("v"); math_exception e(OUT_OF_RANGE, "f", "g.h", l, v); math_exception c = e; real a = e.get_value(), b = c.get_value(); sym_check(e.get_line_number() == l && c.get_line_number() == l && c.err_code() == OUT_OF_RANGE, "line"); sym_check(v != v ? a != a && b != b : a == v && b == v, "value");
}
HARNESS(lines, "t=60", "the text holds the whole line number and value") {
	static const unsigned L[] = {1, 999, 1000, 1234, 65536}; unsigned l = L[sym_choose("line", 0, 4)]; real v = sym_real("v"); math_exception e(OUT_OF_RANGE, "f", "g.h", l, v); reader(e.to_string(), "text").lit("g.h(").val(l).lit("):f(").val(v).lit("): ").lit(e.what()).end();
}

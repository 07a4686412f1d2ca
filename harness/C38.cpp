// C38 text representations
// FLAGS: -UTHEORETICA_NO_PRINT
#include "sym.h"
#include "../harness/text.h"
#include "theoretica.h"
#include "complex/quat.h"
#include "complex/phasor.h"
#include "core/ratio.h"
#include "calculus/ode.h"
#include "statistics/histogram.h"
#include "statistics/regression.h"
using namespace theoretica;
namespace th = theoretica;
// the text of an object through every way of asking for it
template<typename T> static std::string streamed(const T& x) { std::stringstream o; o << x; return o.str(); }
template<typename V> static void vec_text(const V& v, unsigned n, const char* id) {
	for (int how = 0; how < 5; ++how) {
		V w = v;
		std::string sep = how == 3 || how == 4 ? "; " : ", ";
		std::string s = how == 0 ? v.to_string() : how == 1 ? streamed(v) : how == 2 ? (std::string) w : v.to_string("; ", how == 3);
		reader r(s, id);
		if (how != 4) r.lit("(");
		for (unsigned i = 0; i < n; ++i) {
			r.val(v[i]);
			if (i + 1 < n) r.lit(sep.c_str());
		}
		if (how != 4) r.lit(")");
		r.end();
	}
}
HARNESS(vectors, "t=60", "vectors of 0..5 elements (dynamic) and 1, 3 elements (fixed): every element once, in order, between separators, optional brackets") {
	unsigned n = sym_choose("n", 0, 5);
	vec<real> v(n);
	for (unsigned i = 0; i < n; ++i) v[i] = sym_real(nm("v", i));
	vec_text(v, n, "dynamic");
	vec<real, 3> f;
	for (unsigned i = 0; i < 3; ++i) f[i] = sym_real(nm("f", i));
	vec_text(f, 3, "fixed");
	vec<real, 1> g;
	g[0] = f[0];
	vec_text(g, 1, "fixed 1");
}
template<typename M> static void mat_text(const M& m, const char* id) {
	for (int how = 0; how < 5; ++how) {
		M w = m;
		std::string sep = how == 3 || how == 4 ? "; " : ", ";
		std::string s = how == 0 ? m.to_string() : how == 1 ? streamed(m) : how == 2 ? (std::string) w : m.to_string("; ", how == 3);
		reader r(s, id);
		for (unsigned i = 0; i < m.rows(); ++i) {
			if (how != 4) r.lit("(");
			for (unsigned j = 0; j < m.cols(); ++j) {
				if (j) r.lit(sep.c_str());
				if (r.number()) r.val(m(i, j));
				else { sym_check(th::abs(m(i, j)) < MACH_EPSILON, id); r.lit("0"); }
			}
			if (how != 4) r.lit(")");
			r.lit("\n");
		}
		r.end();
	}
}
HARNESS(matrices, "t=60", "matrices up to 3x3 (dynamic) and 2x3 (fixed): one line per row, every element once in its column") {
	unsigned n = sym_choose("n", 1, 3), k = sym_choose("k", 1, 3);
	mat<real> m(n, k);
	for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < k; ++j) m(i, j) = sym_choose("null", 0, 1) && (i + j) % 2 ? 0.0 : (i * 10.0 + j + 1);
	mat_text(m, "dynamic");
	mat<real, 2, 3> f;
	for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 3; ++j) f(i, j) = m(i % n, j % k) + 0.5;
	mat_text(f, "fixed");
}
HARNESS(matrices_any, "t=60", "2x2 matrices with arbitrary elements") {
	mat<real> m(2, 2);
	for (unsigned i = 0; i < 2; ++i) for (unsigned j = 0; j < 2; ++j) { m(i, j) = sym_real(nm("m", i, j)); }
	sym_assume(m(0, 0) > 1 && m(1, 1) > 1 && m(1, 0) < -1);
	mat_text(m, "any");
}
static void part(reader& r, real b, const char* unit, bool unit_alone = false) {
	r.lit(b >= 0 ? " + " : " - ");
	if (unit_alone && !r.number()) sym_check(b == 1 || b == -1, r.id);
	else r.val(b >= 0 ? b : -b);
	r.lit(unit);
}
HARNESS(numbers, "t=60", "complex numbers, quaternions, phasors, dual numbers of first and second order and ratios: each part with its sign and unit") {
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c"), d = sym_real("d");
	for (int how = 0; how < 3; ++how) {
		{ complex<real> z(a, b); reader r(how == 0 ? z.to_string() : how == 1 ? streamed(z) : (std::string) z, "complex"); r.val(a); part(r, b, "i", true); r.end(); }
		{ dual z(a, b); reader r(how == 0 ? z.to_string() : how == 1 ? streamed(z) : (std::string) z, "dual"); r.val(a); part(r, b, "e"); r.end(); }
		{ phasor<real> z(a, b); reader r(how == 0 ? z.to_string() : how == 1 ? streamed(z) : (std::string) z, "phasor"); r.val(a).lit("/").val(b).end(); }
		{ ratio<real> z(a, b); reader r(how == 0 ? z.to_string() : how == 1 ? streamed(z) : (std::string) z, "ratio"); r.val(a).lit("/").val(b).end(); }
	}
	{ reader r(dual(a, b).to_string("eps"), "dual"); r.val(a); part(r, b, "eps"); r.end(); }
	{ dual2 z(a, b, c); reader r(z.to_string(), "dual2"); r.val(a); part(r, b, "e1"); part(r, c, "e2"); r.end(); }
	{ dual2 z(a, b, c); reader r(streamed(z), "dual2"); r.val(a); part(r, b, "e1"); part(r, c, "e2"); r.end(); }
	{ dual2 z(a, b, c); reader r(z.to_string("x", "y"), "dual2"); r.val(a); part(r, b, "x"); part(r, c, "y"); r.end(); }
	{ quat<real> q(a, b, c, d); reader r(q.to_string(), "quat"); r.val(a); part(r, b, "i"); part(r, c, "j"); part(r, d, "k"); r.end(); }
	{ quat<real> q(a, b, c, d); reader r(streamed(q), "quat"); r.val(a); part(r, b, "i"); part(r, c, "j"); part(r, d, "k"); r.end(); }
	{ multidual<2> m(a, {b, c}); reader r(m.to_string(), "multidual"); r.val(a).lit(" + (").val(b).lit(", ").val(c).lit(")e").end(); }
	{ multidual<2> m(a, {b, c}); reader r(streamed(m), "multidual"); r.val(a).lit(" + (").val(b).lit(", ").val(c).lit(")e").end(); }
}
HARNESS(polynomials, "t=60", "polynomials of up to 4 coefficients: every term above the tolerance once, by falling power, with its sign; the null polynomial is 0") {
	unsigned n = sym_choose("n", 0, 4);
	std::vector<real> co(n, 0.0);
	for (unsigned i = 0; i < n; ++i) co[i] = sym_real(nm("c", i));
	polynomial<real> p(co);
	for (int how = 0; how < 3; ++how) {
		reader r(how == 0 ? p.to_string() : how == 1 ? streamed(p) : p.to_string("y", "**"), "polynomial");
		bool any = false;
		for (int i = (int) n - 1; i >= 0; --i) {
			if (th::abs(co[i]) < MACH_EPSILON) continue;
			any = true;
			r.lit(co[i] >= 0 ? "+ " : "- ").val(co[i] >= 0 ? co[i] : -co[i]);
			if (i) r.lit("*").lit(how == 2 ? "y" : "x").lit(how == 2 ? "**" : "^").val(i).lit(" ");
		}
		if (!any) r.lit("0");
		r.end();
	}
}
HARNESS(tables, "t=60", "histograms print each bin's centre (or lower edge) and its relative (or absolute) count; ODE solutions one line per step") {
	real a = sym_real_in("a", -4, 4), w = sym_real_in("w", 0.5, 4);
	unsigned nb = sym_choose("bins", 1, 3), k = sym_choose("inserted", 0, 3);
	histogram h(nb, a, a + nb * w);
	for (unsigned i = 0; i < k; ++i) h.insert(a + w * (i % nb) + w / 2);
	for (int how = 0; how < 4; ++how) {
		bool norm = how % 2 == 0, low = how / 2;
		reader r(how == 0 ? h.to_string() : h.to_string(" ", norm, low), "histogram");
		if (k)
			for (unsigned i = 0; i < nb; ++i) {
				unsigned c = 0;
				for (unsigned j = 0; j < k; ++j) c += j % nb == i;
				r.val(a + w * (i + (low ? 0 : 0.5))).lit(" ").val(norm ? c / (real) k : c).lit("\n");
			}
		r.end();
	}
	{ reader r(streamed(h), "histogram stream"); if (!k) r.end(); else { r.val(a + w / 2).lit(" "); text::reset(); } }
	ode::ode_solution2d s;
	unsigned n = sym_choose("steps", 0, 2);
	for (unsigned i = 0; i < n; ++i) {
		s.t.push(sym_real(nm("t", i)));
		s.x.push(vec2({sym_real(nm("x", i)), sym_real(nm("y", i))}));
	}
	for (int how = 0; how < 3; ++how) {
		reader r(how == 0 ? s.to_string() : how == 1 ? streamed(s) : s.to_string(","), "ode");
		const char* sep = how == 2 ? "," : " ";
		for (unsigned i = 0; i < n; ++i) r.val(s.t[i]).lit(sep).val(s.x[i][0]).lit(sep).val(s.x[i][1]).lit("\n");
		r.end();
	}
	s.t.push(1.0);
	errno = 0;
	sym_check(s.to_string().size() == 0 && errno == EINVAL, "unequal columns are reported");
}
HARNESS(model, "t=60", "a linear model prints its coefficients, each with its error, and its figures of merit when they are known") {
	regression::linear_model m;
	real a = sym_real("a"), b = sym_real("b"), sa = sym_real("sa"), sb = sym_real("sb"), e = sym_real("e"), ch = sym_real("ch"), p = sym_real("p");
	m.A = a; m.B = b; m.err = e; m.ndf = 7;
	int k = sym_choose("known", 0, 15);
	m.sigma_A = k & 1 ? sa : nan(); m.sigma_B = k & 2 ? sb : nan(); m.chi_squared = k & 4 ? ch : nan(); m.p_value = k & 8 ? p : nan();
	reader r(m.to_string(), "model");
	r.lit("Model: y = A + B * x\nA = ").val(a);
	if (k & 1) r.lit(" +- ").val(sa);
	r.lit("\nB = ").val(b);
	if (k & 2) r.lit(" +- ").val(sb);
	r.lit("\nError = ").val(e).lit("\nndf = ").val(7).lit("\n");
	if (k & 4) r.lit("Chi-squared = ").val(ch).lit("\n");
	if (k & 8) r.lit("p-value = ").val(p).lit("\n");
	if (r.i < r.s.size()) {
		r.lit("Covariance Matrix:\n");
		sym_check(!sym_isnan(m.covar_mat(0, 0)), "covariance known");
	} else { sym_check(sym_isnan(m.covar_mat(0, 0)), "covariance unknown"); r.end(); }
	text::reset();
}
HARNESS(large_text, "t=60", "vectors of 6..16 elements, matrices of 4x5, 5x3 and 6x6, polynomials of 5..10 coefficients") {
	int k = sym_choose("k", 0, 7);
	if (k < 4) { static const unsigned N[] = {6, 8, 9, 16}; unsigned n = N[k]; vec<real> v(n); for (unsigned i = 0; i < n; ++i) v[i] = sym_real(nm("v", i)); vec_text(v, n, "vector"); return; }
	if (k < 7) { unsigned r = k == 4 ? 4 : k == 5 ? 5 : 6, c = k == 4 ? 5 : k == 5 ? 3 : 6; mat<real> m(r, c); for (unsigned i = 0; i < r; ++i) for (unsigned j = 0; j < c; ++j) m(i, j) = (i * c + j) % 7 == 3 ? 0.0 : (i + j) % 2 ? -(i * 10.0 + j + 1) : i * 10.0 + j + 1; mat_text(m, "matrix"); return; }
	for (unsigned n = 5; n <= 10; ++n) {
		std::vector<real> co(n, 0.0); for (unsigned i = 0; i < n; ++i) co[i] = i % 4 == 1 ? 0.0 : i == n - 1 ? sym_real("c") : i % 3 ? i + 0.5 : -(i + 1.0);
		polynomial<real> p(co); reader r(p.to_string(), "polynomial");
		for (int i = (int) n - 1; i >= 0; --i) { if (th::abs(co[i]) < MACH_EPSILON) continue; r.lit(co[i] >= 0 ? "+ " : "- ").val(co[i] >= 0 ? co[i] : -co[i]); if (i) r.lit("*x^").val(i).lit(" "); }
		r.end();
	}
}
HARNESS(large_multidual, "t=60", "multiduals with 1..6 derivatives") {
	unsigned n = sym_choose("n", 1, 6); vec<real> d(n); for (unsigned i = 0; i < n; ++i) d[i] = sym_real(nm("d", i)); real a = sym_real("a"); multidual<> m(a, d);
	reader r(sym_choose("how", 0, 1) ? m.to_string() : streamed(m), "multidual"); r.val(a).lit(" + ("); for (unsigned i = 0; i < n; ++i) { if (i) r.lit(", "); r.val(d[i]); } r.lit(")e").end();
}

HARNESS(matrices_signs, "t=60", "matrices with negative, small and null elements, fixed and dynamic") {
	mat<real, 2, 3> f; mat<real> m(2, 3); static const real K[] = {-1, 1e-9, -1e-9, 0, -250.5, 3}; int k = (int) sym_choose("k", 0, 5); real x = sym_real_in("x", -8, 8); for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) m(i, j) = f(i, j) = i * 3 + j == 4 ? x : K[(i * 3 + j + k) % 6]; sym_assume(x > 0.5 || x < -0.5); mat_text(f, "fixed"); mat_text(m, "dynamic");
	vec<real, 3> v; for (int j = 0; j < 3; ++j) v[j] = K[(j + k) % 6]; reader(v.to_string(), "vector").lit("(").val(v[0]).lit(", ").val(v[1]).lit(", ").val(v[2]).lit(")").end();
}

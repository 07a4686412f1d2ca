// C09 quaternions and phasors
#include "sym.h"
#include <array>
#include "theoretica.h"
#include "complex/quat.h"
#include "complex/phasor.h"
using namespace theoretica;
namespace th = theoretica;
typedef quat<real> Q;
typedef phasor<real> F;
static Q qin(const char* n) { return Q(sym_real(nm(n, 0)), sym_real(nm(n, 1)), sym_real(nm(n, 2)), sym_real(nm(n, 3))); }
static void qeq(const Q& q, real a, real b, real c, real d, const char* id) { sym_eq(q.a, a, id); sym_eq(q.b, b, id); sym_eq(q.c, c, id); sym_eq(q.d, d, id); }
static void qeq(const Q& q, const Q& r, const char* id) { qeq(q, r.a, r.b, r.c, r.d, id); }
// Hamilton product from the table i2=j2=k2=ijk=-1
static Q ham(const Q& p, const Q& q) {
	return Q(p.a * q.a - p.b * q.b - p.c * q.c - p.d * q.d, p.a * q.b + p.b * q.a + p.c * q.d - p.d * q.c,
	         p.a * q.c + p.c * q.a + p.d * q.b - p.b * q.d, p.a * q.d + p.d * q.a + p.b * q.c - p.c * q.b);
}
HARNESS(quat_ring, "t=60", "quaternion + - * with quaternion and real operands on both sides, compound forms, aliasing") {
	Q p = qin("p"), q = qin("q");
	real k = sym_real("k");
	Q p0 = p, q0 = q, h = ham(p, q);
	qeq(p + q, p.a + q.a, p.b + q.b, p.c + q.c, p.d + q.d, "+"); qeq(p - q, p.a - q.a, p.b - q.b, p.c - q.c, p.d - q.d, "-");
	qeq(p * q, h, "*"); qeq(-p, -p.a, -p.b, -p.c, -p.d, "neg"); qeq(+p, p, "plus");
	qeq(p + k, p.a + k, p.b, p.c, p.d, "p+k"); qeq(p - k, p.a - k, p.b, p.c, p.d, "p-k"); qeq(p * k, p.a * k, p.b * k, p.c * k, p.d * k, "p*k");
	qeq(k + p, p.a + k, p.b, p.c, p.d, "k+p"); qeq(k - p, k - p.a, -p.b, -p.c, -p.d, "k-p"); qeq(k * p, p.a * k, p.b * k, p.c * k, p.d * k, "k*p");
	Q t = p; t += q; qeq(t, p.a + q.a, p.b + q.b, p.c + q.c, p.d + q.d, "+=");
	t = p; t -= q; qeq(t, p.a - q.a, p.b - q.b, p.c - q.c, p.d - q.d, "-=");
	t = p; t *= q; qeq(t, h, "*=");
	t = p; t *= k; qeq(t, p.a * k, p.b * k, p.c * k, p.d * k, "*= k");
	t = p; t *= t; qeq(t, ham(p, p), "*= self");
	t = p; t += t; qeq(t, 2 * p.a, 2 * p.b, 2 * p.c, 2 * p.d, "+= self");
	qeq(p, p0, "operand unchanged"); qeq(q, q0, "operand unchanged");
}
HARNESS(quat_parts, "t=60", "parts, conjugate, norms, constructors; conj(pq) = conj(q) conj(p); |pq| = |p||q|") {
	Q p = qin("p"), q = qin("q");
	sym_eq(p.Re(), p.a, "Re"); sym_eq(p.Im1(), p.b, "Im1"); sym_eq(p.Im2(), p.c, "Im2"); sym_eq(p.Im3(), p.d, "Im3");
	sym_eq(Re(p), p.a, "Re"); sym_eq(Im1(p), p.b, "Im1"); sym_eq(Im2(p), p.c, "Im2"); sym_eq(Im3(p), p.d, "Im3");
	qeq(p.conjugate(), p.a, -p.b, -p.c, -p.d, "conjugate");
	real n = p.a * p.a + p.b * p.b + p.c * p.c + p.d * p.d;
	sym_eq(p.sqr_norm(), n, "sqr_norm"); sym_eq(p.norm() * p.norm(), n, "norm"); sym_le(0, p.norm(), "norm sign");
	sym_eq((p * q).sqr_norm(), p.sqr_norm() * q.sqr_norm(), "multiplicative");
	qeq((p * q).conjugate(), q.conjugate() * p.conjugate(), "conj");
	qeq(Q(), 0, 0, 0, 0, "default"); qeq(Q(p.b), p.b, 0, 0, 0, "real"); Q c(p); qeq(c, p, "copy");
	std::array<real, 4> v; v[0] = q.a; v[1] = q.b; v[2] = q.c; v[3] = q.d;
	c = v; qeq(c, q, "array");
}
HARNESS(quat_division, "t=60", "p / q = p q^-1 and q q^-1 = 1 in all forms for |q|^2 >= 2^-52") {
	Q p = qin("p"), q = qin("q");
	real n = q.a * q.a + q.b * q.b + q.c * q.c + q.d * q.d, k = sym_real("k");
	sym_assume(n >= MACH_EPSILON);
	errno = 0;
	Q i(q.a / n, -q.b / n, -q.c / n, -q.d / n), e = ham(p, i);
	qeq(q.inverse(), i, "inverse"); Q t = q; t.invert(); qeq(t, i, "invert");
	qeq(p / q, e, "/"); t = p; t /= q; qeq(t, e, "/=");
	qeq(k / q, k * i.a, k * i.b, k * i.c, k * i.d, "k/q");
	sym_assume(k >= MACH_EPSILON || k <= -MACH_EPSILON);
	qeq(p / k, p.a / k, p.b / k, p.c / k, p.d / k, "/ k"); t = p; t /= k; qeq(t, p.a / k, p.b / k, p.c / k, p.d / k, "/= k");
	sym_check(errno == 0, "no error");
}
HARNESS(quat_division_by_zero, "t=60", "dividing a quaternion by zero gives NaN and ERANGE in all forms") {
	Q p = qin("p"), o;
	errno = 0; Q t = o.inverse(); sym_check(sym_isnan(t.a) && errno == ERANGE, "inverse");
	errno = 0; t = o; t.invert(); sym_check(sym_isnan(t.a) && errno == ERANGE, "invert");
	errno = 0; t = p / 0.0; sym_check(sym_isnan(t.a) && errno == ERANGE, "/ k");
	errno = 0; t = p; t /= 0.0; sym_check(sym_isnan(t.a) && errno == ERANGE, "/= k");
	errno = 0; t = p / o; sym_check(sym_isnan(t.a) && errno == ERANGE, "/");
	errno = 0; t = p; t /= o; sym_check(sym_isnan(t.a) && errno == ERANGE, "/=");
	errno = 0; t = sym_real("k") / o; sym_check(sym_isnan(t.a) && errno == ERANGE, "k /");
	errno = 0; F z = F(2, 1) / F(0, 1); sym_check(sym_isnan(z.modulus) && errno == ERANGE, "phasor /");
	errno = 0; z = F(2, 1); z /= F(0, 1); sym_check(sym_isnan(z.modulus) && errno == ERANGE, "phasor /=");
	errno = 0; z = 2.0 / F(0, 1); sym_check(sym_isnan(z.modulus) && errno == ERANGE, "k / phasor");
	errno = 0; z = F(0, 1).inverse(); sym_check(sym_isnan(z.modulus) && errno == ERANGE, "phasor inverse");
	errno = 0; z = F(0, 1); z.invert(); sym_check(sym_isnan(z.modulus) && errno == ERANGE, "phasor invert");
}
template<typename V> static void qrot() {
	V v(3), ax(3);
	v[0] = sym_real("v0"); v[1] = sym_real("v1"); v[2] = sym_real("v2");
	ax[0] = sym_real("x"); ax[1] = sym_real("y"); ax[2] = sym_real("z");
	real w = sym_real("w");
	real n2 = ax[0] * ax[0] + ax[1] * ax[1] + ax[2] * ax[2];
	sym_assume(n2 >= 1e-6);
	real n = sym_sqrt(n2);
	real x = ax[0] / n, y = ax[1] / n, z = ax[2] / n;
	real ch = sym_cos(w / 2), sh = sym_sin(w / 2), c = ch * ch - sh * sh, s = 2 * ch * sh;
	// Rodrigues: v cos + (k x v) sin + k (k.v)(1 - cos)
	real d = x * v[0] + y * v[1] + z * v[2];
	real e0 = v[0] * c + (y * v[2] - z * v[1]) * s + x * d * (1 - c);
	real e1 = v[1] * c + (z * v[0] - x * v[2]) * s + y * d * (1 - c);
	real e2 = v[2] * c + (x * v[1] - y * v[0]) * s + z * d * (1 - c);
	V r = Q::rotate(v, w, ax);
	sym_check(r.size() == 3, "size");
	sym_eq(r[0], e0, "rotate x"); sym_eq(r[1], e1, "rotate y"); sym_eq(r[2], e2, "rotate z");
	Q q = Q::rotation(w, ax);
	qeq(q, ch, x * sh, y * sh, z * sh, "rotation quaternion");
	V t = q.transform(v);
	sym_eq(t[0], e0, "transform x"); sym_eq(t[1], e1, "transform y"); sym_eq(t[2], e2, "transform z");
}
HARNESS(quat_rotate3, "t=60", "rotate / rotation+transform agree with Rodrigues' formula, every vector, angle and axis (fixed-size vectors)") { qrot<vec<real, 3>>(); }
HARNESS(quat_rotate_dyn, "t=60", "the same for dynamic vectors") { qrot<vec<real>>(); }
HARNESS(quat_transform, "t=60", "transform by any nonzero quaternion is q v q^-1 and keeps the length") {
	Q q = qin("q");
	sym_assume(q.sqr_norm() >= 1e-9);
	vec<real, 3> v; for (int i = 0; i < 3; ++i) v[i] = sym_real(nm("v", i));
	vec<real, 3> r = q.transform(v);
	sym_eq(r[0] * r[0] + r[1] * r[1] + r[2] * r[2], v[0] * v[0] + v[1] * v[1] + v[2] * v[2], "length");
	Q t = ham(Q(0, r[0], r[1], r[2]), q), u = ham(q, Q(0, v[0], v[1], v[2]));
	qeq(t, u, "r q = q v");
}
HARNESS(quat_sizes, "t=30", "vectors and axes of the wrong size are rejected with EINVAL and NaN") {
	int n = (int) sym_choose("n", 1, 5);
	vec<real> v(n), a3(3);
	for (int i = 0; i < n; ++i) v[i] = sym_real(nm("v", i));
	for (int i = 0; i < 3; ++i) a3[i] = 1;
	Q q = qin("q");
	sym_assume(q.sqr_norm() > 1);
	errno = 0; vec<real> r = q.transform(v);
	sym_check((errno == EINVAL) == (n != 3), "transform errno"); if (n != 3) sym_check(sym_isnan(r[0]) && sym_isnan(r[2]), "transform nan");
	errno = 0; r = Q::rotate(v, 1.0, a3);
	sym_check((errno == EINVAL) == (n != 3), "rotate errno"); if (n != 3) sym_check(sym_isnan(r[0]), "rotate nan");
	if (n != 3) { errno = 0; r = Q::rotate(a3, 1.0, v); sym_check(errno == EINVAL && sym_isnan(r[0]), "axis"); }
}
static F fin(const char* n) { F f(sym_real(nm(n, 0)), sym_real(nm(n, 1))); sym_assume(f.modulus >= 0); return f; }
static void feq(const F& f, real m, real p, const char* id) { sym_eq(f.modulus, m, id); sym_eq(f.phase, p, id); }
HARNESS(phasor_mul, "t=60", "phasor * / inverse conjugate, compound, with phasors, complex and real operands: moduli multiply, phases add") {
	F f = fin("f"), g = fin("g");
	feq(f * g, f.modulus * g.modulus, f.phase + g.phase, "*");
	F t = f; t *= g; feq(t, f.modulus * g.modulus, f.phase + g.phase, "*="); { F v; v = std::array<real, 2>{f.modulus, g.phase}; feq(v, f.modulus, g.phase, "= array"); F u(g); u = v; feq(u, f.modulus, g.phase, "= phasor"); }
	t = f; t *= t; feq(t, f.modulus * f.modulus, 2 * f.phase, "*= self");
	feq(f.conjugate(), f.modulus, -f.phase, "conjugate");
	sym_eq(f.norm(), f.modulus, "norm"); sym_eq(f.sqr_norm(), f.modulus * f.modulus, "sqr_norm"); sym_eq(f.arg(), f.phase, "arg");
	real k = sym_real("k");
	feq(k * f, f.modulus * (k < 0 ? -k : k), f.phase + (k < 0 ? PI : 0.0), "k*f");
	errno = 0;
	if (g.modulus < MACH_EPSILON) {
		t = f / g; sym_check(sym_isnan(t.modulus) && sym_isnan(t.phase) && errno == ERANGE, "/ 0");
		errno = 0; t = f; t /= g; sym_check(sym_isnan(t.modulus) && sym_isnan(t.phase) && errno == ERANGE, "/= 0");
		errno = 0; t = g.inverse(); sym_check(sym_isnan(t.modulus) && errno == ERANGE, "inverse 0");
		errno = 0; t = g; t.invert(); sym_check(sym_isnan(t.modulus) && errno == ERANGE, "invert 0");
	} else {
		feq(f / g, f.modulus / g.modulus, f.phase - g.phase, "/");
		t = f; t /= g; feq(t, f.modulus / g.modulus, f.phase - g.phase, "/=");
		feq(g.inverse(), 1 / g.modulus, -g.phase, "inverse");
		t = g; t.invert(); feq(t, 1 / g.modulus, -g.phase, "invert");
		feq(k / g, (k < 0 ? -k : k) / g.modulus, (k < 0 ? PI : 0.0) - g.phase, "k/f");
		sym_check(errno == 0, "no error");
	}
}
HARNESS(phasor_complex, "t=60", "conversions: Re/Im/to_complex = r (cos, sin); construction from complex and real; product with complex") {
	F f = fin("f");
	real c = sym_cos(f.phase), s = sym_sin(f.phase);
	sym_eq(f.Re(), f.modulus * c, "Re"); sym_eq(f.Im(), f.modulus * s, "Im"); sym_eq(Re(f), f.modulus * c, "Re"); sym_eq(Im(f), f.modulus * s, "Im");
	complex<real> z = f.to_complex(); sym_eq(z.a, f.modulus * c, "to_complex"); sym_eq(z.b, f.modulus * s, "to_complex");
	z = (complex<real>) f; sym_eq(z.a, f.modulus * c, "cast"); sym_eq(z.b, f.modulus * s, "cast");
	complex<real> w(sym_real("a"), sym_real("b"));
	F g(w); feq(g, w.norm(), w.arg(), "from complex");
	feq(f * w, f.modulus * w.norm(), f.phase + w.arg(), "f*z"); feq(w * f, f.modulus * w.norm(), f.phase + w.arg(), "z*f");
	feq(F::rotor(w.a), 1, w.a, "rotor"); feq(F::i(), 1, PI / 2, "i"); feq(F(), 0, 0, "default");
	feq(F(w.a), w.a < 0 ? -w.a : w.a, w.a < 0 ? PI : 0.0, "from real");
	sym_check((f == g) == (f.modulus == g.modulus && f.phase == g.phase), "=="); sym_check((f != g) == !(f == g), "!=");
}
// expected sum x + s y, checked through modulus^2 and the argument of the algebraic sum
static void sum_spec(const F& r, const F& f, const F& g, int sg, const char* id) {
	if (f.phase == g.phase) {
		real m = f.modulus + sg * g.modulus;
		if (m >= 0) { feq(r, m, f.phase, id); return; }
	}
	real d = f.phase - g.phase;
	sym_assume(d == 0 || d >= 1e-6 || d <= -1e-6);
	complex<real> e(f.modulus * sym_cos(f.phase) + sg * (g.modulus * sym_cos(g.phase)), f.modulus * sym_sin(f.phase) + sg * (g.modulus * sym_sin(g.phase)));
	feq(r, e.norm(), e.arg(), id);
	sym_check(r.modulus >= 0, "modulus sign");
}
static void pair(F& f, F& g) { // equal phases, or one of the two with phase 0 (the common rotation normalised away)
	int k = (int) sym_choose("aligned", 0, 2);
	f = fin("f"); g = fin("g");
	if (k == 0) g.phase = f.phase;
	if (k == 1) g.phase = 0;
	if (k == 2) f.phase = 0;
}
HARNESS(phasor_add, "t=60", "phasor + is the sum of the complex numbers: modulus and argument of the algebraic sum (equal phases: moduli add); any phases equal or one of them 0") { F f, g; pair(f, g); sum_spec(f + g, f, g, 1, "sum"); }
HARNESS(phasor_add_assign, "t=60", "the same in place") { F f, g; pair(f, g); F t = f; t += g; sum_spec(t, f, g, 1, "sum"); }
HARNESS(phasor_sub, "t=60", "phasor - is the difference of the complex numbers, modulus never negative; any phases equal or one of them 0") { F f, g; pair(f, g); sum_spec(f - g, f, g, -1, "sum"); }
HARNESS(phasor_sub_assign, "t=60", "the same in place") { F f, g; pair(f, g); F t = f; t -= g; sum_spec(t, f, g, -1, "sum"); }
HARNESS(phasor_real_sum, "t=60", "real + phasor and real - phasor") {
	F f = fin("f");
	real k = sym_real("k");
	F kf(k < 0 ? -k : k, k < 0 ? PI : 0.0);
	sum_spec(k + f, f, kf, 1, "k+f");
}
HARNESS(phasor_real_diff, "t=60", "real - phasor, k > 0: |k - f|^2 = k^2 + r^2 + 2 k r cos(phase + pi)") {
	F f = fin("f");
	real k = sym_real("k");
	sym_assume(k > 1e-9 && f.modulus > 1e-9 && (f.phase + PI > 1e-6 || f.phase + PI < -1e-6));
	F r = k - f;
	sym_eq(r.modulus * r.modulus, k * k + f.modulus * f.modulus + 2 * k * f.modulus * sym_cos(f.phase + PI), "k-f");
}
static real mag_(real x) { return x < 0 ? -x : x; }
HARNESS(phasor_close, "mode=fp t=60", "sums and differences of phasors whose phases differ by 1e-10 to 0.1 are the phasor of the complex sum: to a relative 1e-6 in the phase close to zero, absolute 1e-7 elsewhere") {
	static const real D[] = {1e-10, 5e-10, 1e-8, 8e-7, 1e-5, 1e-3, 0.1}, P0[] = {0, 1, -2}; real d = D[sym_choose("d", 0, 6)], p = P0[sym_choose("p", 0, 2)]; if (sym_choose("g", 0, 1)) d = -d; F a(2, p), b(1, p + d); F s = a + b, t = a - b, u = a, v = a; u += b; v -= b; real x = p == 0 ? 2 + th::cos(d) : 3, ws = th::atan(th::sin(d) / (2 + th::cos(d))), wt = th::atan(-th::sin(d) / (2 - th::cos(d))); real tol = p == 0 ? 1e-6 * mag_(d) : 1e-7;
	sym_check(mag_(s.phase - p - ws) < tol && mag_(u.phase - p - ws) < tol, "sum"); sym_check(mag_(t.phase - p - wt) < tol && mag_(v.phase - p - wt) < tol, "difference"); real ms = th::sqrt(5 + 4 * th::cos(d)), mt = th::sqrt(5 - 4 * th::cos(d)); sym_check(mag_(s.modulus - ms) < 1e-9 && mag_(u.modulus - ms) < 1e-9 && mag_(t.modulus - mt) < 1e-9 && mag_(v.modulus - mt) < 1e-9, "modulus"); (void) x;
}
HARNESS(rotation_small, "mode=fp t=60", "rotations by 1e-9 to 1e-3 about axes of length 1e-4 to 1e4 move the vector by the angle times the cross product, in both forms; large angles keep the length") {
	static const real R[] = {1e-9, 1e-7, 1e-5, 1e-3}, L[] = {1e-4, 1, 1e4}; real r = R[sym_choose("r", 0, 3)], l = L[sym_choose("l", 0, 2)]; if (sym_choose("g", 0, 1)) r = -r; vec<real, 3> k = {0.6 * l, 0, -0.8 * l}, v = {1, 2, -2}; vec<real, 3> a = Q::rotate(v, r, k), b = Q::rotation(r, k).transform(v); real c[3] = {1.6, -0.8 + 1.2, 1.2}; c[0] = 0 * -2 - (-0.8) * 2; c[1] = (-0.8) * 1 - 0.6 * (-2); c[2] = 0.6 * 2 - 0 * 1;
	for (int i = 0; i < 3; ++i) { real e = 2 * r * r + 2e-15; sym_check(mag_(a[i] - v[i] - r * c[i]) < 2 * e, "rotate"); sym_check(mag_(b[i] - v[i] - r * c[i]) < 2 * e, "transform"); }
	vec<real, 3> h = Q::rotate(v, 1000 * r + 500, k); sym_check(mag_(h[0] * h[0] + h[1] * h[1] + h[2] * h[2] - 9) < 1e-9, "length");
}
HARNESS(aliased, "t=60", "quaternions and phasors combined in place with themselves or with one of their own components") {
	Q p = qin("p"), t; real n = p.a * p.a + p.b * p.b + p.c * p.c + p.d * p.d, k = p.a; sym_assume(n > 1e-3); sym_assume(k > 1e-3 || k < -1e-3); t = p; t -= t; qeq(t, 0, 0, 0, 0, "-= self"); t = p; t /= t; qeq(t, 1, 0, 0, 0, "/= self"); t = p; t *= t.a; qeq(t, p.a * k, p.b * k, p.c * k, p.d * k, "*= part"); t = p; t /= t.a; qeq(t, 1, p.b / k, p.c / k, p.d / k, "/= part"); t = p; t = t; qeq(t, p, "= self"); t = p; t = t * t; qeq(t, ham(p, p), "* self");
	F f = F(sym_real_in("r", 0.125, 8), sym_real_in("w", -3, 3)), g; g = f; g *= g; sym_eq(g.modulus, f.modulus * f.modulus, "*= self"); sym_eq(g.phase, 2 * f.phase, "*= self"); g = f; g /= g; sym_eq(g.modulus, 1, "/= self"); sym_eq(g.phase, 0, "/= self"); g = f; g += g; sym_eq(g.modulus, 2 * f.modulus, "+= self"); sym_eq(g.phase, f.phase, "+= self"); g = f; g -= g; sym_eq(g.modulus, 0, "-= self");
}
HARNESS(phasor_real_moduli, "mode=fp t=60", "a real plus or minus a phasor of phase 0, pi or in between, either side bigger: the modulus is the (non-negative) distance, and the phasor converts to the right complex number") {
	static const real K[] = {-3, -1, 1, 3, 0.25}, M[] = {0.5, 1.5, 2, 7}, P[] = {0, PI, 1, -2, PI / 2, -0.001};
	real k = K[sym_choose("k", 0, 4)], m = M[sym_choose("m", 0, 3)], p = P[sym_choose("p", 0, 5)];
	F f(m, p); complex<real> z = f.to_complex();
	for (int s = 0; s < 4; ++s) {
		F r = s == 0 ? k - f : s == 1 ? k + f : s == 2 ? k * f : k / f;
		complex<real> w = s == 0 ? k - z : s == 1 ? k + z : s == 2 ? k * z : k / z, v = r.to_complex();
		sym_check(r.modulus >= 0 && r.norm() >= 0, "modulus");
		sym_check(mag_(v.a - w.a) + mag_(v.b - w.b) < 1e-6 && mag_(r.norm() - w.norm()) < 1e-9, "value");
	}
}

// C15 geometric transformations
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef mat<real> M;
typedef vec<real> V;
typedef mat<real, 2, 2> M2; typedef mat<real, 3, 3> M3; typedef mat<real, 4, 4> M4; typedef vec<real, 3> V3; typedef vec<real, 4> V4;
template<typename W> static W vin(const char* p, int n) { W v; v.resize(n); for (int i = 0; i < n; ++i) v[i] = sym_real(nm(p, i)); return v; }
template<typename A> static bool iserr(const A& m) { bool r = true; for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) if (i == j) r = r && sym_isnan(m(i, j)); return r; }
// the elements outside the leading k x k block are those of the identity
template<typename A> static void rest(const A& m, unsigned k) { for (unsigned i = 0; i < m.rows(); ++i) for (unsigned j = 0; j < m.cols(); ++j) if (i >= k || j >= k) sym_eq(m(i, j), i == j ? 1 : 0, "identity outside the block"); }

HARNESS(identity, "t=60", "identity, every shape up to 4x4, fixed and dynamic") {
	int r = (int) sym_choose("r", 1, 4), c = (int) sym_choose("c", 1, 4); M m = algebra::identity<M>(r, c); sym_check(m.rows() == (unsigned) r && m.cols() == (unsigned) c, "shape"); rest(m, 0);
	if (r == 1 && c == 1) { rest(algebra::identity<M3>(), 0); mat<real, 2, 3> f = algebra::identity<mat<real, 2, 3>>(); rest(f, 0); M e = algebra::identity<M>(); sym_check(e.rows() == 0 && e.cols() == 0, "empty"); }
}
HARNESS(diagonal, "t=60", "diagonal matrices from every vector up to size 4; wrong shapes rejected") {
	int n = (int) sym_choose("n", 1, 4), r = (int) sym_choose("r", 1, 4), c = (int) sym_choose("c", 1, 4); V v = vin<V>("v", n);
	errno = 0; M m = algebra::diagonal<M>(v, r, c); sym_check(m.rows() == (unsigned) r && m.cols() == (unsigned) c, "shape");
	if (r == n && c == n) { sym_check(errno == 0, "no error"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym_eq(m(i, j), i == j ? v[i] : 0, "element"); } else sym_check(errno == EINVAL && iserr(m), "rejected");
	M d(r, c); errno = 0; algebra::diagonal(d, v); if (r == n && c == n) { for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym_eq(d(i, j), i == j ? v[i] : 0, "in place"); } else sym_check(errno == EINVAL && iserr(d), "in place rejected");
	if (n == 3 && r == 1 && c == 1) { M3 f = algebra::diagonal<M3>(v); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym_eq(f(i, j), i == j ? v[i] : 0, "fixed"); }
}
template<typename A, typename W> static void translate(int n, int arg) {
	W v = vin<W>("v", n), p; p.resize(n + 1); for (int i = 0; i < n; ++i) p[i] = sym_real(nm("p", i)); p[n] = 1;
	errno = 0; A m = arg ? algebra::translation<A>(v, n + 1, n + 1) : algebra::translation<A>(v); sym_check(errno == 0 && m.rows() == (unsigned) n + 1 && m.cols() == (unsigned) n + 1, "shape");
	W q = m * p; for (int i = 0; i < n; ++i) sym_eq(q[i], p[i] + v[i], "moved by v"); sym_eq(q[n], 1, "homogeneous");
}
HARNESS(translation_d, "t=60", "translations move every point by the vector, dimensions 1..4") { translate<M, V>((int) sym_choose("n", 1, 4), 1); }
HARNESS(translation_f, "t=60", "fixed 4x4 translation") {
	V3 v = vin<V3>("v", 3); V4 p; for (int i = 0; i < 3; ++i) p[i] = sym_real(nm("p", i)); p[3] = 1; M4 m = algebra::translation<M4>(v); V4 q = m * p; for (int i = 0; i < 3; ++i) sym_eq(q[i], p[i] + v[i], "moved by v"); sym_eq(q[3], 1, "homogeneous");
}
HARNESS(translation_reject, "t=60", "translation vectors of the wrong size are rejected") {
	int n = (int) sym_choose("n", 1, 4), r = (int) sym_choose("r", 1, 4); V v = vin<V>("v", n); errno = 0; M m = algebra::translation<M>(v, r, r); if (n != r - 1) sym_check(errno == EINVAL && iserr(m), "rejected"); else sym_check(errno == 0, "accepted");
}
HARNESS(translation_rect, "t=60", "rectangular translation matrices, shapes 2..4: rejected, or the vector in the last column and the identity elsewhere; nothing outside; fixed and dynamic") {
	int r = (int) sym_choose("r", 2, 4), c = (int) sym_choose("c", 2, 4); V v = vin<V>("v", r - 1); errno = 0; M m = algebra::translation<M>(v, r, c); bool bad = r != c && errno == EINVAL && iserr(m); sym_check(bad || (errno == 0 && m.rows() == (unsigned) r && m.cols() == (unsigned) c), "shape");
	if (!bad) for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(m(i, j), i < r - 1 && j == c - 1 ? v[i] : (i == j ? 1 : 0), "element");
	if (r == 3 && c == 4 && !bad) { mat<real, 3, 4> f = algebra::translation<mat<real, 3, 4>>(v); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) sym_eq(f(i, j), m(i, j), "fixed"); }
}
template<typename A> static void rot2(const A& m, real t) {
	real c = sym_cos(t), s = sym_sin(t); sym_eq(m(0, 0), c, "cos"); sym_eq(m(1, 1), c, "cos"); sym_eq(m(0, 1), -s, "-sin"); sym_eq(m(1, 0), s, "sin"); rest(m, 2);
	sym_eq(m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0), 1, "determinant 1");
}
HARNESS(rotation_2d, "t=60", "plane rotations, every angle, every shape up to 4x4, fixed and dynamic; smaller shapes rejected") {
	real t = sym_real("theta"); int r = (int) sym_choose("r", 1, 4), c = (int) sym_choose("c", 1, 4); errno = 0; M m = algebra::rotation_2d<M>(t, r, c);
	if (r < 2 || c < 2) sym_check(errno == EINVAL && iserr(m), "rejected"); else { sym_check(errno == 0, "no error"); rot2(m, t); }
	if (r == 1 && c == 1) { rot2(algebra::rotation_2d<M2>(t), t); rot2(algebra::rotation_2d<M3>(t), t); }
}
// Rodrigues: R v = v c + (k x v) s + k (k.v) (1 - c), k = axis / |axis|
template<typename A> static void rodrigues(const A& m, real t, real x, real y, real z) {
	real c = sym_cos(t), s = sym_sin(t), n = sym_sqrt(x * x + y * y + z * z), k[3] = {x / n, y / n, z / n};
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
		real cr = i == j ? 0 : (((j + 1) % 3 == i) ? 1 : -1) * k[3 - i - j]; // (k x e_j)_i
		sym_eq(m(i, j), (i == j ? c : 0) + cr * s + k[i] * k[j] * (1 - c), "Rodrigues");
	}
	rest(m, 3);
}
HARNESS(rotation_3d, "t=60", "rotation about every axis of any length by every angle equals Rodrigues' formula, 3x3 and larger, fixed and dynamic") {
	real t = sym_real("theta"); V a = vin<V>("k", 3); sym_assume(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] >= 1e-24); int r = (int) sym_choose("r", 3, 4), c = (int) sym_choose("c", 3, 4); errno = 0; M m = algebra::rotation_3d<M>(t, a, r, c); sym_check(errno == 0, "no error"); rodrigues(m, t, a[0], a[1], a[2]);
	if (r == 3 && c == 3) { V3 b; b = a; rodrigues(algebra::rotation_3d<M3>(t, b), t, a[0], a[1], a[2]); rodrigues(algebra::rotation_3d<M4>(t, b), t, a[0], a[1], a[2]); }
}
HARNESS(rotation_axes, "t=60", "rotations about the x, y, z axes for every angle, 3x3 and larger, fixed and dynamic, without touching memory outside") {
	real t = sym_real("theta"); int r = (int) sym_choose("r", 3, 4), c = (int) sym_choose("c", 3, 4); errno = 0;
	rodrigues(algebra::rotation_3d_xaxis<M>(t, r, c), t, 1, 0, 0); rodrigues(algebra::rotation_3d_yaxis<M>(t, r, c), t, 0, 1, 0); rodrigues(algebra::rotation_3d_zaxis<M>(t, r, c), t, 0, 0, 1);
	if (r == 3 && c == 3) { rodrigues(algebra::rotation_3d_xaxis<M3>(t), t, 1, 0, 0); rodrigues(algebra::rotation_3d_yaxis<M3>(t), t, 0, 1, 0); rodrigues(algebra::rotation_3d_zaxis<M3>(t), t, 0, 0, 1); rodrigues(algebra::rotation_3d_xaxis<M4>(t), t, 1, 0, 0); rodrigues(algebra::rotation_3d_yaxis<M4>(t), t, 0, 1, 0); rodrigues(algebra::rotation_3d_zaxis<M4>(t), t, 0, 0, 1); }
	sym_check(errno == 0, "no error");
}
HARNESS(rotation_length, "t=60", "a rotation about any axis keeps the length of every vector and fixes the axis") {
	real t = sym_real("theta"); V a = vin<V>("k", 3), v = vin<V>("v", 3); sym_assume(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] >= 1e-24); M m = algebra::rotation_3d<M>(t, a, 3, 3); V w = m * v, b = m * a;
	for (int i = 0; i < 3; ++i) sym_eq(b[i], a[i], "axis fixed"); sym_eq(w[0] * w[0] + w[1] * w[1] + w[2] * w[2], v[0] * v[0] + v[1] * v[1] + v[2] * v[2], "length");
}
HARNESS(rotation_reject, "t=60", "shapes below 3x3, short axes and the null axis are rejected") {
	real t = sym_real("theta"); int r = (int) sym_choose("r", 1, 3), c = (int) sym_choose("c", 1, 3), n = (int) sym_choose("n", 1, 4); V a(n, 1.0); bool ok = r == 3 && c == 3;
	errno = 0; M m = algebra::rotation_3d<M>(t, a, r, c); sym_check((ok && n >= 3) ? (errno == 0) : (errno == EINVAL && iserr(m)), "axis");
	errno = 0; m = algebra::rotation_3d_xaxis<M>(t, r, c); sym_check(ok ? (errno == 0) : (errno == EINVAL && iserr(m)), "x"); errno = 0; m = algebra::rotation_3d_yaxis<M>(t, r, c); sym_check(ok ? (errno == 0) : (errno == EINVAL && iserr(m)), "y"); errno = 0; m = algebra::rotation_3d_zaxis<M>(t, r, c); sym_check(ok ? (errno == 0) : (errno == EINVAL && iserr(m)), "z");
	if (ok && n == 3) { V z(3); errno = 0; m = algebra::rotation_3d<M>(t, z, 3, 3); sym_check(errno != 0 && iserr(m), "null axis"); }
}
// the clip coordinates of the corners of the view volume are +-1
template<typename A> static void frustum(const A& m, real l, real r, real b, real t, real n, real f, bool persp) {
	for (int k = 0; k < 8; ++k) {
		bool far = k & 4; real d = persp && far ? f / n : 1, x = (k & 1 ? r : l) * d, y = (k & 2 ? t : b) * d, z = -(far ? f : n), q[4];
		for (int i = 0; i < 4; ++i) q[i] = m(i, 0) * x + m(i, 1) * y + m(i, 2) * z + m(i, 3);
		sym_eq(q[3], persp ? -z : 1, "homogeneous coordinate"); sym_eq(q[0], (k & 1 ? 1 : -1) * q[3], "left and right"); sym_eq(q[1], (k & 2 ? 1 : -1) * q[3], "bottom and top"); sym_eq(q[2], (far ? 1 : -1) * q[3], "near and far");
	}
}
HARNESS(projections, "t=60", "perspective and orthographic projections map the corners of every view volume to the corners of the unit cube") {
	real l = sym_real("l"), r = sym_real("r"), b = sym_real("b"), t = sym_real("t"), n = sym_real("n"), f = sym_real("f"); sym_assume(l != r && b != t && n != f && n != 0);
	errno = 0; frustum(algebra::perspective<M4>(l, r, b, t, n, f), l, r, b, t, n, f, true); frustum(algebra::perspective<M>(l, r, b, t, n, f, 4, 4), l, r, b, t, n, f, true);
	frustum(algebra::ortho<M4>(l, r, b, t, n, f), l, r, b, t, n, f, false); frustum(algebra::ortho<M>(l, r, b, t, n, f, 4, 4), l, r, b, t, n, f, false); sym_check(errno == 0, "no error");
}
HARNESS(perspective_fov, "t=60", "the field-of-view form is the perspective with half-height n tan(fov/2) and the aspect ratio, for every aspect and planes, at the chosen angles") {
	static const int A[13] = {1, 2, 10, 30, 45, 60, 90, 120, 135, 150, 170, 178, 179}; int k = (int) sym_choose("k", 0, 12); real fov = A[k], as = sym_real("aspect"), n = sym_real_in("n", 0.1, 100), f = sym_real("f"); sym_assume(as != 0 && n != f);
	errno = 0; M4 a = algebra::perspective_fov<M4>(fov, as, n, f); M b = algebra::perspective_fov<M>(fov, as, n, f, 4, 4); sym_check(errno == 0 && b.rows() == 4 && b.cols() == 4, "no error");
	static const double C[13] = {114.58865012930960816, 57.289961630759424687, 11.430052302761343067, 3.7320508075688772935, 2.4142135623730950488, 1.7320508075688772935, 1.0, 0.57735026918962576451, 0.4142135623730950488, 0.26794919243112270647, 0.087488663525924005222, 0.017455064928217585765, 0.0087268677907587893345}; // cot(fov/2)
	for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) sym_eq(a(i, j), b(i, j), "fixed and dynamic agree");
	sym_near(a(1, 1), C[k], 1e-9 * C[k], "height"); sym_eq(a(0, 0) * as, a(1, 1), "aspect"); sym_eq(a(2, 2) * (f - n), -(f + n), "depth"); sym_eq(a(2, 3) * (f - n), -2 * f * n, "depth"); sym_eq(a(3, 2), -1, "homogeneous"); sym_eq(a(0, 2), 0, "centred"); sym_eq(a(1, 2), 0, "centred");
}
HARNESS(projection_reject, "t=60", "shapes below 4x4 are rejected") {
	int r = (int) sym_choose("r", 1, 4), c = (int) sym_choose("c", 1, 4); bool ok = r == 4 && c == 4; M m;
	errno = 0; m = algebra::perspective<M>(-1, 1, -1, 1, 1, 2, r, c); sym_check(ok ? errno == 0 : (errno == EINVAL && iserr(m)), "perspective"); errno = 0; m = algebra::ortho<M>(-1, 1, -1, 1, 1, 2, r, c); sym_check(ok ? errno == 0 : (errno == EINVAL && iserr(m)), "ortho"); errno = 0; m = algebra::perspective_fov<M>(90, 1, 1, 2, r, c); sym_check(ok ? errno == 0 : (errno == EINVAL && iserr(m)), "fov");
}
HARNESS(look_at, "t=60", "camera matrices: the camera goes to the origin, the target to the negative z axis at its distance, up to the upper half of the yz plane; every camera, target along every direction of a plane, every up") {
	int k = (int) sym_choose("k", 0, 2); V c = vin<V>("c", 3), d(3), u(3); d[k] = sym_real_in("d", 0.5, 8) * (sym_choose("s", 0, 1) ? 1 : -1); int e = (k + 1 + (int) sym_choose("o", 0, 1)) % 3; u[e] = sym_real_in("u", 0.5, 8) * (sym_choose("v", 0, 1) ? 1 : -1); u[k] = sym_real_in("w", -8, 8);
	V t = c + d; errno = 0; M4 m = algebra::look_at<M4>(c, t, u); sym_check(errno == 0, "no error");
	V g(3); for (int i = 0; i < 3; ++i) { g[i] = m(i, 3); for (int j = 0; j < 3; ++j) g[i] += m(i, j) * c[j]; } for (int i = 0; i < 3; ++i) sym_eq(g[i], 0, "camera at the origin");
	V h(3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) h[i] += m(i, j) * d[j]; sym_eq(h[0], 0, "target x"); sym_eq(h[1], 0, "target y"); sym_eq(h[2] * h[2], d[k] * d[k], "target distance"); sym_check(h[2] < 0, "target in front");
	V w(3); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) w[i] += m(i, j) * u[j]; sym_eq(w[0], 0, "up has no sideways part"); sym_check(w[1] > 0, "up is up");
	for (int i = 0; i < 3; ++i) { sym_eq(m(3, i), 0, "last row"); for (int j = 0; j <= i; ++j) { real s = 0; for (int q = 0; q < 3; ++q) s += m(i, q) * m(j, q); sym_eq(s, i == j ? 1 : 0, "orthonormal axes"); } } sym_eq(m(3, 3), 1, "last element");
	sym_eq(m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)), 1, "right-handed");
}
HARNESS(look_at_oblique, "mode=fp t=90", "camera matrices towards 26 directions with eight ups, distances 1e-3, 1 and 1e4: camera to the origin, target in front at its distance, up upwards, orthonormal right-handed axes, to 1e-9") {
	static const real U[8][3] = {{0, 1, 0}, {0, -1, 0}, {0, 0, 1}, {1, 0, 0}, {-3, 1, 2}, {1, -2, -5}, {0.5, 4, -1}, {-1, -1, 3}}, L[3] = {1e-3, 1, 1e4}; int k = (int) sym_choose("d", 0, 26); if (k == 13) return; int q = (int) sym_choose("u", 0, 7); V d(3), u(3), c(3), x(3); d[0] = (k % 3 - 1) * 2; d[1] = k / 3 % 3 - 1; d[2] = (k / 9 - 1) * 3; for (int i = 0; i < 3; ++i) { u[i] = U[q][i]; d[i] *= L[(k + q) % 3]; c[i] = 2 * i - 1.5; }
	for (int i = 0; i < 3; ++i) x[i] = d[(i + 1) % 3] * u[(i + 2) % 3] - d[(i + 2) % 3] * u[(i + 1) % 3]; if (x[0] == 0 && x[1] == 0 && x[2] == 0) return; V t = c + d; for (int i = 0; i < 3; ++i) d[i] = t[i] - c[i]; real l2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2];
	errno = 0; M4 m = algebra::look_at<M4>(c, t, u); sym_check(errno == 0, "no error"); real h[3], w[3]; for (int i = 0; i < 3; ++i) { real g = m(i, 3); h[i] = w[i] = 0; for (int j = 0; j < 3; ++j) { g += m(i, j) * c[j]; h[i] += m(i, j) * d[j]; w[i] += m(i, j) * u[j]; } sym_near(g, 0, 1e-9, "camera at the origin"); }
	sym_near(h[0] * h[0], 0, 1e-18 * l2, "target x"); sym_near(h[1] * h[1], 0, 1e-18 * l2, "target y"); sym_near(h[2] * h[2], l2, 1e-9 * l2, "target distance"); sym_check(h[2] < 0, "target in front"); sym_near(w[0], 0, 1e-9, "up has no sideways part"); sym_check(w[1] > 0, "up is up");
	for (int i = 0; i < 3; ++i) { sym_eq(m(3, i), 0, "last row"); for (int j = 0; j <= i; ++j) { real s = 0; for (int r = 0; r < 3; ++r) s += m(i, r) * m(j, r); sym_near(s, i == j, 1e-9, "orthonormal axes"); } } sym_eq(m(3, 3), 1, "last element");
	sym_near(m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) + m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0)), 1, 1e-9, "right-handed");
}
HARNESS(symplectic, "t=60", "symplectic form of every even size up to 6: J^T = -J, J^2 = -1, block shape; odd and rectangular rejected, fixed and dynamic") {
	int r = (int) sym_choose("r", 1, 6), c = (int) sym_choose("c", 1, 6); errno = 0; M m = algebra::symplectic<M>(r, c);
	if (r != c || r % 2) sym_check(errno == EINVAL && iserr(m), "rejected"); else { sym_check(errno == 0, "no error"); for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) sym_eq(m(i, j), j == i + r / 2 ? 1 : (i == j + r / 2 ? -1 : 0), "element"); }
	if (r == 1 && c == 1) { errno = 0; M4 f = algebra::symplectic<M4>(); sym_check(errno == 0, "fixed"); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) sym_eq(f(i, j), j == i + 2 ? 1 : (i == j + 2 ? -1 : 0), "fixed element"); errno = 0; M3 o = algebra::symplectic<M3>(); sym_check(errno == EINVAL && iserr(o), "odd fixed"); }
}
HARNESS(hilbert, "t=60", "Hilbert matrices 1..5, fixed and dynamic") {
	int n = (int) sym_choose("n", 1, 5); M h = algebra::hilbert<M>(n); sym_check(h.rows() == (unsigned) n && h.cols() == (unsigned) n, "shape"); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) sym_near(h(i, j), 1.0 / (i + j + 1), 1e-15, "element");
	M3 f = algebra::hilbert<M3>(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) sym_near(f(i, j), 1.0 / (i + j + 1), 1e-15, "fixed");
}
HARNESS(sphere_inversion, "t=60", "inversion in every sphere: on the same ray from the centre, with product of distances r^2, and an involution; sizes 2, 3") {
	int n = (int) sym_choose("n", 2, 3); V p = vin<V>("p", n), c = vin<V>("c", n); real r = sym_real("r"), d = 0; for (int i = 0; i < n; ++i) d += (p[i] - c[i]) * (p[i] - c[i]); sym_assume(d >= 1e-6);
	V q = algebra::sphere_inversion(p, c, r); for (int i = 0; i < n; ++i) sym_eq((q[i] - c[i]) * d, (p[i] - c[i]) * r * r, "inverse point");
	V3 a = vin<V3>("a", 3), o; real e = 0; for (int i = 0; i < 3; ++i) e += a[i] * a[i]; sym_assume(e >= 1e-6); V3 b = algebra::sphere_inversion(a, o); for (int i = 0; i < 3; ++i) sym_eq(b[i] * e, a[i], "unit sphere");
}
HARNESS(large_shapes, "t=60", "identity, diagonal, symplectic, Hilbert, translation and rotation matrices of sizes 7, 8, 10 and 13") {
	static const int B[] = {7, 8, 10, 13}; int n = B[sym_choose("n", 0, 3)]; V v = vin<V>("v", n), p(n + 1); real t = sym_real("theta"); for (int i = 0; i < n; ++i) p[i] = sym_real(nm("p", i)); p[n] = 1;
	rest(algebra::identity<M>(n, n + 1), 0); rest(algebra::identity<M>(n + 1, n), 0); M d = algebra::diagonal<M>(v, n, n), h = algebra::hilbert<M>(n); errno = 0; M s = algebra::symplectic<M>(n, n); if (n % 2) sym_check(errno == EINVAL && iserr(s), "odd"); else sym_check(errno == 0, "no error");
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { sym_eq(d(i, j), i == j ? v[i] : 0, "diagonal"); sym_near(h(i, j), 1.0 / (i + j + 1), 1e-15, "Hilbert"); if (n % 2 == 0) sym_eq(s(i, j), j == i + n / 2 ? 1 : (i == j + n / 2 ? -1 : 0), "symplectic"); }
	V q = algebra::translation<M>(v, n + 1, n + 1) * p; for (int i = 0; i < n; ++i) sym_eq(q[i], p[i] + v[i], "translation"); sym_eq(q[n], 1, "homogeneous"); rot2(algebra::rotation_2d<M>(t, n, n), t); rodrigues(algebra::rotation_3d_xaxis<M>(t, n, n), t, 1, 0, 0); rodrigues(algebra::rotation_3d_yaxis<M>(t, n, n), t, 0, 1, 0); rodrigues(algebra::rotation_3d_zaxis<M>(t, n, n), t, 0, 0, 1);
	V c(n, 1.0); c[n - 1] = -2; real r = sym_real("r"), e = 0; V w(n); for (int i = 0; i < n; ++i) w[i] = i < 2 ? v[i] : i; for (int i = 0; i < n; ++i) e += (w[i] - c[i]) * (w[i] - c[i]); V z = algebra::sphere_inversion(w, c, r); for (int i = 0; i < n; ++i) sym_eq((z[i] - c[i]) * e, (w[i] - c[i]) * r * r, "inverse point");
}

// C18 fast Fourier transform
#include "sym.h"
#include <vector>
#include "theoretica.h"
using namespace theoretica;
namespace th = theoretica;
typedef complex<real> cx;
#ifdef THOROUGH
#define LM 5
#else
#define LM 4
#endif
// cos(2 pi k / 32), k = 0..8
static const double C32[9] = {1, 0.98078528040323043, 0.92387953251128674, 0.83146961230254524, 0.70710678118654752, 0.55557023301960222, 0.38268343236508977, 0.19509032201612826, 0};
static double c32(int k) { k &= 31; if (k > 16) k = 32 - k; return k <= 8 ? C32[k] : -C32[16 - k]; }
static double s32(int k) { return c32(k - 8); }
static cvec in(int n) { cvec v(n); for (int i = 0; i < n; ++i) v[i] = cx(sym_real_in(nm("x", i, 0), -8, 8), sym_real_in(nm("x", i, 1), -8, 8)); return v; }
static void dft(const cvec& x, int sg, double sc, const cvec& y, const char* id) {
	int n = x.size(); sym_check((int) y.size() == n, "size"); if ((int) y.size() != n) return;
	for (int k = 0; k < n; ++k) { real a = 0, b = 0; for (int j = 0; j < n; ++j) { int q = (j * k * (32 / n)) & 31; real c = c32(q), s = sg * s32(q); a += x[j].Re() * c - x[j].Im() * s; b += x[j].Re() * s + x[j].Im() * c; } sym_near(y[k].Re(), a * sc, 1e-9, id); sym_near(y[k].Im(), b * sc, 1e-9, id); }
}
HARNESS(forward, "t=60", "fft is the discrete Fourier transform sum x_j exp(-2 pi i j k / N) of every complex vector in a box, sizes 1..16") {
	int n = 1 << (int) sym_choose("l", 0, LM); cvec x = in(n); errno = 0; dft(x, -1, 1, signal::fft(x), "fft"); sym_check(errno == 0, "no error");
}
HARNESS(inverse, "t=60", "ifft is the normalised inverse transform of every complex vector in a box, sizes 1..16, also through the flag of fft") {
	int n = 1 << (int) sym_choose("l", 0, LM); cvec x = in(n); cvec a = signal::ifft(x), b = signal::fft(x, true); dft(x, 1, 1.0 / n, a, "ifft"); dft(x, 1, 1.0 / n, b, "fft, inverse");
}
HARNESS(roundtrip, "t=60", "ifft(fft(x)) = x and fft(ifft(x)) = x and the argument is unchanged, sizes 1..16") {
	int n = 1 << (int) sym_choose("l", 0, LM); cvec x = in(n), y = x; cvec a = signal::ifft(signal::fft(x)), b = signal::fft(signal::ifft(x)); for (int i = 0; i < n; ++i) { sym_near(a[i].Re(), y[i].Re(), 1e-9, "ifft fft"); sym_near(a[i].Im(), y[i].Im(), 1e-9, "ifft fft"); sym_near(b[i].Re(), y[i].Re(), 1e-9, "fft ifft"); sym_near(b[i].Im(), y[i].Im(), 1e-9, "fft ifft"); sym_eq(x[i].Re(), y[i].Re(), "argument"); sym_eq(x[i].Im(), y[i].Im(), "argument"); }
}
HARNESS(types, "t=60", "the transforms of fixed size vectors agree with the dynamic ones, size 4") {
	cvec x = in(4); vec<cx, 4> f; for (int i = 0; i < 4; ++i) { f[i] = x[i]; }
	vec<cx, 4> y = signal::fft<vec<cx, 4>, vec<cx, 4>>(f), z = signal::ifft<vec<cx, 4>, vec<cx, 4>>(f); cvec a(4), b(4); for (int i = 0; i < 4; ++i) { a[i] = y[i]; b[i] = z[i]; } dft(x, -1, 1, a, "fixed"); dft(x, 1, 0.25, b, "fixed inverse");
}
HARNESS(sizes, "t=60", "sizes which are not a power of two give NaN and EINVAL, the empty vector gives itself, sizes 0..9 and 31") {
	int n = (int) sym_choose("n", 0, 10); if (n == 10) n = 31; cvec x(n, cx(1.0, 2.0)); for (int inv = 0; inv < 2; ++inv) { errno = 0; cvec y = inv ? signal::ifft(x) : signal::fft(x); sym_check((int) y.size() == n, "size"); if (n && (n & (n - 1))) { sym_check(errno == EINVAL, "error"); for (int i = 0; i < n; ++i) sym_check(sym_isnan(y[i].Re()), "NaN"); } else { sym_check(errno == 0, "no error"); if (n) { sym_near(y[0].Re(), inv ? 1 : n, 1e-9, "constant"); for (int i = 1; i < n; ++i) { sym_near(y[i].Re(), 0, 1e-9, "constant"); sym_near(y[i].Im(), 0, 1e-9, "constant"); } } } }
}
#include "cos1024.h"
static double c1k(int k) { k &= 1023; if (k > 512) k = 1024 - k; return k <= 256 ? C1024[k] : -C1024[512 - k]; }
static double s1k(int k) { return c1k(k - 256); }
HARNESS(large_impulse, "t=120", "transforms of an impulse of every complex amplitude in a box at several positions of 32 to 256 elements, both directions") {
	int l = (int) sym_choose("l", 5, 8), n = 1 << l, c = (int) sym_choose("at", 0, 3), j = c == 0 ? 0 : c == 1 ? 1 : c == 2 ? n / 2 + 1 : n - 1; cvec x(n, cx(0.0, 0.0)); x[j] = cx(sym_real_in("a", -8, 8), sym_real_in("b", -8, 8)); errno = 0;
	cvec y = signal::fft(x), z = signal::ifft(x); sym_check(errno == 0 && (int) y.size() == n && (int) z.size() == n, "sizes");
	for (int k = 0; k < n; ++k) { int q = j * k * (1024 / n); real co = c1k(q), si = s1k(q), a = x[j].Re(), b = x[j].Im(); sym_near(y[k].Re(), a * co + b * si, 1e-9, "fft Re"); sym_near(y[k].Im(), b * co - a * si, 1e-9, "fft Im"); sym_near(z[k].Re() * n, a * co - b * si, 1e-7, "ifft Re"); sym_near(z[k].Im() * n, b * co + a * si, 1e-7, "ifft Im"); }
}
HARNESS(large_wave, "mode=fp libm t=120 max_instr=400000000 max_path_instr=100000000", "a wave 3 exp(2 pi i m j / N) has one non-null bin, and the round trip returns it, 64, 512 and 1024 elements") {
	static const int L[] = {6, 9, 10}; int l = L[sym_choose("l", 0, 2)], n = 1 << l, m = sym_choose("m", 0, 1) ? 3 : n - 5; real a = 3; cvec x(n); for (int j = 0; j < n; ++j) { int q = m * j * (1024 / n); x[j] = cx(a * c1k(q), a * s1k(q)); }
	cvec y = signal::fft(x); for (int k = 0; k < n; ++k) { sym_near(y[k].Re(), k == m ? a * n : 0, 1e-7, "bin"); sym_near(y[k].Im(), 0, 1e-7, "bin"); } if (l < 9) { cvec z = signal::ifft(y); for (int j = 0; j < n; ++j) { sym_near(z[j].Re(), x[j].Re(), 1e-9, "round trip"); sym_near(z[j].Im(), x[j].Im(), 1e-9, "round trip"); } }
	cvec u(n - 1, cx(1.0, 0.0)), v(n + 1, cx(1.0, 0.0)); errno = 0; cvec w = signal::fft(u); sym_check(errno == EINVAL && sym_isnan(w[0].Re()), "not a power of two"); errno = 0; w = signal::ifft(v); sym_check(errno == EINVAL && sym_isnan(w[0].Re()), "not a power of two");
}
HARNESS(large_vectors, "t=120", "fft and ifft of every complex vector of 32 elements in a box") { cvec x = in(32); dft(x, -1, 1, signal::fft(x), "fft"); dft(x, 1, 1.0 / 32, signal::ifft(x), "ifft"); }
static double c4k(int k) { static const double C[4] = {1.0, 0.99999882345170190993, 0.99999529380957617151, 0.99998941108192837362}, S[4] = {0.0, 0.0015339801862847656123, 0.0030679567629659762701, 0.0046019261204485707649}; k &= 4095; return c1k(k / 4) * C[k % 4] - s1k(k / 4) * S[k % 4]; }
HARNESS(huge_wave, "mode=fp libm t=120 max_instr=900000000 max_path_instr=300000000", "a wave exp(2 pi i m j / N) has one non-null bin, both directions, 2048 and 4096 elements") {
	int l = (int) sym_choose("l", 11, 12), n = 1 << l, d = (int) sym_choose("inverse", 0, 1), m = d ? n - 7 : n / 2 + 5; cvec x(n); for (int j = 0; j < n; ++j) { int q = (int) ((unsigned) (m * j) % (unsigned) n) * (4096 / n); x[j] = cx(c4k(q), c4k(q - 1024)); }
	errno = 0; cvec y = d ? signal::ifft(x) : signal::fft(x); sym_check(errno == 0 && (int) y.size() == n, "size"); int at = d ? n - m : m; real v = d ? 1 : n; for (int k = 0; k < n; ++k) { sym_near(y[k].Re(), k == at ? v : 0, 1e-7, "bin"); sym_near(y[k].Im(), 0, 1e-7, "bin"); }
}
HARNESS(huge_impulse, "mode=fp libm t=120 max_instr=900000000 max_path_instr=300000000", "an impulse at three positions of 2048 and 4096 elements gives the wave exp(-+2 pi i p k / N) in every bin, both directions") {
	static const int P[] = {1, 1365, 2}; int l = (int) sym_choose("l", 11, 12), n = 1 << l, d = (int) sym_choose("inverse", 0, 1), p = P[sym_choose("p", 0, d ? 0 : 2)]; if (p == 2) p = n - 3; cvec x(n); x[p] = cx(2.0, 0.0);
	errno = 0; cvec y = d ? signal::ifft(x) : signal::fft(x); sym_check(errno == 0 && (int) y.size() == n, "size"); bool ok = true; for (int k = 0; k < n; ++k) { int q = (int) ((unsigned) (p * k) % (unsigned) n) * (4096 / n); real v = d ? 2.0 / n : 2.0, e = d ? 1e-11 : 1e-8; real a = y[k].Re() - v * c4k(q), b = y[k].Im() - (d ? v : -v) * c4k(q - 1024); if (!(a < e && a > -e && b < e && b > -e)) ok = false; } sym_check(ok, "bins");
}

// C01 integer kernel: exact integer functions over bounded integers
#include "sym.h"
#include "core/real_analysis.h"
#include "core/special.h"
using namespace theoretica;

HARNESS(isqrt_u8, "t=60", "isqrt<uint8_t>(n) = r with r*r <= n < (r+1)^2; every n in 0..255") {
	uint32_t n = (uint32_t) sym_int_in("n", 0, 255);
	uint32_t r = isqrt<uint8_t>((uint8_t) n);
	sym_check(r * r <= n, "r^2 <= n");
	sym_check((r + 1) * (r + 1) > n, "n < (r+1)^2");
}
HARNESS(icbrt_u8, "t=60", "icbrt<uint8_t>(n) = r with r^3 <= n < (r+1)^3; every n in 0..255") {
	uint32_t n = (uint32_t) sym_int_in("n", 0, 255);
	uint32_t r = icbrt<uint8_t>((uint8_t) n);
	sym_check(r * r * r <= n, "r^3 <= n");
	sym_check((r + 1) * (r + 1) * (r + 1) > n, "n < (r+1)^3");
}
// neighbourhoods of perfect powers at full width; n symbolic around k^2
static const uint64_t roots2[] = {2, 3, 255, 256, 65535, 65536, 65537, 1000003, 3037000500ull, 4294967294ull, 4294967295ull};
HARNESS(isqrt_u64, "t=90", "isqrt<uint64_t> for n in [k^2-4, k^2+4], k in {2,3,255,256,65535..65537,1000003,3037000500,2^32-2,2^32-1}") {
	uint64_t k = roots2[sym_choose("k", 0, 10)];
	uint64_t d = (uint64_t) sym_choose("d", -4, 4);
	if (k == 2) sym_assume((int64_t) d >= -4);
	uint64_t n = k * k + d;
	uint64_t r = isqrt<uint64_t>(n);
	uint64_t lo = (int64_t) d < 0 ? k - 1 : k;
	if (k > 3) sym_check(r == lo, "isqrt");
	else { sym_check(r * r <= n && (r + 1) * (r + 1) > n, "isqrt small"); }
}
HARNESS(isqrt_top, "t=60", "isqrt for the 8 largest 64-bit and 32-bit integers") {
	uint64_t d = (uint64_t) sym_choose("d", 0, 7);
	sym_check(isqrt<uint64_t>(~uint64_t(0) - d) == 4294967295ull, "isqrt 64");
	sym_check(isqrt<uint32_t>(~uint32_t(0) - (uint32_t) d) == 65535u, "isqrt 32");
}
static const uint64_t roots3[] = {2, 3, 15, 16, 255, 256, 1625, 65535, 65536, 2642244ull, 2642245ull};
HARNESS(icbrt_u64, "t=90", "icbrt<uint64_t> for n in [k^3-4, k^3+4], k in {2,3,15,16,255,256,1625,65535,65536,2642244,2642245}") {
	uint64_t k = roots3[sym_choose("k", 0, 10)];
	uint64_t d = (uint64_t) sym_choose("d", -4, 4);
	uint64_t n = k * k * k + d;
	uint64_t r = icbrt<uint64_t>(n);
	uint64_t lo = (int64_t) d < 0 ? k - 1 : k;
	sym_check(r == lo, "icbrt");
}
HARNESS(icbrt_top, "t=60", "icbrt for the 8 largest 64-bit and 32-bit integers") {
	uint64_t d = (uint64_t) sym_choose("d", 0, 7);
	sym_check(icbrt<uint64_t>(~uint64_t(0) - d) == 2642245ull, "icbrt 64");
	sym_check(icbrt<uint32_t>(~uint32_t(0) - (uint32_t) d) == 1625u, "icbrt 32");
}
template<typename T> static void ilog2_spec() {
	uint64_t x = sym_u64("x");
	sym_assume(x != 0 && x == (uint64_t)(T) x);
	errno = 0;
	uint64_t r = ilog2<T>((T) x);
	sym_check(r < sizeof(T) * 8, "range");
	sym_check((x >> r) == 1, "2^r <= x < 2^(r+1)");
	sym_check(errno == 0, "no error");
}
HARNESS(ilog2_u64, "t=60", "ilog2 at 64 bits, every x > 0: 2^r <= x < 2^(r+1)") { ilog2_spec<uint64_t>(); }
HARNESS(ilog2_u32, "t=60", "ilog2 at 32 bits, every x > 0") { ilog2_spec<uint32_t>(); }
HARNESS(ilog2_u16, "t=60", "ilog2 at 16 bits, every x > 0") { ilog2_spec<uint16_t>(); }
template<typename T> static void pad2_spec() {
	uint64_t x = sym_u64("x");
	const uint64_t top = uint64_t(1) << (sizeof(T) * 8 - 1);
	sym_assume(x <= top);
	uint64_t r = (uint64_t) pad2<T>((T) x);
	sym_check(r != 0 && (r & (r - 1)) == 0, "power of two");
	sym_check(r >= x, "not smaller than x");
	sym_check(x <= 1 ? r == 1 : (r >> 1) < x, "smallest");
}
HARNESS(pad2_u64, "t=150 max_paths=20000 tier=thorough", "pad2 at 64 bits, every x <= 2^63") { pad2_spec<uint64_t>(); }
HARNESS(pad2_u64_sparse, "t=100 max_paths=20000", "pad2 at 64 bits, every x <= 2^63 whose set bits are among {63,62,56,47,33,32,31,30,16,1,0}") {
	uint64_t m = sym_u64("x");
	sym_assume((m & ~0xC1008003C0010003ull) == 0);
	pad2_spec<uint64_t>();
}
HARNESS(isqrt_u16, "t=150 tier=thorough max_paths=20000", "isqrt<uint16_t>(n), n <= 1023") {
	uint32_t n = (uint32_t) sym_int_in("n", 0, 1023);
	uint64_t r = isqrt<uint16_t>((uint16_t) n);
	sym_check(r * r <= n, "r^2 <= n");
	sym_check((r + 1) * (r + 1) > n, "n < (r+1)^2");
}
HARNESS(pad2_u32, "t=60 max_paths=20000", "pad2 at 32 bits, every x <= 2^31") { pad2_spec<uint32_t>(); }
HARNESS(pad2_u16, "t=60", "pad2 at 16 bits, every x <= 2^15") { pad2_spec<uint16_t>(); }

HARNESS(fact_rec, "t=30", "fact(0) = 1, fact(n) = n fact(n-1) for n <= 20; factorial in doubles for n <= 22") {
	uint32_t n = (uint32_t) sym_choose("n", 0, 20);
	uint64_t want = 1;
	for (uint32_t i = 2; i <= n; ++i) want *= i;
	sym_check(fact<uint64_t>(n) == want, "fact");
	sym_check(fact(n) == want, "fact default");
	if (n <= 12) sym_check(fact<uint32_t>(n) == (uint32_t) want, "fact u32");
	sym_check(fact<real>(n) == (real) want, "fact real");
	if (n >= 1) sym_check(special::gamma(n + 1) == (real) want, "gamma(n+1) = n!");
}
HARNESS(double_fact_rec, "t=30", "double_fact(n) = n (n-2) ... for n <= 33") {
	uint32_t n = (uint32_t) sym_choose("n", 0, 33);
	uint64_t want = 1;
	for (uint32_t i = n; i >= 2; i -= 2) want *= i;
	sym_check(double_fact(n) == want, "double_fact");
	sym_check(double_fact<uint64_t>(n) == want, "double_fact u64");
}
HARNESS(falling_rising, "t=60", "falling/rising factorials of a symbolic real and a symbolic 64-bit integer, n <= 9") {
	uint32_t n = (uint32_t) sym_choose("n", 0, 9);
	real x = sym_real("x");
	real f = 1, r = 1;
	for (uint32_t i = 0; i < n; ++i) { f = f * (x - i); r = r * (x + i); }
	sym_eq(falling_fact<real>(x, n), f, "falling real");
	sym_eq(rising_fact<real>(x, n), r, "rising real");
	uint64_t k = sym_u64("k");
	uint64_t fk = 1, rk = 1;
	for (uint32_t i = 0; i < n; ++i) { fk = fk * (k - i); rk = rk * (k + i); }
	sym_check(falling_fact<uint64_t>(k, n) == fk, "falling u64");
	sym_check(rising_fact<uint64_t>(k, n) == rk, "rising u64");
}
HARNESS(binomial_pascal, "t=120", "binomial_coeff(n,m) against Pascal's triangle for all m <= n <= 60") {
	int n = (int) sym_choose("n", 0, 60);
	uint64_t row[62];
	for (int i = 0; i < 62; ++i) row[i] = 0;
	row[0] = 1;
	for (int i = 0; i < n; ++i) for (int j = i + 1; j > 0; --j) row[j] += row[j - 1];
	for (int m = 0; m <= n; ++m) {
		sym_check(binomial_coeff(n, m) == row[m], "binomial");
		sym_check(binomial_coeff<uint64_t>(n, m) == row[m], "binomial u64");
	}
	if (n <= 20) for (int m = 0; m <= n; ++m) sym_check(binomial_coeff<uint32_t>(n, m) == row[m], "binomial u32");
}
HARNESS(binomial_domain, "t=60", "binomial_coeff(n,m) with n < m is 0 and reports EDOM; no error otherwise") {
	uint32_t m = (uint32_t) sym_int_in("m", 0, 12), n = (uint32_t) sym_int_in("n", 0, 12);
	errno = 0;
	uint64_t b = binomial_coeff(n, m);
	if (n < m) { sym_check(b == 0, "zero"); sym_check(errno == EDOM, "errno"); }
	else sym_check(errno == 0 && b >= 1, "no error");
}
HARNESS(catalan_rec, "t=60", "catalan satisfies C(0)=1, C(n+1) = sum C(i) C(n-i) for n <= 31") {
	int n = (int) sym_choose("n", 0, 31);
	uint64_t c[33];
	c[0] = 1;
	for (int k = 1; k <= n; ++k) { c[k] = 0; for (int i = 0; i < k; ++i) c[k] += c[i] * c[k - 1 - i]; }
	sym_check(catalan(n) == c[n], "catalan");
}
HARNESS(delta, "t=20", "kronecker_delta over all 32-bit pairs") {
	uint32_t a = sym_u32("a"), b = sym_u32("b");
	sym_check(kronecker_delta<uint32_t>(a, b) == (a == b ? 1u : 0u), "delta");
	real x = sym_real("x"), y = sym_real("y");
	sym_eq(kronecker_delta<real>(x, y), x == y ? 1.0 : 0.0, "delta real");
}
HARNESS(half_gamma_int, "t=30", "half_gamma(k) = Gamma(k/2) by the recurrence Gamma(x+1) = x Gamma(x), k <= 33") {
	int k = (int) sym_choose("k", 1, 33);
	real want = (k % 2) ? SQRTPI : 1.0;
	for (int j = (k % 2) ? 1 : 2; j + 2 <= k; j += 2) want = want * j / 2.0;
	sym_eq(special::half_gamma(k) / want, 1.0, "half gamma");
}
HARNESS(binomial_wide, "t=60", "binomial coefficients of large n (to 2^32 - 1) with small m or n - m are exact whenever their double-width product is representable") {
	static const uint32_t N[] = {61, 70, 100, 200, 1000, 5000, 65536, 1000003, 4294967295u}; uint32_t n = N[sym_choose("n", 0, 8)], m = (uint32_t) sym_choose("m", 0, 12); unsigned __int128 b = 1; for (uint32_t i = 1; i <= m; ++i) { b = b * (n - m + i); if (b >> 64) return; b /= i; } errno = 0; sym_check(binomial_coeff(n, m) == (uint64_t) b, "binomial"); sym_check(binomial_coeff(n, n - m) == (uint64_t) b, "symmetric"); sym_check(errno == 0, "no error");
}
HARNESS(factorials_real, "mode=fp t=60 max_values=200", "factorials and double factorials in doubles up to 170: n! = n (n-1)!, finite, the values of 50!, 100! and 170!, n!! (n-1)!! = n!") {
	uint32_t n = (uint32_t) sym_choose("n", 1, 170); real f = fact<real>(n), g = fact<real>(n - 1) * n, r = f / g; sym_check(f < inf() && f > 0 && r < 1 + 1e-12 && r > 1 - 1e-12, "recurrence"); real w = n == 50 ? 3.0414093201713376e64 : n == 100 ? 9.332621544394415e157 : n == 170 ? 7.257415615307994e306 : f; r = f / w; sym_check(r < 1 + 1e-12 && r > 1 - 1e-12, "value"); real d = double_fact<real>(n), e = double_fact<real>(n > 1 ? n - 2 : 0) * n; r = d / e; sym_check(r < 1 + 1e-12 && r > 1 - 1e-12, "double factorial"); r = d * double_fact<real>(n - 1) / f; sym_check(r < 1 + 1e-12 && r > 1 - 1e-12, "n!! (n-1)!! = n!");
}

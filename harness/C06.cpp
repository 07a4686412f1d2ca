// C06 bit-level kernels
#include "sym.h"
#include <vector>
#include "theoretica.h"
#include "algebra/vec.h"
using namespace theoretica;
typedef unsigned __int128 u128;

HARNESS(mul128, "t=60", "mul_uint128(a,b) = the 128-bit product, every pair of 64-bit integers (against the sum of 32x32 partial products)") {
	uint64_t a = sym_u64("a"), b = sym_u64("b"), lo, hi;
	mul_uint128(a, b, lo, hi);
	uint64_t al = a & 0xffffffff, ah = a >> 32, bl = b & 0xffffffff, bh = b >> 32;
	u128 r = (u128)(al * bl) + ((u128)(al * bh) << 32) + ((u128)(ah * bl) << 32) + ((u128)(ah * bh) << 64);
	sym_check(lo == (uint64_t) r, "low");
	sym_check(hi == (uint64_t)(r >> 64), "high");
	sym_check(mix_mum(a, b) == ((uint64_t) r ^ (uint64_t)(r >> 64)), "mum");
}
// slices of both operands symbolic, the rest fixed
static void slice(int sa, int sb, uint64_t fa, uint64_t fb) {
	uint64_t a = (fa & ~(0xfull << sa)) | ((uint64_t) sym_int_in("a", 0, 15) << sa);
	uint64_t b = (fb & ~(0xfull << sb)) | ((uint64_t) sym_int_in("b", 0, 15) << sb);
	uint64_t lo, hi;
	mul_uint128(a, b, lo, hi);
	u128 r = (u128) a * b;
	sym_check(lo == (uint64_t) r && hi == (uint64_t)(r >> 64), "product");
	sym_check(mix_mum(a, b) == ((uint64_t) r ^ (uint64_t)(r >> 64)), "mum");
}
HARNESS(mul128_ones, "t=60", "mul_uint128 against the native 128-bit product: 4-bit slices at positions {0,30,60} of all-ones operands") {
	static const int pos[] = {0, 30, 60};
	slice(pos[sym_choose("pa", 0, 2)], pos[sym_choose("pb", 0, 2)], ~0ull, ~0ull);
}
HARNESS(mul128_zero, "t=60", "mul_uint128 against the native 128-bit product: 4-bit slices at positions {0,30,60} of zero operands") {
	static const int pos[] = {0, 30, 60};
	slice(pos[sym_choose("pa", 0, 2)], pos[sym_choose("pb", 0, 2)], 0, 0);
}
template<typename T> static void rot_spec() {
	const unsigned w = sizeof(T) * 8;
	T x = (T) sym_u64("x");
	unsigned i = (unsigned) sym_choose("i", 0, w + 1);
	T r = bit_rotate<T>(x, i);
	bool ok = true;
	for (unsigned k = 0; k < w; ++k) ok = ok & (((r >> ((k + i) % w)) & 1) == ((x >> k) & 1));
	sym_check(ok, "every bit moves by i");
	sym_check(bit_rotate<T>(r, w - (i % w)) == x, "inverse rotation");
}
HARNESS(rotate64, "t=90", "bit_rotate<uint64_t>: bit k moves to k+i mod 64, every x, i in 0..65") { rot_spec<uint64_t>(); }
HARNESS(rotate32, "t=60", "bit_rotate<uint32_t>: bit k moves to k+i mod 32, every x, i in 0..33") { rot_spec<uint32_t>(); }
HARNESS(rotate8, "t=60", "bit_rotate<uint8_t>: every x, i in 0..9") { rot_spec<uint8_t>(); }
template<typename V> static void rev_spec(unsigned m, unsigned extra) {
	const unsigned n = (1u << m) + extra;
	V v;
	v.resize(n);
	for (unsigned i = 0; i < n; ++i) v[i] = sym_real(nm("v", i));
	V w = v;
	errno = 0;
	swap_bit_reverse(w, m);
	sym_check(errno == 0, "no error");
	for (unsigned i = 0; i < n; ++i) {
		unsigned j = 0;
		for (unsigned k = 0; k < m; ++k) j |= ((i >> k) & 1) << (m - 1 - k);
		sym_eq(w[i], i < (1u << m) ? v[j] : v[i], "bit reversed");
	}
}
HARNESS(bitrev_vec, "t=60", "swap_bit_reverse is the bit-reversal permutation of the first 2^m elements, m in 0..6, sizes 2^m and 2^m+3") {
	int m = (int) sym_choose("m", 0, 6);
	rev_spec<vec<real>>(m, 0);
	rev_spec<std::vector<real>>(m, 3);
}
HARNESS(bitrev_short, "t=60", "swap_bit_reverse on a vector shorter than 2^m reports EINVAL and leaves it unchanged") {
	unsigned n = (unsigned) sym_choose("n", 1, 7);
	std::vector<real> v(n);
	for (unsigned i = 0; i < n; ++i) v[i] = sym_real(nm("v", i));
	std::vector<real> w = v;
	errno = 0;
	swap_bit_reverse(w, 3);
	sym_check(errno == EINVAL, "errno");
	for (unsigned i = 0; i < n; ++i) sym_eq(w[i], v[i], "unchanged");
}
HARNESS(bitrev_large, "t=60", "swap_bit_reverse for m in 7..10 (128 to 1024 elements)") { rev_spec<std::vector<real>>((unsigned) sym_choose("m", 7, 10), 0); }
HARNESS(bitrev_huge, "t=100 max_instr=100000000 max_path_instr=50000000", "swap_bit_reverse for m = 11, 12 (2048 and 4096 elements)") { rev_spec<std::vector<real>>((unsigned) sym_choose("m", 11, 12), 0); }

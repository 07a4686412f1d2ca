// C07 pseudorandom generators
#include "sym.h"
#include <vector>
#include "theoretica.h"
#include "pseudorandom/prng.h"
#include "pseudorandom/quasirandom.h"
using namespace theoretica;
typedef unsigned __int128 u128;
static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t ref_splitmix(uint64_t x) {
	uint64_t z = x + 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
static uint64_t ref_xoshiro(uint64_t* s) {
	uint64_t r = rotl(s[0] + s[3], 23) + s[0], t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
	return r;
}
static u128 mul_ref(uint64_t a, uint64_t b) {
	uint64_t al = a & 0xffffffff, ah = a >> 32, bl = b & 0xffffffff, bh = b >> 32;
	return (u128)(al * bl) + ((u128)(al * bh) << 32) + ((u128)(ah * bl) << 32) + ((u128)(ah * bh) << 64);
}
HARNESS(splitmix, "t=60", "splitmix64 equals the reference step for every state; the generator object chains three steps; seed 0 acts as 1") {
	uint64_t x = sym_u64("x");
	sym_check(randgen_splitmix64(x) == ref_splitmix(x), "step");
	PRNG g = PRNG::splitmix64(x);
	uint64_t y = x == 0 ? 1 : x;
	for (int i = 0; i < 3; ++i) { y = ref_splitmix(y); sym_check(g() == y, "sequence"); sym_check(g.last() == y, "last"); }
}
HARNESS(xoshiro_step, "t=60", "xoshiro256++ equals the reference (output and next state) for every 256-bit state, 3 steps") {
	uint64_t s[4]; std::vector<uint64_t> p(4);
	for (int i = 0; i < 4; ++i) { s[i] = sym_u64(nm("s", i)); p[i] = s[i]; }
	PRNG g = PRNG::xoshiro(p);
	for (int k = 0; k < 3; ++k) {
		uint64_t want = ref_xoshiro(s);
		sym_check(g.next() == want, "output");
		std::vector<uint64_t> q = g.get_param();
		for (int i = 0; i < 4; ++i) sym_check(q[i] == s[i], "state");
	}
	for (int i = 0; i < 4; ++i) sym_check(p[i] == sym_u64(nm("s", i)), "the caller's state is not touched");
}
HARNESS(xoshiro_seed, "t=60", "PRNG(seed) and PRNG::xoshiro(seed) start from four chained splitmix64 values, every seed (0 acts as 1)") {
	uint64_t x = sym_u64("x");
	uint64_t y = x == 0 ? 1 : x;
	uint64_t s[4];
	for (int i = 0; i < 4; ++i) { y = ref_splitmix(y); s[i] = y; }
	PRNG g = PRNG::xoshiro(x), h(x);
	std::vector<uint64_t> p = g.get_param(), q = h.get_param();
	for (int i = 0; i < 4; ++i) sym_check(p[i] == s[i] && q[i] == s[i], "state");
	uint64_t want = ref_xoshiro(s);
	sym_check(g() == want, "output xoshiro(seed)");
	sym_check(h() == want, "output PRNG(seed)");
}
HARNESS(lcg, "t=60", "congruential generator: (a x + c) mod m for every 32-bit x with 16-bit parameters; default generator 48271 x mod 2^31-1; invalid parameters give 0 and EINVAL") {
	uint64_t x = sym_u32("x");
	uint64_t m = ((uint64_t) 1 << 31) - 1;
	sym_check(randgen_congruential(x) == (48271 * x) % m, "defaults");
	PRNG g = PRNG::linear_congruential(x);
	uint64_t y = x == 0 ? 1 : x;
	for (int i = 0; i < 3; ++i) { y = (48271 * y) % m; sym_check(g() == y, "sequence"); }
	uint64_t a = (uint64_t) sym_int_in("a", 0, 65535), c = (uint64_t) sym_int_in("c", 0, 65535), mm = (uint64_t) sym_int_in("m", 1, 65535);
	std::vector<uint64_t> st(3); st[0] = a; st[1] = c; st[2] = mm;
	errno = 0;
	uint64_t r = randgen_congruential(x, st);
	if (a > mm || c > mm) sym_check(r == 0 && errno == EINVAL, "invalid parameters");
	else { sym_check(r == (a * x + c) % mm && errno == 0, "step"); sym_check(r < mm, "range"); }
}
HARNESS(wyrand, "t=60", "wyrand: seed += p1; output = hi xor lo of (seed xor p2) * seed, every state, 2 steps") {
	uint64_t s = sym_u64("s"), p1 = sym_u64("p1"), p2 = sym_u64("p2");
	std::vector<uint64_t> p(3); p[0] = s; p[1] = p1; p[2] = p2;
	PRNG g(randgen_wyrand, 0, p);
	for (int i = 0; i < 2; ++i) {
		s += p1;
		u128 r = mul_ref(s ^ p2, s);
		sym_check(g() == ((uint64_t) r ^ (uint64_t)(r >> 64)), "output");
		sym_check(g.get_param()[0] == s && g.get_param()[1] == p1 && g.get_param()[2] == p2, "state");
	}
}
HARNESS(wyrand_make, "t=60", "PRNG::wyrand keeps its parameters; seed 0 acts as 1, mask 0 is replaced by splitmix64(seed)") {
	uint64_t s = sym_u64("s"), p1 = sym_u64("p1"), p2 = sym_u64("p2");
	PRNG g = PRNG::wyrand(s, p1, p2);
	uint64_t e = s == 0 ? 1 : s;
	std::vector<uint64_t> p = g.get_param();
	sym_check(p.size() == 3 && p[0] == e && p[1] == p1 && p[2] == (p2 == 0 ? ref_splitmix(e) : p2), "parameters");
}
HARNESS(middlesquare, "t=60", "middle-square: bits 32..95 of (x+offset)^2, every x and offset; object chains 2 steps") {
	uint64_t x = sym_u64("x"), o = sym_u64("o");
	u128 r = mul_ref(x + o, x + o);
	sym_check(randgen_middlesquare(x, o) == (uint64_t)(r >> 32), "step");
	sym_assume(x != 0 && o != 0);
	PRNG g = PRNG::middlesquare(x, o);
	uint64_t y = g();
	sym_check(y == (uint64_t)(r >> 32), "first");
	u128 r2 = mul_ref(y + o, y + o);
	sym_check(g() == (uint64_t)(r2 >> 32), "second");
}
HARNESS(determinism, "t=60", "equal seeds and copies give equal sequences; discard(n) equals n calls; >> streams the next number") {
	uint64_t x = sym_u64("x");
	int k = (int) sym_choose("gen", 0, 2);
	PRNG a = k == 0 ? PRNG::xoshiro(x) : k == 1 ? PRNG::splitmix64(x) : PRNG::wyrand(x);
	PRNG b = k == 0 ? PRNG::xoshiro(x) : k == 1 ? PRNG::splitmix64(x) : PRNG::wyrand(x);
	int n = (int) sym_choose("n", 0, 4);
	PRNG c = a;
	a.discard(n);
	for (int i = 0; i < n; ++i) b.next();
	uint64_t y;
	b >> y;
	sym_check(a() == y, "discard");
	for (int i = 0; i < n; ++i) c();
	sym_check(c() == y, "copy has its own state");
}
HARNESS(wrong_state, "t=60", "a state vector of the wrong length gives 0 and EINVAL") {
	int n = (int) sym_choose("n", 0, 5);
	uint64_t x = sym_u64("x");
	std::vector<uint64_t> p(n);
	for (int i = 0; i < n; ++i) p[i] = sym_u64(nm("p", i));
	if (n != 4) { errno = 0; sym_check(randgen_xoshiro(x, p) == 0 && errno == EINVAL, "xoshiro"); }
	if (n != 3) { errno = 0; sym_check(randgen_congruential(x, p) == 0 && errno == EINVAL, "lcg"); }
	if (n != 3) { errno = 0; sym_check(randgen_wyrand(x, p) == 0 && errno == EINVAL, "wyrand"); }
	if (n != 1) { errno = 0; sym_check(randgen_middlesquare(x, p) == 0 && errno == EINVAL, "middle square"); }
}
// a generator whose outputs are arbitrary: the parameter vector is a script
static uint64_t scripted(uint64_t, std::vector<uint64_t>& s) { uint64_t i = s[0]; s[0] = i + 1; return s[i + 1]; }
HARNESS(shuffle_perm, "t=90 max_values=64", "shuffle permutes: the multiset of 3 elements is preserved for every generator output (2 rounds, 4 arbitrary draws)") {
	std::vector<uint64_t> p(5);
	p[0] = 0;
	for (int i = 0; i < 4; ++i) p[i + 1] = (uint64_t) sym_int_in(nm("r", i), 0, 6);
	PRNG g(scripted, 0, p);
	std::vector<real> v(3);
	real a = sym_real("a"), b = sym_real("b"), c = sym_real("c");
	v[0] = a; v[1] = b; v[2] = c;
	shuffle(v, g, 2);
	sym_eq(v[0] + v[1] + v[2], a + b + c, "sum");
	sym_eq(v[0] * v[1] + v[1] * v[2] + v[0] * v[2], a * b + b * c + a * c, "second symmetric function");
	sym_eq(v[0] * v[1] * v[2], a * b * c, "product");
	// the exchanges are the ones drawn
	std::vector<real> w(3); w[0] = a; w[1] = b; w[2] = c;
	for (int k = 0; k < 2; ++k) { size_t i = p[2 * k + 1] % 3, j = p[2 * k + 2] % 3; real t = w[i]; w[i] = w[j]; w[j] = t; }
	for (int i = 0; i < 3; ++i) sym_eq(v[i], w[i], "drawn transpositions");
}
HARNESS(shuffle_default, "t=60", "default number of rounds is (N-1)^2 (2 draws each), N in 1..4; an empty set is EINVAL and consumes nothing") {
	int n = (int) sym_choose("n", 0, 4);
	std::vector<uint64_t> p(20, 1);
	p[0] = 0;
	PRNG g(scripted, 0, p);
	std::vector<real> v(n);
	for (int i = 0; i < n; ++i) v[i] = sym_real(nm("v", i));
	errno = 0;
	shuffle(v, g);
	if (n == 0) sym_check(errno == EINVAL, "errno"); else sym_check(errno == 0, "no error");
	sym_check(g.get_param()[0] == (n == 0 ? 0u : 2u * (n - 1) * (n - 1)), "draws");
}
HARNESS(weyl, "t=60 max_values=200", "Weyl sequences: fract(n alpha), powers of alpha per dimension, values in [0,1), every alpha in (0,1), n <= 12") {
	int n = (int) sym_choose("n", 0, 12);
	real al = sym_real_in("alpha", 0, 1);
	real w = qrand_weyl(n, al);
	int k = (int) (n * al);
	sym_eq(w, n * al - k, "weyl");
	sym_check(w >= 0 && w < 1, "range");
	vec<real, 3> m = qrand_weyl_multi<3>(n, al);
	vec2 m2 = qrand_weyl2(n, al);
	sym_eq(m[0], w, "multi 0"); sym_eq(m2[0], w, "weyl2 0");
	sym_eq(m[1], qrand_weyl(n, al * al), "multi 1"); sym_eq(m2[1], m[1], "weyl2 1");
	sym_eq(m[2], qrand_weyl(n, al * al * al), "multi 2");
}
HARNESS(weyl_recurr, "t=60", "Weyl recurrence: first element fract(alpha), then fract(prev + alpha)") {
	real al = sym_real_in("alpha", 0, 1), p = sym_real_in("p", 0, 1);
	real r = qrand_weyl_recurr(p, al);
	if (p == 0) sym_eq(r, qrand_weyl(1, al), "first");
	else { real s = p + al; int k = (int) s; sym_eq(r, s - k, "next"); }
}
HARNESS(large_shuffle, "t=60", "shuffles of 6, 17 and 40 symbolic elements are the drawn transpositions, whatever is drawn first; default rounds (N-1)^2") {
	static const int B[] = {6, 17, 40}; int n = B[sym_choose("n", 0, 2)], k = n == 6 ? 25 : 60;
	std::vector<uint64_t> p(2 * k + 1); p[0] = 0;
	for (int i = 0; i < 2 * k; ++i) p[i + 1] = ((uint64_t) i * 2654435761u + 12345) ^ ((uint64_t) i << 40);
	int d = (int) sym_choose("d", 0, 5); p[1] = (uint64_t) d + 7 * n;
	PRNG g(scripted, 0, p); std::vector<real> v(n), w; for (int i = 0; i < n; ++i) v[i] = sym_real(nm("v", i)); w = v;
	if (n == 6) shuffle(v, g); else shuffle(v, g, k);
	for (int i = 0; i < k; ++i) { size_t a = p[2 * i + 1] % n, b = p[2 * i + 2] % n; real t = w[a]; w[a] = w[b]; w[b] = t; }
	for (int i = 0; i < n; ++i) sym_eq(v[i], w[i], "drawn transpositions");
	sym_check(g.get_param()[0] == (uint64_t) 2 * k, "draws");
}
HARNESS(large_discard, "t=60", "discard(n) equals n draws for n = 5, 8, 16, 31, 64 and 100, every generator, fixed seeds; interleaved copies") {
	static const int B[] = {5, 8, 16, 31, 64, 100}; int n = B[sym_choose("n", 0, 5)], k = (int) sym_choose("gen", 0, 4); uint64_t x = sym_choose("seed", 0, 1) ? 0x9e3779b97f4a7c15ull : 42;
	auto mk = [&]() { return k == 0 ? PRNG::xoshiro(x) : k == 1 ? PRNG::splitmix64(x) : k == 2 ? PRNG::wyrand(x) : k == 3 ? PRNG::linear_congruential(x) : PRNG::middlesquare(x); };
	PRNG a = mk(), b = mk(); a.discard(n); uint64_t last = 0; for (int i = 0; i < n; ++i) last = b.next(); sym_check(a.last() == last || k == 9, "last"); sym_check(a() == b(), "discard"); PRNG c = a; sym_check(a() == c(), "copy"); sym_check(a() == c(), "copy");
}
HARNESS(large_chain, "t=90", "xoshiro256++, wyrand and splitmix64 follow the reference for 40 steps from fixed states and parameters") {
	int k = (int) sym_choose("seed", 0, 3); uint64_t s[4], y = k * 0x12345678abcdefull + k; if (!y) y = 1; uint64_t z = y; for (int i = 0; i < 4; ++i) { z = ref_splitmix(z); s[i] = z; }
	PRNG g = PRNG::xoshiro(y), h = PRNG::splitmix64(y), w = PRNG::wyrand(y, s[0], s[1]), l = PRNG::linear_congruential(y & 0xffffff); uint64_t a = y, b = y, c = (y & 0xffffff) ? (y & 0xffffff) : 1;
	for (int i = 0; i < 40; ++i) { sym_check(g() == ref_xoshiro(s), "xoshiro"); a = ref_splitmix(a); sym_check(h() == a, "splitmix"); b += w.get_param()[1]; u128 r = mul_ref(b ^ w.get_param()[2], b); sym_check(w() == ((uint64_t) r ^ (uint64_t)(r >> 64)), "wyrand"); c = (48271 * c) % 2147483647ull; sym_check(l() == c, "congruential"); }
}
HARNESS(reseed, "t=60", "seeding a generator again restarts the sequence of that seed, whatever was drawn before, every non-null seed, every generator") {
	int k = (int) sym_choose("gen", 0, 4), d = (int) sym_choose("drawn", 0, 2); uint64_t s = sym_choose("fixed", 0, 1) ? 42 : sym_u64("s"); sym_assume(s != 0); auto make = [k](uint64_t x) { return k == 0 ? PRNG(x) : k == 1 ? PRNG::splitmix64(x) : k == 2 ? PRNG::wyrand(x) : k == 3 ? PRNG::middlesquare(x) : PRNG::linear_congruential(x); }; PRNG g = make(7), h = make(s); for (int i = 0; i < d; ++i) g(); g.seed(s); for (int i = 0; i < 2; ++i) { uint64_t a = g(), b = h(); sym_check(a == b, "restarted"); }
}
static uint64_t plus(uint64_t x, std::vector<uint64_t>& p) { return x + p[0]; }
HARNESS(accessors, "t=60", "function, parameters and the last number of a generator can be set and read back and are used by the following draws") {
	uint64_t s = sym_u64("s"), a = sym_u64("a"), b = sym_u64("b"); PRNG g = PRNG::splitmix64(5); g.set_function(plus); g.set_param({a, b}); g.seed(s); sym_check(g.last() == s, "last"); sym_check(g.get_function() == (pseudorandom_function) plus, "function"); sym_check(g() == s + a, "draw"); sym_check(g.last() == s + a, "last"); g.set_param(0, b); std::vector<uint64_t> p = g.get_param(); sym_check(p.size() == 2 && p[0] == b && p[1] == b, "parameters"); p[0] = 0; uint64_t n; g >> n; sym_check(n == s + a + b, "stream"); PRNG h(plus, s, {b}); sym_check(h() == s + b, "constructed");
}

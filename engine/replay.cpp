// Native runtime for the harnesses: replays one assignment against the real build.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <vector>
#include <string>
#include <dlfcn.h>
#include <new>

#ifndef REPLAY_THREADS
// fill fresh heap memory with a pattern so that reads of uninitialised memory show
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xC5, n); return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xC5, n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
#endif

static std::map<std::string, double>& R() { static auto* m = new std::map<std::string, double>(); return *m; }
static std::map<std::string, uint64_t>& I() { static auto* m = new std::map<std::string, uint64_t>(); return *m; }
struct Pt { std::vector<double> a; double v; };
static std::map<std::string, std::vector<Pt>>& U() { static auto* m = new std::map<std::string, std::vector<Pt>>(); return *m; }
static int fails = 0, checks = 0;
static double worst = 0;

// with a seed, values that are not given are drawn (moderate dyadic numbers) and recorded
static uint64_t seed = 0;
static FILE* rec = nullptr;
static uint64_t rnd(uint64_t n) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; uint64_t x = seed ^ (seed >> 29); x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 32; return n ? x % n : x; }
static double drawr(const char* n, double v) { R()[n] = v; fprintf(rec, "r %s %.17g\n", n, v); fflush(rec); return v; }
static uint64_t drawi(const char* n, uint64_t v) { I()[n] = v; fprintf(rec, "i %s %llu\n", n, (unsigned long long) v); fflush(rec); return v; }
static double anyr() { switch (rnd(8)) { case 0: return (double) (int64_t) rnd(7) - 3; case 1: return ((double) (int64_t) rnd(129) - 64) / 2; case 2: case 3: return (double) (rnd(96) + 1) / 32; default: return ((double) (int64_t) rnd(129) - 64) / 16; } }
static double getr(const char* n, double def) { auto it = R().find(n); return it == R().end() ? rec ? drawr(n, anyr()) : def : it->second; }
static bool known(const char* n) { return R().count(n) != 0; }
extern "C" {
double sym_real(const char* n) { return getr(n, 0.5); }
double sym_real_in(const char* n, double lo, double hi) { if (rec && !known(n)) { double k = rnd(3) ? (double) rnd(64) / 64 : (double) (rnd(1000) + 1) / 1001; double w = hi - lo; return drawr(n, rnd(4) == 0 && lo < 1 && hi > 1 && w > 64 ? (lo > -1 ? lo + 2 * k : 2 * k - 1) : lo + w * k); } double v = getr(n, (lo + hi) / 2); if (v < lo) v = lo; if (v > hi) v = hi; return v; }
uint64_t sym_u64(const char* n) { auto it = I().find(n); if (rec && it == I().end()) { uint64_t k = rnd(4), v = rnd(0); return drawi(n, k == 0 ? v % 16 : k == 1 ? v >> (v % 64) : v); } return it == I().end() ? 0 : it->second; }
uint32_t sym_u32(const char* n) { return (uint32_t) sym_u64(n); }
int64_t sym_int_in(const char* n, int64_t lo, int64_t hi) { auto it = I().find(n); if (rec && it == I().end()) { uint64_t w = (uint64_t) hi - (uint64_t) lo + 1; return (int64_t) drawi(n, (uint64_t) lo + rnd(w)); } int64_t v = it == I().end() ? lo : (int64_t) it->second; if (v < lo) v = lo; if (v > hi) v = hi; return v; }
int64_t sym_choose(const char* n, int64_t lo, int64_t hi) { return sym_int_in(n, lo, hi); }
void sym_assume(bool c) { if (!c) { printf("ASSUME-VIOLATED\n"); fflush(stdout); _Exit(fails ? 1 : 3); } }
static void fail(const char* id) { fails++; printf("CHECK-FAIL %s", id); }
void sym_check(bool c, const char* id) { checks++; if (!c) { fail(id); printf("\n"); } }
static double scale(double a, double b) { double s = 1; if (std::fabs(a) > s) s = std::fabs(a); if (std::fabs(b) > s) s = std::fabs(b); return s; }
void sym_eq(double a, double b, const char* id) {
	checks++;
	if (std::isinf(a) && a == b) return;
	double e = std::fabs(a - b) / scale(a, b);
	if (!(e <= (rec ? 1e-4 : 1e-6))) { fail(id); printf(" got %.17g expected %.17g\n", a, b); }
	else if (e > worst) worst = e;
}
void sym_near(double a, double b, double tol, const char* id) {
	checks++;
	if (std::isinf(a) && a == b) return;
	if (!(std::fabs(a - b) <= 1.5 * tol + 1e-9 * scale(a, b))) { fail(id); printf(" got %.17g expected %.17g (tolerance %g)\n", a, b, tol); }
}
void sym_le(double a, double b, const char* id) {
	checks++;
	if (!(a <= b + 1e-7 * scale(a, b))) { fail(id); printf(" %.17g <= %.17g does not hold\n", a, b); }
}
static double uf(const char* n, std::vector<double> a) {
	auto& t = U()[n];
	double best = 1e300; const Pt* bp = nullptr;
	for (auto& p : t) {
		if (p.a.size() != a.size()) continue;
		double d = 0;
		for (size_t i = 0; i < a.size(); ++i) d += std::fabs(p.a[i] - a[i]);
		if (d < best) { best = d; bp = &p; }
	}
	if (rec && !(bp && best == 0)) {   // an arbitrary quadratic
		double v = (double) (strlen(n) % 5 + n[0] % 7) / 8 + U().size() * 0.125;
		for (size_t i = 0; i < a.size(); ++i) v += a[i] * (0.75 + 0.5 * i) - a[i] * a[i] * 0.125 + (i ? 0.25 * a[i] * a[i - 1] : 0);
		fprintf(rec, "u %s %d", n, (int) a.size());
		for (double x : a) fprintf(rec, " %.17g", x);
		fprintf(rec, " %.17g\n", v); fflush(rec);
		t.push_back({a, v});
		return v;
	}
	return bp ? bp->v : 0.25;
}
double sym_uf1(const char* n, double x) { return uf(n, {x}); }
double sym_uf2(const char* n, double x, double y) { return uf(n, {x, y}); }
double sym_uf3(const char* n, double x, double y, double z) { return uf(n, {x, y, z}); }
bool sym_isnan(double x) { return x != x; }
int sym_engine(void) { return 0; }
double sym_exp(double x) { return std::exp(x); } double sym_ln(double x) { return std::log(x); }
double sym_atan(double x) { return std::atan(x); } double sym_sin(double x) { return std::sin(x); }
double sym_cos(double x) { return std::cos(x); } double sym_sqrt(double x) { return std::sqrt(x); }
}
int main(int argc, char** argv) {
	if (argc < 3) return 2;
	FILE* f = fopen(argv[2], "r");
	if (!f) return 2;
	char kind[8], name[128];
	while (fscanf(f, "%7s %127s", kind, name) == 2) {
		if (kind[0] == 'r') { double v; if (fscanf(f, "%lf", &v) != 1) return 2; R()[name] = v; }
		else if (kind[0] == 'b') { unsigned long long b; if (fscanf(f, "%llu", &b) != 1) return 2; double v; uint64_t u = b; memcpy(&v, &u, 8); R()[name] = v; }
		else if (kind[0] == 'i') { char s[64]; if (fscanf(f, "%63s", s) != 1) return 2; I()[name] = s[0] == '-' ? (uint64_t) strtoll(s, 0, 10) : strtoull(s, 0, 10); }
		else if (kind[0] == 'u') { int n; if (fscanf(f, "%d", &n) != 1) return 2; Pt p; p.a.resize(n); for (auto& x : p.a) if (fscanf(f, "%lf", &x) != 1) return 2; if (fscanf(f, "%lf", &p.v) != 1) return 2; U()[name].push_back(p); }
	}
	fclose(f);
	if (argc > 3) { seed = strtoull(argv[3], 0, 10); rnd(0); rnd(0); rec = fopen(argv[2], "a"); }
	std::string s = std::string("h_") + argv[1];
	void (*h)() = (void (*)()) dlsym(RTLD_DEFAULT, s.c_str());
	if (!h) { fprintf(stderr, "no harness %s\n", s.c_str()); return 2; }
	h();
	printf("CHECKS %d FAILS %d WORST %g\n", checks, fails, worst);
	fflush(stdout);
	_Exit(fails ? 1 : 0);
}

// Harness interface. Under the symbolic executor these are intercepted; in the
// native replay build they are implemented by replay.cpp (inputs come from a file).
#ifndef SYM_H
#define SYM_H
#include <cstdint>
#include <cerrno>
#include <cstddef>
extern "C" {
double sym_real(const char* name);                          // any real (any double in fp mode)
double sym_real_in(const char* name, double lo, double hi); // lo <= x <= hi
uint64_t sym_u64(const char* name);
uint32_t sym_u32(const char* name);
int64_t sym_int_in(const char* name, int64_t lo, int64_t hi);  // symbolic bit-vector in a range
int64_t sym_choose(const char* name, int64_t lo, int64_t hi);  // forks on every value
void sym_assume(bool c);
void sym_check(bool c, const char* id);
void sym_eq(double a, double b, const char* id);            // equal (natively: up to rounding)
void sym_near(double a, double b, double tol, const char* id);
void sym_le(double a, double b, const char* id);
double sym_uf1(const char* name, double x);                 // arbitrary function
double sym_uf2(const char* name, double x, double y);
double sym_uf3(const char* name, double x, double y, double z);
bool sym_isnan(double x);
int sym_engine(void);                                       // 1 under the executor
double sym_exp(double); double sym_ln(double); double sym_atan(double);
double sym_sin(double); double sym_cos(double); double sym_sqrt(double);
}
// HARNESS(name, "options") { body }: options are read by the runner from the global o_<name>
#ifndef SYM_PREFIX
#define SYM_PREFIX
#endif
#define SYM_CAT_(a, b, c) a##b##c
#define SYM_CAT(a, b, c) SYM_CAT_(a, b, c)
#define HARNESS(name, opts, claim) extern "C" { extern const char SYM_CAT(o_, SYM_PREFIX, name)[]; \
	const char SYM_CAT(o_, SYM_PREFIX, name)[] = opts "|" claim; void SYM_CAT(h_, SYM_PREFIX, name)(); } \
	extern "C" __attribute__((noinline)) void SYM_CAT(h_, SYM_PREFIX, name)()

// "p" + up to three indices, as a symbol name
struct nm {
	char s[32]; int n;
	void put(const char* t) { while (*t) s[n++] = *t++; }
	void num(int i) { if (i >= 1000) s[n++] = '0' + (i / 1000) % 10; if (i >= 100) s[n++] = '0' + (i / 100) % 10; if (i >= 10) s[n++] = '0' + (i / 10) % 10; s[n++] = '0' + i % 10; }
	nm(const char* p) : n(0) { put(p); s[n] = 0; }
	nm(const char* p, int i) : n(0) { put(p); num(i); s[n] = 0; }
	nm(const char* p, int i, int j) : n(0) { put(p); num(i); s[n++] = '_'; num(j); s[n] = 0; }
	operator const char*() const { return s; }
};
#endif

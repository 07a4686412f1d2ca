// A minimal OpenMP runtime for native replays: a team of real threads per parallel region,
// statically scheduled, so that the thread sanitizer sees the accesses of every thread.
#include <cstdarg>
#include <cstdint>
#include <pthread.h>
#include <cstdlib>
enum { T = 8 };
typedef void (*body)(int*, int*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*);
struct job { body f; void* a[10]; int tid; };
static void* run(void* p) { job* j = (job*) p; int g = j->tid, b = j->tid; void** a = j->a; j->f(&g, &b, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]); return 0; }
extern "C" {
void __kmpc_fork_call(void*, int n, void* f, ...) {
	job j[T]; pthread_t t[T]; va_list l; va_start(l, f); void* a[10] = {0};
	if (n > 10) abort();
	for (int i = 0; i < n; ++i) a[i] = va_arg(l, void*);
	va_end(l);
	for (int k = 0; k < T; ++k) { j[k].f = (body) f; j[k].tid = k; for (int i = 0; i < 10; ++i) j[k].a[i] = a[i]; }
	for (int k = 0; k < T; ++k) pthread_create(&t[k], 0, run, &j[k]);
	for (int k = 0; k < T; ++k) pthread_join(t[k], 0);
}
int __kmpc_global_thread_num(void*) { return 0; }
void __kmpc_for_static_fini(void*, int) {}
}
template<typename I> static void init(int tid, int sched, int* last, I* lo, I* up, I* stride, I incr, I chunk) {
	I n = *up >= *lo ? (*up - *lo) / incr + 1 : 0, c = sched == 33 ? chunk : (n + T - 1) / T, u = *up, b = *lo;
	*stride = c * T * incr; *last = 0;
	if (c == 0 || (I) tid * c >= n) { *lo = u + 1; *up = u; return; }
	*lo = b + (I) tid * c * incr; *up = *lo + (c - 1) * incr; if (sched != 33 && *up > u) *up = u;
	*last = n <= (I) tid * c + c;
}
extern "C" {
void __kmpc_for_static_init_4(void*, int t, int s, int* l, int32_t* a, int32_t* b, int32_t* st, int32_t i, int32_t c) { init<int32_t>(t, s, l, a, b, st, i, c); }
void __kmpc_for_static_init_4u(void*, int t, int s, int* l, uint32_t* a, uint32_t* b, uint32_t* st, uint32_t i, uint32_t c) { init<uint32_t>(t, s, l, a, b, st, i, c); }
void __kmpc_for_static_init_8(void*, int t, int s, int* l, int64_t* a, int64_t* b, int64_t* st, int64_t i, int64_t c) { init<int64_t>(t, s, l, a, b, st, i, c); }
void __kmpc_for_static_init_8u(void*, int t, int s, int* l, uint64_t* a, uint64_t* b, uint64_t* st, uint64_t i, uint64_t c) { init<uint64_t>(t, s, l, a, b, st, i, c); }
}

// C30: two threads, each with its own codec object. The codec code is compiled with memory access callbacks
// (-fsanitize=thread instrumentation, no runtime); the callbacks below record footprints and act as the scheduler.
#include "machines.hh"
#include <pthread.h>
#include <semaphore.h>
// operation -1: construction of the object
#define RAW __attribute__((disable_sanitizer_instrumentation, no_sanitize("thread")))
// bytes accessed, by 8-byte granule
struct Foot {
	struct E { u64 key; u8 r, w; }; std::vector<E> t; size_t used;
	RAW Foot() : used(0) { t.resize(1 << 12, E{0, 0, 0}); }
	RAW void clear() { for (size_t i = 0; i < t.size(); ++i) t[i] = E{0, 0, 0}; used = 0; }
	RAW void put(u64 key, u8 mask, bool w) { size_t n = t.size() - 1, i = (key * 0x9E3779B97F4A7C15ull >> 20) & n; for (;; i = (i + 1) & n) { E &e = t[i]; if (e.key == key) { (w ? e.w : e.r) |= mask; return; } if (!e.key) { e.key = key; (w ? e.w : e.r) |= mask; if (++used * 2 > t.size()) grow(); return; } } }
	RAW void grow() { std::vector<E> o; o.swap(t); t.resize(o.size() * 2, E{0, 0, 0}); used = 0; for (auto &e : o) if (e.key) { if (e.r) put(e.key, e.r, false); if (e.w) put(e.key, e.w, true); } }
	RAW void add(u64 a, u64 n, bool w) { while (n) { u64 o = a & 7, c = std::min<u64>(n, 8 - o); put(a >> 3, (u8)(((1u << c) - 1) << o), w); a += c; n -= c; } }
	RAW const E *find(u64 key) const { size_t n = t.size() - 1, i = (key * 0x9E3779B97F4A7C15ull >> 20) & n; for (;; i = (i + 1) & n) { if (t[i].key == key) return &t[i]; if (!t[i].key) return nullptr; } }
};
struct Worker {
	pthread_t th; sem_t go, done; std::function<void()> *task = nullptr; u64 lo = 0, hi = 0;   // stack
	Foot foot; u64 count = 0, stop = ~0ull; Worker *other = nullptr; bool recording = false, finished = true, quit = false; u8 *arena = nullptr; size_t at = 0;
};
static Worker wk[2]; static sem_t main_sem; static thread_local Worker *self; static thread_local bool active;
static const size_t ARENA = 8 << 20;
RAW static void pass(Worker *to) { sem_post(&to->go); }
RAW static void access(const volatile void *p, u64 n, bool w)
{
	if (!active) return;
	Worker *s = self; u64 a = (u64)p;
	if (a >= s->lo && a < s->hi) return;   // own stack
	if (s->recording) { active = false; s->foot.add(a, n, w); active = true; }
	if (s->count++ == s->stop) { active = false; Worker *o = s->other; sem_post(&o->go); while (sem_wait(&s->go)) ; active = true; }
}
#define HOOK(n) extern "C" { RAW void __tsan_read##n(void *p) { access(p, n, false); } RAW void __tsan_write##n(void *p) { access(p, n, true); } RAW void __tsan_unaligned_read##n(void *p) { access(p, n, false); } RAW void __tsan_unaligned_write##n(void *p) { access(p, n, true); } RAW void __tsan_read_write##n(void *p) { access(p, n, false); access(p, n, true); } RAW void __tsan_unaligned_read_write##n(void *p) { access(p, n, false); access(p, n, true); } }
HOOK(1) HOOK(2) HOOK(4) HOOK(8) HOOK(16)
extern "C" {
RAW void __tsan_init() {} RAW void __tsan_func_entry(void *) {} RAW void __tsan_func_exit() {} RAW void __tsan_ignore_thread_begin() {} RAW void __tsan_ignore_thread_end() {}
RAW void __tsan_vptr_read(void **p) { access(p, 8, false); } RAW void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
RAW void __tsan_read_range(void *p, u64 n) { access(p, n, false); } RAW void __tsan_write_range(void *p, u64 n) { access(p, n, true); }
RAW void *__tsan_memcpy(void *d, const void *s, u64 n) { if (n) { access(s, n, false); access(d, n, true); } return memcpy(d, s, n); }
RAW void *__tsan_memmove(void *d, const void *s, u64 n) { if (n) { access(s, n, false); access(d, n, true); } return memmove(d, s, n); }
RAW void *__tsan_memset(void *d, int v, u64 n) { if (n) access(d, n, true); return memset(d, v, n); }
// used by the standard library in the harness, and by magic statics
#define ATOM(b, T) RAW T __tsan_atomic##b##_load(const volatile T *p, int) { return __atomic_load_n(p, 5); } RAW void __tsan_atomic##b##_store(volatile T *p, T v, int) { __atomic_store_n(p, v, 5); } RAW T __tsan_atomic##b##_exchange(volatile T *p, T v, int) { return __atomic_exchange_n(p, v, 5); } RAW T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int) { return __atomic_fetch_add(p, v, 5); } RAW T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int) { return __atomic_fetch_sub(p, v, 5); } RAW T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int) { return __atomic_fetch_or(p, v, 5); } RAW T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int) { return __atomic_fetch_and(p, v, 5); } RAW T __tsan_atomic##b##_fetch_xor(volatile T *p, T v, int) { return __atomic_fetch_xor(p, v, 5); } RAW int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } RAW int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int, int) { return __atomic_compare_exchange_n(p, c, v, 0, 5, 5); } RAW T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int, int) { __atomic_compare_exchange_n(p, &c, v, 0, 5, 5); return c; }
ATOM(8, u8) ATOM(16, u16) ATOM(32, u32) ATOM(64, u64)
RAW void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(5); } RAW void __tsan_atomic_signal_fence(int) {}
}
// memory a codec might allocate during a call: private to the thread, never reused within a run
RAW void *operator new(size_t n) { if (active) { Worker *s = self; n = (n + 63) & ~(size_t)63; if (s->at + n <= ARENA) { void *p = s->arena + s->at; s->at += n; return p; } } void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
RAW void operator delete(void *p) noexcept { for (auto &w : wk) if (w.arena && (u8 *)p >= w.arena && (u8 *)p < w.arena + ARENA) return; free(p); }
RAW void operator delete(void *p, size_t) noexcept { operator delete(p); }
RAW void *operator new[](size_t n) { return operator new(n); }
RAW void operator delete[](void *p) noexcept { operator delete(p); }
RAW void operator delete[](void *p, size_t) noexcept { operator delete(p); }
RAW static void *body(void *v)
{
	Worker *w = (Worker *)v; self = w; pthread_attr_t at; void *sp; size_t sn; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &sp, &sn); pthread_attr_destroy(&at);
	w->lo = (u64)sp; w->hi = (u64)sp + sn;   // includes this thread's own thread-local storage
	sem_post(&main_sem);
	for (;;) {
		while (sem_wait(&w->go)) ;
		if (w->quit) return nullptr;
		(*w->task)();
		w->finished = true;
		if (w->other->finished) sem_post(&main_sem); else sem_post(&w->other->go);
	}
}
static void start() { sem_init(&main_sem, 0, 0); for (int i = 0; i < 2; ++i) { wk[i].other = &wk[!i]; wk[i].arena = (u8 *)aligned_alloc(4096, ARENA); sem_init(&wk[i].go, 0, 0); pthread_create(&wk[i].th, nullptr, body, &wk[i]); while (sem_wait(&main_sem)) ; } }
struct Side { const Mach *m; int op; Room *o; Args a; By want, got; u64 accesses; std::function<void()> task; };
// runs both calls; thread 0 is preempted before its access number i0 (and the other before number i1)
static void both(Side *s, int first, u64 i0, u64 i1, bool rec)
{
	for (int i = 0; i < 2; ++i) { Worker &w = wk[i]; w.count = 0; w.stop = i ? i1 : i0; w.recording = rec; w.finished = false; w.at = 0; if (rec) w.foot.clear(); s[i].a.clear(); if (s[i].op >= 0) s[i].m->prep(s[i].op, s[i].a); w.task = &s[i].task; }
	sem_post(&wk[first].go); while (sem_wait(&main_sem)) ;
	for (int i = 0; i < 2; ++i) { s[i].a.result(s[i].got); s[i].accesses = wk[i].count; }
	++transitions;
}
static void verify(Side *s, const char *how, u64 i0, u64 i1)
{
	++states;
	for (int i = 0; i < 2; ++i) MC_CHECK(s[i].got == s[i].want, "%s operation %d in one thread, %s operation %d in another, %s (preemption at accesses %lld, %lld): the %s gives another result than alone", s[0].m->name.c_str(), s[0].op, s[1].m->name.c_str(), s[1].op, how, (long long)i0, (long long)i1, i ? "second" : "first");
}
static u64 npos, ngrid;
static void pair(const Mach &x, int ox, const Mach &y, int oy, u64 limit, u64 limit2)
{
	Side s[2]; Room r0(x.size, 0x21), r1(y.size, 0x43); s[0].m = &x; s[1].m = &y; s[0].op = ox; s[1].op = oy; s[0].o = &r0; s[1].o = &r1; x.make(r0.p); y.make(r1.p);
	for (int i = 0; i < 2; ++i) { Side *q = &s[i]; q->task = [q]() RAW { active = true; if (q->op >= 0) q->m->exec(q->o->p, q->op, q->a); else q->m->make(q->o->p); active = false; }; }
	auto fresh = [&] { if (x.stream) x.make(r0.p); if (y.stream) y.make(r1.p); };
	for (int i = 0; i < 2; ++i) { s[i].a.clear(); if (s[i].op >= 0) { s[i].m->prep(s[i].op, s[i].a); s[i].m->exec(s[i].o->p, s[i].op, s[i].a); } s[i].a.result(s[i].want); }
	fresh(); both(s, 0, ~0ull, ~0ull, true); verify(s, "one after the other", -1, -1);
	// footprints: nothing one of them writes may be touched by the other
#ifndef NOFOOT
	for (auto &e : wk[0].foot.t) if (e.key) if (auto *f = wk[1].foot.find(e.key)) MC_CHECK(!((e.w & (f->r | f->w)) | (f->w & e.r)), "%s operation %d and %s operation %d of different objects both access address %#llx and at least one writes it", x.name.c_str(), ox, y.name.c_str(), oy, (unsigned long long)e.key * 8);
#endif
	u64 n[2] = {s[0].accesses, s[1].accesses};
	// one preemption of either thread, at every access; the other thread runs to its end meanwhile
	for (int f = 0; f < 2; ++f) { u64 step = n[f] / limit + 1; for (u64 i = 0; i < n[f]; i += step) { fresh(); both(s, f, f ? ~0ull : i, f ? i : ~0ull, false); verify(s, "one preemption", f ? -1 : i, f ? i : -1); ++npos; } if (step > 1) ++ngrid; }
	// two preemptions: first thread stopped at i, second at j, first finishes, second finishes
	u64 s0 = n[0] / limit2 + 1, s1 = n[1] / limit2 + 1;
	for (u64 i = 0; i < n[0]; i += s0) for (u64 j = 0; j < n[1]; j += s1) { fresh(); both(s, 0, i, j, false); verify(s, "two preemptions", i, j); ++npos; }
	x.destroy(r0.p); y.destroy(r1.p); ++traces;
}
void mc_register()
{
	static Machs m; bool big = false;
#if PART == 0
	rs_all(m, 0);
#elif PART == 1
	rs_all(m, 1);
#elif PART == 2
	short_all(m);
#elif PART == 3
	polar_all(m, 0);
#elif PART == 4
	polar_all(m, 1);
#elif PART == 5
	polar_all(m, 2);
#elif PART == 6
	ldpc_all(m, 0);
#elif PART == 7
	ldpc_all(m, 1); big = true;
#elif PART == 9
	misc_all(m);
#elif defined(MACH_UTIL)
	util_all(m);
#endif
	for (auto &x : m) job(x.name, [&x, big] {
		start(); u64 full = thorough ? 20000 : big ? 20 : 2500, few = thorough ? 600 : big ? 4 : 60, two = thorough ? 60 : big ? 2 : 16;
		for (int a = 0; a < std::min(x.ops, 4); ++a) for (int b = a; b < std::min(x.ops, 4); ++b) pair(x, a, x, b, a + 1 == b ? full : few, a + 1 == b ? two : 2);
		pair(x, -1, x, 1 % x.ops, few, 2); pair(x, -1, x, -1, few, 2);
		for (auto &y : m) if (&y != &x) pair(x, 1 % x.ops, y, 2 % y.ops, few, 3);
		MC_SAMPLE("%s: %llu schedules", x.name.c_str(), (unsigned long long)npos);
	});
}

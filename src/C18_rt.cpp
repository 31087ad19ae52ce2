// Thread interleavings: a controlled scheduler around the real code.  Every
// access to memory in the instrumented part (the library, its callers and the
// templates of the standard library) comes here through the compiler's race
// detector interface; the threads are real ones, but only one runs at a time,
// and another one may be chosen at each scheduling point:
//  - an access to a location written by one thread and accessed by another one
//    (found on the go; the exploration is restarted when the set grows),
//  - atomic operations, mutexes, once flags, guards of static variables,
//  - calls of the C library which convert or set global state,
//  - boundaries of operations.
// Races are detected by vector clocks in every execution.  Each execution is a
// freshly forked process, so lazy initialization takes place in each of them.
#include "mc.h"
#include "C18.h"
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <clocale>
#include <cwchar>
#include <deque>
#include <new>

namespace {

constexpr int max_threads = 3;
constexpr uint32_t max_points = 4000;

enum Why { w_start, w_access, w_sync, w_extern, w_bound, w_block, w_end };

struct Point { uint8_t enabled, running_enabled, choice, why; };

struct Exec {                       // shared with the forked execution
	uint32_t plen; uint8_t prefix[max_points];
	uint32_t n; Point pt[max_points];
	uint32_t over;                  // points beyond the maximum
	uint32_t grew; uint64_t accesses, syncs;
	int failed; char msg[1500];
	int diverged, done;
	uint32_t nracy; uint64_t racy[4096]; // granules (open addressing)
};
Exec* X;

struct VC { uint32_t c[max_threads]; void join(const VC& o) { for (int i = 0; i < max_threads; ++i) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct Thread {
	int id; pthread_t th; sem_t sem; bool finished, blocked; const void* on; VC vc;
	uintptr_t lo, hi;
	int nops; int ops[4]; int cur; OpResult res[4]; void* bufs;
	char* arena; size_t used;
};
Thread T[max_threads]; int NT;
bool controlled;
thread_local Thread* self;
int last_run; uint32_t streak;

constexpr size_t arena_size = 8 << 20;

// --- shadow memory
struct Cell { uintptr_t a; int8_t wt; uint8_t rmask, wmask; uint32_t wclk; uint32_t rclk[max_threads]; };
constexpr size_t cells = size_t(1) << 19;
Cell* shadow; size_t ncells;
struct Sync { const void* a; VC vc; int owner; int depth; };
Sync syncs[4096]; int nsyncs;
sem_t all_done;

void give_up(int code) { X->done = 1; _exit(code); }
void report(const char* f, ...)
{
	if (X->failed) give_up(9);
	va_list ap; va_start(ap, f); vsnprintf(X->msg, sizeof X->msg, f, ap); va_end(ap);
	X->failed = 1;
	give_up(9);
}

Cell* cell(uintptr_t a)
{
	size_t h = ((((a >> 6) * 0x9E3779B97F4A7C15ull) >> 51) << 6) | (a & 63); // neighbours stay together
	for (;; h = (h + 1) & (cells - 1)) {
		if (shadow[h].a == a) return &shadow[h];
		if (!shadow[h].a) { if (++ncells > cells * 3 / 4) return nullptr; shadow[h].a = a; shadow[h].wt = -1; return &shadow[h]; }
	}
}
Sync& sync_of(const void* a)
{
	for (int i = 0; i < nsyncs; ++i) if (syncs[i].a == a) return syncs[i];
	if (nsyncs == 4096) { nsyncs = 0; }
	Sync& s = syncs[nsyncs++]; std::memset(&s, 0, sizeof s); s.a = a; s.owner = -1; return s;
}
bool racy_has(uint64_t g) { for (uint32_t h = uint32_t((g * 0x9E3779B97F4A7C15ull) >> 52);; h = (h + 1) & 4095) { if (X->racy[h] == g) return true; if (!X->racy[h]) return false; } }
void racy_add(uint64_t g)
{
	if (X->nracy >= 3000) return;
	for (uint32_t h = uint32_t((g * 0x9E3779B97F4A7C15ull) >> 52);; h = (h + 1) & 4095) { if (X->racy[h] == g) return; if (!X->racy[h]) { X->racy[h] = g; ++X->nracy; X->grew = 1; return; } }
}

void wait_turn(Thread* t) { while (sem_wait(&t->sem)) {} }

// chooses who runs next; the caller is `t`, which may be not able to run any more
void schedule(Thread* t, Why why, bool forced_away = false)
{
	Thread* en[max_threads]; int n = 0;
	const bool me = !t->finished && !t->blocked && !forced_away;
	if (me) en[n++] = t;
	for (int i = 0; i < NT; ++i) if (&T[i] != t && !T[i].finished && !T[i].blocked) en[n++] = &T[i];
	if (forced_away && n == 0) return;
	if (n == 0) {
		for (int i = 0; i < NT; ++i) if (!T[i].finished) report("deadlock: no thread can continue");
		sem_post(&all_done); return;
	}
	int c = 0;
	if (n > 1) {
		if (X->n < max_points) {
			if (X->n < X->plen) { c = X->prefix[X->n]; if (c >= n) { X->diverged = 1; give_up(8); } }
			X->pt[X->n++] = Point{ uint8_t(n), uint8_t(me), uint8_t(c), uint8_t(why) };
		} else X->over++;
	}
	if (en[c] == t) return;
	streak = 0;
	sem_post(&en[c]->sem);
	if (t->finished) return;
	wait_turn(t);
}
void spin_guard(Thread* t) { if (++streak > 20000) { streak = 0; if (++last_run > 2000) report("livelock: threads only wait for each other"); schedule(t, w_block, true); } }

const char* where(uintptr_t a) { static char b[200]; Dl_info i; if (dladdr((void*)a, &i) && i.dli_sname) snprintf(b, sizeof b, "%s+%zu", i.dli_sname, size_t(a - (uintptr_t)i.dli_saddr)); else snprintf(b, sizeof b, "memory at %p", (void*)a); return b; }
std::string op_name(int t) { return "thread " + std::to_string(t) + (T[t].cur < T[t].nops ? " (" + show_op(T[t].ops[T[t].cur]) + ")" : ""); }

void access(const void* p, size_t n, bool w)
{
	Thread* t = self;
	if (!t || !n) return;
	const uintptr_t a = uintptr_t(p);
	if (a >= t->lo && a < t->hi) return;
	X->accesses++;
	bool hit = false;
	for (uintptr_t g = a >> 3; g <= (a + n - 1) >> 3 && !hit; ++g) hit = X->nracy && racy_has(g);
	if (hit) { schedule(t, w_access); spin_guard(t); }
	for (size_t i = 0; i < n; ++i) {
		Cell* c = cell(a + i);
		if (!c) return;
		const uint8_t bit = uint8_t(1 << t->id);
		if (c->wt >= 0 && c->wt != t->id && c->wclk > t->vc.c[c->wt]) { Thread* s = self; self = nullptr; std::string x = op_name(t->id), y = op_name(c->wt); report("data race on %s: %s by %s, write by %s", where(a + i), w ? "write" : "read", x.c_str(), y.c_str()); self = s; }
		if (w) {
			for (int k = 0; k < NT; ++k) if (k != t->id && c->rclk[k] > t->vc.c[k]) { Thread* s = self; self = nullptr; std::string x = op_name(t->id), y = op_name(k); report("data race on %s: write by %s, read by %s", where(a + i), x.c_str(), y.c_str()); self = s; }
			c->wt = int8_t(t->id); c->wclk = t->vc.c[t->id]; c->wmask |= bit;
		} else { c->rclk[t->id] = t->vc.c[t->id]; c->rmask |= bit; }
		if (c->wmask && ((c->wmask | c->rmask) & ((c->wmask | c->rmask) - 1))) racy_add((a + i) >> 3);
	}
}
void acquire(const void* p) { if (self) self->vc.join(sync_of(p).vc); }
void release(const void* p) { if (self) { sync_of(p).vc.join(self->vc); self->vc.c[self->id]++; } }
void sync_point() { if (self) { X->syncs++; schedule(self, w_sync); spin_guard(self); } }
void block_on(const void* p) { Thread* t = self; t->blocked = true; t->on = p; schedule(t, w_block); }
void wake(const void* p) { for (int i = 0; i < NT; ++i) if (T[i].blocked && T[i].on == p) T[i].blocked = false; }

void lock(const void* p)
{
	sync_point();
	for (;;) { Sync& s = sync_of(p); if (s.owner < 0 || s.owner == self->id) { s.owner = self->id; s.depth++; break; } block_on(p); }
	acquire(p);
}
bool try_lock(const void* p) { sync_point(); Sync& s = sync_of(p); if (s.owner >= 0 && s.owner != self->id) return false; s.owner = self->id; s.depth++; acquire(p); return true; }
void unlock(const void* p) { release(p); Sync& s = sync_of(p); if (--s.depth <= 0) { s.owner = -1; s.depth = 0; wake(p); } sync_point(); }

template<typename F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }

} // namespace

extern "C" {

// --- instrumentation interface
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false); } void __tsan_write##n(void* a) { access(a, n, true); } \
	void __tsan_unaligned_read##n(void* a) { access(a, n, false); } void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
	void __tsan_read_write##n(void* a) { access(a, n, false); access(a, n, true); } void __tsan_unaligned_read_write##n(void* a) { access(a, n, false); access(a, n, true); } \
	void __tsan_volatile_read##n(void* a) { access(a, n, false); } void __tsan_volatile_write##n(void* a) { access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true); }
void __tsan_vptr_read(void** a) { access(a, 8, false); }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return __real_memset(d, c, n); }

#define ATOMIC(bits, type) \
	type __tsan_atomic##bits##_load(const volatile type* a, int mo) { sync_point(); type v = __atomic_load_n(a, __ATOMIC_SEQ_CST); if (mo) acquire((const void*)a); return v; } \
	void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { sync_point(); if (mo) release((const void*)a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo) { sync_point(); if (mo) { acquire((const void*)a); release((const void*)a); } return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo) { sync_point(); if (mo) { acquire((const void*)a); release((const void*)a); } return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo) { sync_point(); if (mo) { acquire((const void*)a); release((const void*)a); } return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo) { sync_point(); if (mo) { acquire((const void*)a); release((const void*)a); } return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo) { sync_point(); if (mo) { acquire((const void*)a); release((const void*)a); } return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo) { sync_point(); if (mo) { acquire((const void*)a); release((const void*)a); } return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int mo, int fmo) { sync_point(); int r = __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); if (r ? mo : fmo) acquire((const void*)a); if (r && mo) release((const void*)a); return r; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
	type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int mo, int fmo) { __tsan_atomic##bits##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
static char fence;
void __tsan_atomic_thread_fence(int) { sync_point(); acquire(&fence); release(&fence); }
void __tsan_atomic_signal_fence(int) {}

// --- functions of the C library used by instrumented code
#define WRAP(ret, name, params) ret __real_##name params; ret __wrap_##name params
WRAP(void*, memcpy, (void* d, const void* s, size_t n)) { access(s, n, false); access(d, n, true); return __real_memcpy(d, s, n); }
WRAP(void*, memmove, (void* d, const void* s, size_t n)) { access(s, n, false); access(d, n, true); return __real_memmove(d, s, n); }
WRAP(void*, memset, (void* d, int c, size_t n)) { access(d, n, true); return __real_memset(d, c, n); }
WRAP(int, memcmp, (const void* a, const void* b, size_t n)) { access(a, n, false); access(b, n, false); return __real_memcmp(a, b, n); }
WRAP(void*, memchr, (const void* a, int c, size_t n)) { void* r = __real_memchr(a, c, n); access(a, r ? size_t((char*)r - (char*)a) + 1 : n, false); return r; }
WRAP(wchar_t*, wmemcpy, (wchar_t* d, const wchar_t* s, size_t n)) { access(s, n * 4, false); access(d, n * 4, true); return __real_wmemcpy(d, s, n); }
WRAP(wchar_t*, wmemmove, (wchar_t* d, const wchar_t* s, size_t n)) { access(s, n * 4, false); access(d, n * 4, true); return __real_wmemmove(d, s, n); }
WRAP(wchar_t*, wmemset, (wchar_t* d, wchar_t c, size_t n)) { access(d, n * 4, true); return __real_wmemset(d, c, n); }
WRAP(int, wmemcmp, (const wchar_t* a, const wchar_t* b, size_t n)) { access(a, n * 4, false); access(b, n * 4, false); return __real_wmemcmp(a, b, n); }
WRAP(size_t, strlen, (const char* s)) { size_t n = __real_strlen(s); access(s, n + 1, false); return n; }
WRAP(size_t, wcslen, (const wchar_t* s)) { size_t n = __real_wcslen(s); access(s, (n + 1) * 4, false); return n; }
WRAP(char*, strcpy, (char* d, const char* s)) { size_t n = __real_strlen(s) + 1; access(s, n, false); access(d, n, true); return __real_strcpy(d, s); }
WRAP(int, strcmp, (const char* a, const char* b)) { access(a, __real_strlen(a) + 1, false); access(b, __real_strlen(b) + 1, false); return __real_strcmp(a, b); }
#define CONV(ret, name, ch, len) WRAP(ret, name, (const ch* s, ch** e)) { if (self) { access(s, (len(s) + 1) * sizeof(ch), false); schedule(self, w_extern); } ret r = __real_##name(s, e); if (e) access(e, sizeof *e, true); if (self) schedule(self, w_extern); return r; }
CONV(double, strtod, char, __real_strlen) CONV(float, strtof, char, __real_strlen) CONV(long double, strtold, char, __real_strlen)
CONV(double, wcstod, wchar_t, __real_wcslen) CONV(float, wcstof, wchar_t, __real_wcslen) CONV(long double, wcstold, wchar_t, __real_wcslen)

static long locale_cell;
char* setlocale(int c, const char* l)
{
	static auto f = real<char* (*)(int, const char*)>("setlocale");
	if (self) { schedule(self, w_extern); access(&locale_cell, 8, l != nullptr); }
	return f(c, l);
}
lconv* localeconv() { static auto f = real<lconv* (*)()>("localeconv"); if (self) access(&locale_cell, 8, true); return f(); }

// --- synchronization
int __cxa_guard_acquire(uint64_t* g)
{
	volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g);
	if (!self) { if (b[0]) return 0; b[1] = 1; return 1; }
	sync_point();
	for (;;) {
		if (b[0]) { acquire(g); return 0; }
		if (!b[1]) { b[1] = 1; acquire(g); return 1; }
		block_on(g);
	}
}
void __cxa_guard_release(uint64_t* g) { volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g); b[1] = 0; b[0] = 1; if (self) { release(g); wake(g); sync_point(); } }
void __cxa_guard_abort(uint64_t* g) { volatile uint8_t* b = reinterpret_cast<volatile uint8_t*>(g); b[1] = 0; if (self) { release(g); wake(g); sync_point(); } }

#define LOCKS(l, t, u, type) \
	int l(type* m) noexcept { if (self) { lock(m); return 0; } static auto f = real<int (*)(type*)>(#l); return f(m); } \
	int t(type* m) noexcept { if (self) return try_lock(m) ? 0 : EBUSY; static auto f = real<int (*)(type*)>(#t); return f(m); } \
	int u(type* m) noexcept { if (self) { unlock(m); return 0; } static auto f = real<int (*)(type*)>(#u); return f(m); }
LOCKS(pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_unlock, pthread_mutex_t)
LOCKS(pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_unlock, pthread_rwlock_t)
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { if (self) { lock(m); return 0; } static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { if (self) return try_lock(m) ? 0 : EBUSY; static auto f = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); return f(m); }
int pthread_spin_lock(pthread_spinlock_t* m) noexcept { if (self) { lock((const void*)m); return 0; } static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_lock"); return f(m); }
int pthread_spin_unlock(pthread_spinlock_t* m) noexcept { if (self) { unlock((const void*)m); return 0; } static auto f = real<int (*)(pthread_spinlock_t*)>("pthread_spin_unlock"); return f(m); }
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
	static auto f = real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
	if (!self) return f(o, fn);
	sync_point();
	for (;;) {
		Sync& s = sync_of(o);
		if (*(volatile int*)o == 2) { acquire(o); return 0; } // done, the same value glibc uses
		if (s.owner < 0) {
			s.owner = self->id;
			try { fn(); } catch (...) { sync_of(o).owner = -1; release(o); wake(o); throw; }
			*(volatile int*)o = 2;
			sync_of(o).owner = -1; release(o); wake(o); sync_point(); return 0;
		}
		block_on(o);
	}
}
int sched_yield() noexcept { if (self) { if (++last_run > 200000) report("livelock: threads only wait for each other"); schedule(self, w_block, true); return 0; } static auto f = real<int (*)()>("sched_yield"); return f(); }
void sched_point_external(int) { if (self) schedule(self, w_extern); }

// --- memory: no reuse between threads
extern void* __libc_malloc(size_t); extern void __libc_free(void*); extern void* __libc_realloc(void*, size_t); extern void* __libc_calloc(size_t, size_t); extern void* __libc_memalign(size_t, size_t);
}
static bool in_arena(const void* p, size_t& n) { for (int i = 0; i < NT; ++i) if (T[i].arena && p >= T[i].arena && p < T[i].arena + arena_size) { n = reinterpret_cast<const size_t*>(p)[-1]; return true; } return false; }
static void* take(size_t n) { Thread* t = self; size_t k = (n + 31) / 16 * 16; if (t->used + k + 32 > arena_size) return nullptr; char* p = t->arena + t->used + 16; t->used += k + 16; reinterpret_cast<size_t*>(p)[-1] = n; return p; }
extern "C" {
void* malloc(size_t n) { return self && self->arena ? take(n) : __libc_malloc(n); }
void free(void* p) { size_t n; if (!p) return; if (controlled && in_arena(p, n)) { access(p, n, true); return; } __libc_free(p); }
void* calloc(size_t n, size_t m) { if (self && self->arena) { void* p = take(n * m); if (p) __real_memset(p, 0, n * m); return p; } return __libc_calloc(n, m); }
void* realloc(void* p, size_t m)
{
	size_t n;
	if (controlled && p && in_arena(p, n)) { void* q = self ? take(m) : __libc_malloc(m); if (q) __real_memcpy(q, p, std::min(n, m)); return q; }
	if (self && self->arena && !p) return take(m);
	return __libc_realloc(p, m);
}
}

namespace {

struct Harness { int nt, warm; int nops[max_threads]; int ops[max_threads][2]; };

void encode(mc::Case& c, const Harness& h, const uint8_t* s, uint32_t n)
{
	uint32_t k = 0; c.text[k++] = char(h.nt); c.text[k++] = char(h.warm);
	for (int i = 0; i < h.nt; ++i) { c.text[k++] = char(h.nops[i]); for (int j = 0; j < h.nops[i]; ++j) c.text[k++] = char(h.ops[i][j]); }
	c.a = k; for (uint32_t i = 0; i < n && k < mc::text_max - 1; ++i) c.text[k++] = char(s[i]);
	c.len = k;
}
void decode(const mc::Case& c, Harness& h, std::vector<uint8_t>& s)
{
	uint32_t k = 0; h = Harness(); h.nt = c.text[k++]; h.warm = c.text[k++];
	for (int i = 0; i < h.nt; ++i) { h.nops[i] = c.text[k++]; for (int j = 0; j < h.nops[i]; ++j) h.ops[i][j] = (unsigned char)c.text[k++]; }
	s.assign(c.text + k, c.text + c.len);
}
std::string show_harness(const mc::Case& c)
{
	Harness h; std::vector<uint8_t> s; decode(c, h, s); std::string r;
	for (int i = 0; i < h.nt; ++i) { r += (i ? " || " : ""); for (int j = 0; j < h.nops[i]; ++j) r += (j ? "; " : "") + show_op(h.ops[i][j]); }
	if (h.warm) r += " (after a sequential run)";
	r += " schedule ["; for (uint8_t x : s) r += char('0' + x); return r + "]";
}

std::vector<OpResult> expected;

void* body(void* p)
{
	Thread* t = static_cast<Thread*>(p);
	pthread_attr_t at; void* lo; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &n); pthread_attr_destroy(&at);
	t->lo = uintptr_t(lo); t->hi = uintptr_t(lo) + n;
	const uintptr_t tp = uintptr_t(pthread_self()); if (t->hi < tp + 8192) t->hi = tp + 8192;
	wait_turn(t);
	self = t;
	for (t->cur = 0; t->cur < t->nops; ++t->cur) {
		schedule(t, w_bound);
		run_op(t->ops[t->cur], t->bufs, &t->res[t->cur]);
	}
	self = nullptr;
	t->finished = true;
	schedule(t, w_end);
	return nullptr;
}

// one execution, in a fresh process
void child(const Harness& h)
{
	rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
	NT = h.nt; nsyncs = 0; ncells = 0; last_run = 0; streak = 0;
	sem_init(&all_done, 0, 0);
	for (int i = 0; i < NT; ++i) {
		Thread& t = T[i]; t.id = i; t.nops = h.nops[i]; t.cur = 0; for (int j = 0; j < t.nops; ++j) t.ops[j] = h.ops[i][j];
		sem_init(&t.sem, 0, 0); t.finished = t.blocked = false; t.vc = VC(); t.vc.c[i] = 1; t.used = 0;
	}
	if (h.warm) { static void* b = make_bufs(); OpResult r; for (int i = 0; i < NT; ++i) for (int j = 0; j < h.nops[i]; ++j) { run_op(h.ops[i][j], b, &r); if (std::memcmp(&r, &expected[size_t(h.ops[i][j])], sizeof r)) report("%s, run sequentially before the threads: %s, alone: %s", show_op(h.ops[i][j]).c_str(), show_result(r).c_str(), show_result(expected[size_t(h.ops[i][j])]).c_str()); } }
	controlled = true;
	for (int i = 0; i < NT; ++i) if (pthread_create(&T[i].th, nullptr, body, &T[i])) _exit(7);
	// the first choice: who starts
	int c = 0;
	if (X->plen) { c = X->prefix[0]; if (c >= NT) { X->diverged = 1; give_up(8); } }
	X->pt[0] = Point{ uint8_t(NT), 0, uint8_t(c), w_start }; X->n = 1;
	sem_post(&T[c].sem);
	for (int i = 0; i < NT; ++i) pthread_join(T[i].th, nullptr);
	controlled = false;
	for (int i = 0; i < NT; ++i) for (int j = 0; j < T[i].nops; ++j)
		if (std::memcmp(&T[i].res[j], &expected[size_t(T[i].ops[j])], sizeof(OpResult)))
			report("thread %d, %s: %s, alone: %s", i, show_op(T[i].ops[j]).c_str(), show_result(T[i].res[j]).c_str(), show_result(expected[size_t(T[i].ops[j])]).c_str());
	give_up(0);
}

enum { o_0, o_1, o_2, o_3, o_racefree, o_shared, o_capped, o_sync, o_diverged };

// executes the schedule of the case; false if it can't be believed
bool execute(mc::Ctx& x, const Harness& h, const std::vector<uint8_t>& s)
{
	x.beat();
	X->plen = uint32_t(s.size()); std::memcpy(X->prefix, s.data(), s.size());
	X->n = X->over = X->grew = 0; X->accesses = X->syncs = 0; X->failed = X->diverged = X->done = 0;
	pid_t p = fork();
	if (!p) { child(h); _exit(0); }
	if (p < 0) { usleep(1000); return false; }
	int st = 0; double t0 = mc::now(); bool hung = false;
	for (int spins = 0;; ++spins) { pid_t r = waitpid(p, &st, spins < 4 && false ? WNOHANG : 0); if (r == p) break; if (mc::now() - t0 > 30) { hung = true; kill(p, SIGKILL); } }
	x.state(X->n); x.step(X->n + 1); x.trace();
	if (X->failed) x.fail("%s", X->msg);
	if (X->diverged) { x.outcome(o_diverged); return false; }
	if (hung) x.fail("doesn't terminate");
	if (WIFSIGNALED(st) && WTERMSIG(st) != SIGKILL) x.fail("killed by signal %s", strsignal(WTERMSIG(st)));
	if (!X->done && !WIFSIGNALED(st) && WEXITSTATUS(st) != 7) x.fail("the process exited unexpectedly");
	return X->done;
}

// harnesses the first pass didn't finish, by hash (shared between the workers)
struct Undone { std::atomic<uint8_t> bits[1 << 21]; };
Undone* U;
uint64_t hash_of(const Harness& h) { uint64_t r = 1469598103934665603ull; auto mix = [&](int v) { r = (r ^ uint64_t(v)) * 1099511628211ull; r ^= r >> 29; }; mix(h.nt); mix(h.warm); for (int i = 0; i < h.nt; ++i) { mix(h.nops[i]); for (int j = 0; j < h.nops[i]; ++j) mix(h.ops[i][j]); } return r & ((1 << 24) - 1); }
void set_undone(const Harness& h) { uint64_t k = hash_of(h); U->bits[k >> 3].fetch_or(uint8_t(1 << (k & 7))); }
bool undone(mc::Ctx& x, const Harness& h) { if (x.replaying) return true; uint64_t k = hash_of(h); return U->bits[k >> 3].load() >> (k & 7) & 1; }

// all schedules with at most `bound` preemptions, those with fewer first
void explore(mc::Ctx& x, const Harness& h, int bound, uint32_t cap)
{
	for (int round = 0; round < 12; ++round) {
		if (round == 0) { X->nracy = 0; std::memset(X->racy, 0, sizeof X->racy); }
		std::vector<std::deque<std::vector<uint8_t>>> q(size_t(bound) + 1);
		q[0].push_back({});
		uint32_t n = 0; bool restart = false, capped = false, sync = false;
		for (int b = 0; b <= bound && !restart && !capped; ++b) while (!q[size_t(b)].empty()) {
			std::vector<uint8_t> s = std::move(q[size_t(b)].front()); q[size_t(b)].pop_front();
			encode(x.c, h, s.data(), uint32_t(s.size()));
			if (!execute(x, h, s)) { if (!execute(x, h, s)) continue; }
			x.outcome(unsigned(o_0 + std::min(b, 3)));
			if (X->syncs) sync = true;
			if (X->grew) { restart = true; break; }
			if (++n >= cap) { capped = true; break; }
			if (x.want_sample()) { x.sample(show_harness(x.c) + " -> " + std::to_string(X->n) + " scheduling points, results as alone"); }
			const uint32_t np = X->n;
			std::vector<uint8_t> ch(np); for (uint32_t i = 0; i < np; ++i) ch[i] = X->pt[i].choice;
			for (uint32_t i = uint32_t(s.size()); i < np; ++i) {
				const int cost = b + X->pt[i].running_enabled;
				if (cost > bound) continue;
				for (int a = 1; a < X->pt[i].enabled; ++a) { std::vector<uint8_t> t(ch.begin(), ch.begin() + i); t.push_back(uint8_t(a)); q[size_t(cost)].push_back(std::move(t)); }
			}
		}
		if (restart) continue;
		x.outcome(X->nracy ? o_shared : o_racefree); if (sync) x.outcome(o_sync); if (capped) { x.outcome(o_capped); set_undone(h); }
		return;
	}
	x.outcome(o_capped); set_undone(h);
}

} // namespace

int main(int argc, char** argv)
{
	X = static_cast<Exec*>(mc::Check::shmap(sizeof(Exec)));
	shadow = static_cast<Cell*>(mmap(nullptr, cells * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	for (int i = 0; i < max_threads; ++i) { T[i].bufs = make_bufs(); T[i].arena = static_cast<char*>(mmap(nullptr, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); }
	U = static_cast<Undone*>(mc::Check::shmap(sizeof(Undone)));
	const int N = op_count();
	// what every operation gives alone, in a fresh process
	OpResult* e = static_cast<OpResult*>(mc::Check::shmap(sizeof(OpResult) * size_t(N)));
	for (int i = 0; i < N; ++i) { pid_t p = fork(); if (!p) { run_op(i, make_bufs(), e + i); _exit(0); } int st; waitpid(p, &st, 0); }
	expected.assign(e, e + N);

	mc::Check c; c.id = "C18";
	std::vector<mc::Domain> later;
	const bool deep = mc::Check::thorough();
	c.describe = show_harness;
	c.outcome_names = { "executions without preemption", "executions with 1 preemption", "executions with 2 preemptions", "executions with 3 preemptions", "harnesses where threads share nothing writable", "harnesses with shared writable memory", "harnesses capped", "harnesses using synchronization", "diverged replays (not believed)" };
	c.assumptions = { "sequentially consistent memory between scheduling points (weaker behaviours of race free programs coincide, races are reported)", "conversions of the C library are atomic steps", "memory isn't reused between threads" };
	c.one = [](mc::Ctx& x) { // a fresh exec area, as replays run in their own process
		X = static_cast<Exec*>(mc::Check::shmap(sizeof(Exec)));
		Harness h; std::vector<uint8_t> s; decode(x.c, h, s); const mc::Case save = x.c;
		// find the shared locations again, then execute the schedule
		for (int r = 0; r < 12; ++r) { if (!s.empty() && r < 11) { execute(x, h, {}); } if (!X->grew) break; }
		x.c = save;
		if (!execute(x, h, s)) explore(x, h, 2, 400);
	};
	// every harness with few executions first, then those which have anything to schedule with many
	c.quick_cap_s = 400;
	const int bound = deep ? 4 : 2; const uint32_t few = 60, many = deep ? 4000 : 600;
	static bool own = false;
	auto mine = [] { if (!own) { X = static_cast<Exec*>(mc::Check::shmap(sizeof(Exec))); own = true; } };
	typedef std::function<void(std::function<void(const Harness&)>, int)> Gen;
	auto add = [&](const std::string& name, const std::string& text, int b, Gen gen) {
		auto run = [=](uint32_t cap, bool rest) { return [=](mc::Ctx& x, uint32_t i) { mine(); gen([&](const Harness& h) { if (rest && !undone(x, h)) return; explore(x, h, b, cap); }, int(i)); }; };
		const std::string t = text + ", all schedules with at most " + std::to_string(b) + " preemptions";
		c.domains.push_back({ name, t + ", those with fewer first, at most " + std::to_string(few) + " executions each", uint32_t(N), run(few, false) });
		later.push_back({ name + "-deeper", t + ", those with fewer first, at most " + std::to_string(many) + " executions each, for the harnesses not finished above", uint32_t(N), run(many, true) });
	};
	for (int warm = 0; warm < 2; ++warm)
		add(warm ? "pairs-warm" : "pairs", std::string("2 threads x 1 operation, all unordered pairs of the alphabet, ") + (warm ? "after both were executed sequentially" : "in a fresh process"), bound, [=](std::function<void(const Harness&)> f, int i) {
			for (int j = i; j < N; ++j) { Harness h{}; h.nt = 2; h.warm = warm; h.nops[0] = h.nops[1] = 1; h.ops[0][0] = i; h.ops[1][0] = j; f(h); } });
	add("two-each", "2 threads x 2 operations: a;b || c;a", bound, [=](std::function<void(const Harness&)> f, int i) {
		for (int j = 0; j < N; j += deep ? 1 : 7) for (int k = 0; k < N; k += deep ? 3 : 9) { Harness h{}; h.nt = 2; h.nops[0] = h.nops[1] = 2; h.ops[0][0] = i; h.ops[0][1] = (j + i) % N; h.ops[1][0] = (k + i) % N; h.ops[1][1] = i; f(h); } });
	add("three", "3 threads x 1 operation: a || b || a and a || b || c", 2, [=](std::function<void(const Harness&)> f, int i) {
		for (int j = 0; j < N; j += deep ? 1 : 3) for (int k = 0; k < 2; ++k) { Harness h{}; h.nt = 3; for (int t = 0; t < 3; ++t) h.nops[t] = 1; h.ops[0][0] = i; h.ops[1][0] = j; h.ops[2][0] = k ? (j + 17) % N : i; f(h); } });
	for (auto& d : later) c.domains.push_back(d);
	return c.main(argc, argv);
}

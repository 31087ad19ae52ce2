// Interrupted calls: every access to memory in the instrumented part (the
// library, its callers and the templates of the standard library) comes here
// through the compiler's race detector interface.  At one of them the running
// call is interrupted by another complete call on the same thread, as a signal
// handler or a conversion function of the caller would do, and continued.
#include "mc.h"
#include "C18.h"
#include <sys/prctl.h>
#include <cwchar>
#include <new>

namespace {

constexpr int max_levels = 3;
struct Level { int op; uint64_t count, target; OpResult res; void* bufs; };
Level L[max_levels];
int level = -1, top;                   // running one, the last one which may be started
uint64_t taken;                        // memory requested by the running operations
bool interrupted[max_levels];
int initializing;                      // static variables are, on the first use

inline void point()
{
	if (level < 0 || initializing) return;
	Level& l = L[level];
	if (++l.count != l.target || level >= top) return;
	const int e = errno;
	interrupted[level] = true;
	++level;
	Level& n = L[level]; n.count = 0;
	run_op(n.op, n.bufs, &n.res);
	--level;
	errno = e;
}
inline void access(const void*, size_t n, bool) { if (n) point(); }

} // namespace

extern "C" {

#define RW(n) void __tsan_read##n(void* a) { access(a, n, false); } void __tsan_write##n(void* a) { access(a, n, true); } \
	void __tsan_unaligned_read##n(void* a) { access(a, n, false); } void __tsan_unaligned_write##n(void* a) { access(a, n, true); } \
	void __tsan_read_write##n(void* a) { access(a, n, false); } void __tsan_unaligned_read_write##n(void* a) { access(a, n, false); } \
	void __tsan_volatile_read##n(void* a) { access(a, n, false); } void __tsan_volatile_write##n(void* a) { access(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false); }
void __tsan_write_range(void* a, size_t n) { access(a, n, true); }
void __tsan_vptr_update(void** a, void*) { access(a, 8, true); }
void __tsan_vptr_read(void** a) { access(a, 8, false); }
void __tsan_init() {}
void __tsan_func_entry(void*) { point(); }
void __tsan_func_exit() { point(); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
// copies are done in two halves, with a point in between
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(d, n, true); const size_t h = n / 2; __real_memcpy(d, s, h); if (h) point(); return (char*)__real_memcpy((char*)d + h, (const char*)s + h, n - h) - h; }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(d, n, true); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); const size_t h = n / 2; __real_memset(d, c, h); if (h) point(); return (char*)__real_memset((char*)d + h, c, n - h) - h; }

#define ATOMIC(bits, type) \
	type __tsan_atomic##bits##_load(const volatile type* a, int) { point(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile type* a, type v, int) { point(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { point(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { point(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { point(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { point(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { point(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { point(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int, int) { point(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int, int) { point(); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { point(); }
void __tsan_atomic_signal_fence(int) {}

// --- functions of the C library used by instrumented code: before and after them
#define WRAP(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { point(); ret r = __real_##name args; point(); return r; }
WRAP(void*, memcpy, (void* d, const void* s, size_t n), (d, s, n))
WRAP(void*, memmove, (void* d, const void* s, size_t n), (d, s, n))
WRAP(void*, memset, (void* d, int c, size_t n), (d, c, n))
WRAP(wchar_t*, wmemcpy, (wchar_t* d, const wchar_t* s, size_t n), (d, s, n))
WRAP(wchar_t*, wmemmove, (wchar_t* d, const wchar_t* s, size_t n), (d, s, n))
WRAP(wchar_t*, wmemset, (wchar_t* d, wchar_t c, size_t n), (d, c, n))
WRAP(size_t, strlen, (const char* s), (s))
WRAP(size_t, wcslen, (const wchar_t* s), (s))
WRAP(char*, strcpy, (char* d, const char* s), (d, s))
#define CONV(ret, name, ch) ret __real_##name(const ch*, ch**); ret __wrap_##name(const ch* s, ch** e) { point(); ret r = __real_##name(s, e); point(); return r; }
CONV(double, strtod, char) CONV(float, strtof, char) CONV(long double, strtold, char)
CONV(double, wcstod, wchar_t) CONV(float, wcstof, wchar_t) CONV(long double, wcstold, wchar_t)
void sched_point_external(int) { point(); }

// initialization of static variables on the first use isn't interrupted
int __cxa_guard_acquire(uint64_t* g) { if (*reinterpret_cast<volatile uint8_t*>(g)) return 0; ++initializing; return 1; }
void __cxa_guard_release(uint64_t* g) { *reinterpret_cast<volatile uint8_t*>(g) = 1; --initializing; }
void __cxa_guard_abort(uint64_t*) { --initializing; }

extern void* __libc_malloc(size_t); extern void* __libc_calloc(size_t, size_t); extern void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { if (level >= 0) taken++; return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { if (level >= 0) taken++; return __libc_calloc(n, m); }
void* realloc(void* p, size_t m) { if (level >= 0) taken++; return __libc_realloc(p, m); }

}

namespace {

enum { o_warm, o_cold, o_twice, o_alone, o_nothing };

struct Cold { OpResult r[max_levels]; bool interrupted[max_levels]; uint64_t count; int done; };
Cold* K;
std::vector<OpResult> expected;
std::vector<uint64_t> cold_points;

// the operations of the levels, each but the last one interrupted at its target
void execute(int n, const int* ops, const uint64_t* targets)
{
	top = n - 1;
	for (int i = 0; i < n; ++i) { L[i].op = ops[i]; L[i].target = targets[i]; L[i].count = 0; interrupted[i] = false; if (!L[i].bufs) L[i].bufs = make_bufs(); }
	level = 0;
	run_op(L[0].op, L[0].bufs, &L[0].res);
	level = -1;
}

void set(mc::Case& c, bool cold, int n, const int* ops, uint64_t t0, uint64_t t1) { c.kind = uint32_t(cold) | uint32_t(n) << 4; c.a = uint64_t(ops[0]) | uint64_t(n > 1 ? ops[1] : 0) << 16 | uint64_t(n > 2 ? ops[2] : 0) << 32; c.b = t0; c.c = t1; }
std::string describe(const mc::Case& c)
{
	const int n = int(c.kind >> 4); std::string r = show_op(int(c.a & 0xffff));
	if (n > 1) r += " interrupted at point " + std::to_string(c.b) + " by " + show_op(int(c.a >> 16 & 0xffff));
	if (n > 2) r += " interrupted at point " + std::to_string(c.c) + " by " + show_op(int(c.a >> 32 & 0xffff));
	return r + (c.kind & 1 ? ", the first calls of the process" : "");
}
void judge(mc::Ctx& x, int n, const int* ops, const OpResult* r, const bool* hit)
{
	for (int i = 0; i < n; ++i) {
		if (std::memcmp(&r[i], &expected[size_t(ops[i])], sizeof(OpResult))) x.fail("%s: %s, alone: %s", show_op(ops[i]).c_str(), show_result(r[i]).c_str(), show_result(expected[size_t(ops[i])]).c_str());
		if (!hit[i]) break;
	}
}

// false if the first operation ended before its point
bool one(mc::Ctx& x)
{
	const mc::Case& c = x.c; const int n = int(c.kind >> 4); const bool cold = c.kind & 1;
	const int ops[max_levels] = { int(c.a & 0xffff), int(c.a >> 16 & 0xffff), int(c.a >> 32 & 0xffff) };
	const uint64_t targets[max_levels] = { c.b, c.c, 0 };
	x.beat(); x.state();
	if (cold) {
		std::memset(K, 0, sizeof *K);
		const pid_t p = fork();
		if (!p) { prctl(PR_SET_PDEATHSIG, SIGKILL); signal(SIGALRM, SIG_DFL); alarm(15); execute(n, ops, targets); for (int i = 0; i < n; ++i) { K->r[i] = L[i].res; K->interrupted[i] = interrupted[i]; } K->count = L[0].count; K->done = 1; _exit(0); }
		if (p < 0) { usleep(1000); return true; }
		int st; waitpid(p, &st, 0);
		if (!K->done && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) x.fail("doesn't terminate");
		if (!K->done) x.fail(WIFSIGNALED(st) ? "killed by signal %d" : "the process exited, status %d", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		judge(x, n, ops, K->r, K->interrupted);
		x.step(uint64_t(n)); x.trace(); x.state(uint64_t(n));
		x.outcome(o_cold);
		return n < 2 || K->interrupted[0];
	}
	execute(n, ops, targets);
	OpResult r[max_levels]; for (int i = 0; i < n; ++i) r[i] = L[i].res;
	judge(x, n, ops, r, interrupted);
	x.step(uint64_t(n)); x.trace(); x.state(uint64_t(n));
	x.outcome(n > 2 && interrupted[1] ? o_twice : n > 1 ? o_warm : o_alone);
	if (x.want_sample()) x.sample(describe(c) + " -> " + show_result(r[0]));
	return n < 2 || interrupted[0];
}
// printing into a buffer of the caller
bool into_buffer(int op) { return show_op(op).compare(0, 5, "ftoa<") == 0; }

} // namespace

int main(int argc, char** argv)
{
	const int N = op_count();
	const bool deep = mc::Check::thorough();
	struct First { OpResult r; uint64_t count; };
	First* f = static_cast<First*>(mc::Check::shmap(sizeof(First) * size_t(N)));
	for (int i = 0; i < N; ++i) { pid_t p = fork(); if (!p) { top = 0; L[0].bufs = make_bufs(); L[0].target = 0; L[0].count = 0; level = 0; run_op(i, L[0].bufs, &f[i].r); level = -1; f[i].count = L[0].count; _exit(0); } int st; waitpid(p, &st, 0); }
	for (int i = 0; i < N; ++i) { expected.push_back(f[i].r); cold_points.push_back(f[i].count); }
	K = static_cast<Cold*>(mc::Check::shmap(sizeof(Cold)));

	mc::Check c; c.id = "C30";
	c.describe = describe;
	c.outcome_names = { "calls interrupted once", "first calls of a process interrupted", "calls interrupted by interrupted calls", "calls not interrupted", "printing without taking memory" };
	c.assumptions = { "a call may be interrupted at accesses to memory and calls of functions, as the compiler emits them", "conversions of the C library are atomic steps", "static variables initialized on the first use are so without interruption", "who interrupts preserves errno, as signal handlers have to" };
	auto own = [] { static bool done; if (!done) { K = static_cast<Cold*>(mc::Check::shmap(sizeof(Cold))); done = true; } };
	c.one = [=](mc::Ctx& x) {
		own();
		if (x.c.kind >> 4 == 1 && !(x.c.kind & 1)) { // printing takes no memory
			one(x);
			taken = 0; one(x); if (taken) x.fail("takes memory");
			x.outcome(o_nothing); return;
		}
		if (!(x.c.kind & 1)) { const mc::Case save = x.c; const int a = int(x.c.a & 0xffff); set(x.c, false, 1, &a, 0, 0); one(x); x.c = save; }
		one(x);
	};
	// the interrupting calls tried with the first calls of a process: every kind of operation
	std::vector<int> few;
	{ std::vector<std::string> kinds; for (int i = 0; i < N; ++i) { const std::string s = show_op(i).substr(0, show_op(i).find('(')); if (std::find(kinds.begin(), kinds.end(), s) == kinds.end()) { kinds.push_back(s); few.push_back(i); } } }

	c.domains.push_back({ "first-calls", "the first call of a process interrupted at every point by itself, and at every " + std::string(deep ? "2nd" : "9th") + " by one call of every function, all operations of the alphabet", uint32_t(N), [=](mc::Ctx& x, uint32_t i) {
		own();
		for (int b = -1; b < int(few.size()); ++b) { const int o[2] = { int(i), b < 0 ? int(i) : few[size_t(b)] };
			for (uint64_t t = 1; t <= cold_points[i]; t += b < 0 ? 1 : (deep ? 2 : 9)) { set(x.c, true, 2, o, t, 0); if (!one(x)) break; } } } });
	c.domains.push_back({ "no-memory", "printing into buffers, all such operations", 1, [=](mc::Ctx& x, uint32_t) {
		for (int i = 0; i < N; ++i) if (into_buffer(i)) { set(x.c, false, 1, &i, 0, 0); one(x); taken = 0; one(x); if (taken) x.fail("takes memory"); x.outcome(o_nothing); } } });
	// texts with thousands of digits have thousands of points, which are the same ones over and over
	auto stride_of = [=](int op, uint64_t s) { return s * (1 + cold_points[size_t(op)] / 4000); };
	c.domains.push_back({ "once", "every call of the alphabet interrupted at every point (of texts with thousands of digits, at regular distances) by every call of the alphabet", uint32_t(N * N), [=](mc::Ctx& x, uint32_t i) {
		const int o[2] = { int(i) / N, int(i) % N }; for (uint64_t t = 1;; t += stride_of(o[0], 1)) { set(x.c, false, 2, o, t, 0); if (!one(x)) break; } } });
	const uint64_t stride = deep ? 3 : 11;
	c.domains.push_back({ "twice", "calls interrupted by calls which are interrupted: a by b by a, a by a by b, for every a and b (without the longest texts), at every " + std::to_string(stride) + "th point of both", uint32_t(N * N), [=](mc::Ctx& x, uint32_t i) {
		const int a = int(i) / N, b = int(i) % N;
		if (cold_points[size_t(a)] > 4000 || cold_points[size_t(b)] > 4000) return;
		for (int k = 0; k < 2; ++k) { const int o[3] = { a, k ? a : b, k ? b : a };
			bool more = true;
			for (uint64_t t = 1 + uint64_t(b) % stride; more; t += stride) for (uint64_t u = 1 + t % stride;; u += stride) { set(x.c, false, 3, o, t, u); if (!one(x)) { more = false; break; } if (!interrupted[1]) break; } } } });
	return c.main(argc, argv);
}

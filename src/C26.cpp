// flags: -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=realloc -Wl,--wrap=free
// Allocation failures: every allocation of every operation is made to fail.
#include <new>
#include <cstdlib>
#include <cstdint>
namespace alloc {
	static long live = 0, count = 0; static uint64_t fail_a = 0, fail_b = 0; static bool armed = false, persistent = false;
	static bool failing() { if (!armed) return false; ++count; return uint64_t(count) == fail_a || uint64_t(count) == fail_b || (persistent && uint64_t(count) >= fail_a); }
}
extern "C" {
	void* __real_malloc(std::size_t); void* __real_calloc(std::size_t, std::size_t); void* __real_realloc(void*, std::size_t); void __real_free(void*);
}
namespace alloc {
	static void* tracked[1024];
	static void* track(void* p) { if (armed && p) for (void*& t : tracked) if (!t) { t = p; ++live; break; } return p; }
	static void untrack(void* p) { if (p) for (void*& t : tracked) if (t == p) { t = nullptr; --live; break; } }
}
extern "C" {
	void* __wrap_malloc(std::size_t n) { return alloc::failing() ? nullptr : alloc::track(__real_malloc(n)); }
	void* __wrap_calloc(std::size_t n, std::size_t m) { return alloc::failing() ? nullptr : alloc::track(__real_calloc(n, m)); }
	void* __wrap_realloc(void* p, std::size_t n) { if (alloc::failing()) return nullptr; alloc::untrack(p); return alloc::track(__real_realloc(p, n)); }
	void __wrap_free(void* p) { alloc::untrack(p); __real_free(p); }
}
namespace alloc {
	static void* get(std::size_t n)
	{
		if (armed) { if (failing()) throw std::bad_alloc(); ++live; }
		void* p = __real_malloc(n + 16); if (!p) throw std::bad_alloc();
		static_cast<uint64_t*>(p)[0] = armed ? 0xa110c : 0; return static_cast<char*>(p) + 16;
	}
	static void put(void* p) noexcept { if (!p) return; uint64_t* q = reinterpret_cast<uint64_t*>(static_cast<char*>(p) - 16); if (*q == 0xa110c) --live; *q = 0; __real_free(q); }
}
void* operator new(std::size_t n) { return alloc::get(n); }
void* operator new[](std::size_t n) { return alloc::get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return alloc::get(n); } catch (...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return alloc::get(n); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { alloc::put(p); }
void operator delete[](void* p) noexcept { alloc::put(p); }
void operator delete(void* p, std::size_t) noexcept { alloc::put(p); }
void operator delete[](void* p, std::size_t) noexcept { alloc::put(p); }

#include "mc.h"
#include "ops.h"

static std::vector<ops::Op> as;
static ops::Result* cold_want; static long* cold_allocations; // of the first call in a process
static void in_child(const std::function<void()>& f, mc::Ctx* x)
{
	const pid_t p = fork();
	if (!p) { try { f(); } catch (mc::Stop&) {} _exit(0); }
	int st = 0; waitpid(p, &st, 0);
	if (x && !(WIFEXITED(st) && !WEXITSTATUS(st))) x->fail("the program is terminated (%s %d)", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
	if (x && x->sl->failed) throw mc::Stop();
}
// kind 2: the failure happens in the very first call of a process
static void cold(mc::Ctx& x)
{
	static ops::Bufs* bufs = new ops::Bufs();
	const ops::Op& o = as[x.c.a]; const ops::Result want = cold_want[x.c.a];
	x.beat(); x.trace(); x.outcome(3);
	in_child([&] {
		ops::Result got; bool thrown = false;
		alloc::count = 0; alloc::fail_a = x.c.b; alloc::fail_b = 0; alloc::persistent = false; alloc::armed = true;
		try { got = ops::run(o, *bufs); } catch (const std::bad_alloc&) { thrown = true; } catch (...) { alloc::armed = false; x.fail("another exception is thrown by the first call"); }
		alloc::armed = false;
		if (!thrown && !(got == want)) x.fail("first call yields %s, expected %s", got.show().c_str(), want.show().c_str());
		for (int i = 0; i < 2; ++i) { const ops::Result after = ops::run(o, *bufs); if (!(after == want)) x.fail("the call after the failed first one yields %s, expected %s", after.show().c_str(), want.show().c_str()); }
	}, &x);
}

// b, c: numbers of the allocations to fail (0: none), kind 1: everything from b on fails
static void one(mc::Ctx& x)
{
	if (x.c.kind == 2) { cold(x); return; }
	static ops::Bufs* bufs = new ops::Bufs();
	const ops::Op& o = as[x.c.a];
	x.beat();
	const ops::Result want = ops::run(o, *bufs);
	ops::Result got; bool thrown = false, other = false;
	long leaked = 0;
	// memory kept only once isn't a leak
	for (int again = 0; again < 3 && (!again || leaked); ++again) {
	thrown = false;
	alloc::live = 0; alloc::count = 0; alloc::fail_a = x.c.b; alloc::fail_b = x.c.c; alloc::persistent = x.c.kind == 1;
	alloc::armed = true;
	try { got = ops::run(o, *bufs); } catch (const std::bad_alloc&) { thrown = true; } catch (...) { other = true; }
	alloc::armed = false;
	leaked = alloc::live;
	}
	if (other) x.fail("another exception is thrown");
	if (leaked) x.fail("%ld blocks are leaked", leaked);
	if (!thrown && !(got == want)) x.fail("result %s, expected %s", got.show().c_str(), want.show().c_str());
	const ops::Result after = ops::run(o, *bufs);
	if (!(after == want)) x.fail("the next call yields %s, expected %s", after.show().c_str(), want.show().c_str());
	const bool hit = alloc::count >= long(x.c.b) && x.c.b;
	if (hit) { x.trace(); x.outcome(thrown ? 1 : 2); } else x.outcome(0);
	if (hit && x.want_sample()) { char b[64]; snprintf(b, sizeof b, " failing allocations %llu,%llu -> ", (unsigned long long)x.c.b, (unsigned long long)x.c.c); x.sample(ops::show(o) + b + (thrown ? "bad_alloc" : "usual result")); }
}

static long allocations(const ops::Op& o)
{
	static ops::Bufs* bufs = new ops::Bufs();
	alloc::count = 0; alloc::fail_a = alloc::fail_b = 0; alloc::persistent = false;
	alloc::armed = true; ops::run(o, *bufs); alloc::armed = false;
	return alloc::count;
}

int main(int argc, char** argv)
{
	as = ops::large();
	for (int n = 1; n < 64; ++n) for (int fn : { 20, 21, 22, 23, 24, 27, 28 }) { as.push_back({ fn, 0, std::string(size_t(n), '7') + std::string(size_t(n), '0') + "1e-20", 0 }); as.push_back({ fn, 0, "0." + std::string(size_t(n), '0') + std::string(size_t(n), '4'), 0 }); as.push_back({ fn, 0, "1" + std::string(size_t(n), '0') + "1", 0 }); }
	for (int e = -320; e < 308; e += 9) for (const char* m : { "1", "1.5", "1.2345678901234567" }) for (int fn = 6; fn < 9; ++fn) { double d = std::strtod((std::string(m) + "e" + std::to_string(e)).c_str(), nullptr); as.push_back({ fn, fn == 7 ? uint64_t(ref::bits<float>(float(d))) : ref::bits<double>(d), "", 0 }); }
	mc::Check k; k.id = "C26"; k.level = "fault_enumeration"; k.one = one; k.outcome_names = { "failure point beyond the allocations made", "allocation exception", "completed regardless of the failure", "failure in the first call of a process" };
	k.rule = "every operation of the alphabet is run with each of its allocations failing, each pair of them, and all from each point on; non-trivial: at least one allocation really failed";
	k.describe = [](const mc::Case& c) { return ops::show(as[c.a]) + " with " + (c.kind == 2 ? "first call of a process, " : "") + (c.kind == 1 ? "all allocations failing from " : "failing allocations ") + std::to_string(c.b) + (c.c ? "," + std::to_string(c.c) : ""); };
	const uint32_t n = uint32_t(as.size());
	cold_want = (ops::Result*)mc::Check::shmap(sizeof(ops::Result) * n); cold_allocations = (long*)mc::Check::shmap(sizeof(long) * n);
	{ static ops::Bufs* bufs = new ops::Bufs(); for (uint32_t i = 0; i < n; ++i) { in_child([&] { alloc::count = 0; alloc::armed = true; cold_want[i] = ops::run(as[i], *bufs); alloc::armed = false; cold_allocations[i] = alloc::count; }, nullptr); } }
	// workers take the domains in order, so they haven't executed any operation themselves yet
	k.domains.push_back({ "first-call-failures", "every allocation of each operation executed as the first one of a process", n, [](mc::Ctx& x, uint32_t s) { x.c.a = s; x.c.kind = 2; for (long i = 1; i <= cold_allocations[s]; ++i) { x.c.b = uint64_t(i); one(x); } } });
	k.domains.push_back({ "single-failures", "every allocation of each of " + std::to_string(n) + " operations", n, [](mc::Ctx& x, uint32_t s) { x.c.a = s; const long m = allocations(as[s]); for (long i = 0; i <= m + 1; ++i) { x.c.b = uint64_t(i); one(x); } } });
	k.domains.push_back({ "persistent-failures", "all allocations failing from each one on", n, [](mc::Ctx& x, uint32_t s) { x.c.a = s; x.c.kind = 1; const long m = allocations(as[s]); for (long i = 1; i <= m; ++i) { x.c.b = uint64_t(i); one(x); } } });
	k.domains.push_back({ "double-failures", "every pair of allocations", n, [](mc::Ctx& x, uint32_t s) { x.c.a = s; const long m = allocations(as[s]); for (long i = 1; i <= m; ++i) for (long j = i + 1; j <= m + 2; ++j) { x.c.b = uint64_t(i); x.c.c = uint64_t(j); one(x); } } });
	k.assumptions = { "memory is obtained through operator new, malloc, calloc or realloc; failures inside of the C library aren't injected" };
	return k.main(argc, argv);
}

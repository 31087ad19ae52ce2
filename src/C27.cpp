// Calls leave their surroundings as they found them: errno, locales, rounding
// direction, exception flags and traps, signal handling, standard streams and
// the amount of allocated memory.
#include <new>
#include <cstdlib>
#include <cstdint>
#include <cstddef>
namespace alloc { static long live = 0; }
extern "C" {
	void* __real_malloc(std::size_t); void* __real_calloc(std::size_t, std::size_t); void* __real_realloc(void*, std::size_t); void __real_free(void*);
	void* __wrap_malloc(std::size_t n) { void* p = __real_malloc(n); alloc::live += p != nullptr; return p; }
	void* __wrap_calloc(std::size_t n, std::size_t m) { void* p = __real_calloc(n, m); alloc::live += p != nullptr; return p; }
	void* __wrap_realloc(void* p, std::size_t n) { void* q = __real_realloc(p, n); alloc::live += (q != nullptr) - (p != nullptr && (q || !n)); return q; }
	void __wrap_free(void* p) { alloc::live -= p != nullptr; __real_free(p); }
}
void* operator new(std::size_t n) { void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); ++alloc::live; return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if (p) { --alloc::live; __real_free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <floaxie/print.h>
#include <floaxie/diy_fp.h>
#include <sstream>
#include <cfenv>
#include <clocale>
#include <cwchar>
#include <locale>
#include <stdexcept>
#include <fcntl.h>

struct Env { std::string how, name; };
static std::vector<Env> E;
static std::vector<std::string> T;
static std::vector<uint64_t> VD; static std::vector<uint32_t> VF;
static const int errs[] = { 0, ERANGE, EDOM, ENOENT, 1000 };
static const int rounds[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };

struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } };

static locale_t used;
static void leave() { uselocale(LC_GLOBAL_LOCALE); if (used) freelocale(used); used = nullptr; std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); }
static void enter(const Env& e)
{
	leave();
	if (e.how == "setlocale") setlocale(LC_ALL, e.name.c_str());
	else if (e.how == "LC_NUMERIC") setlocale(LC_NUMERIC, e.name.c_str());
	else if (e.how == "uselocale") { used = newlocale(LC_ALL_MASK, e.name.c_str(), nullptr); if (used) uselocale(used); }
	else if (e.how == "std::locale") { try { std::locale::global(std::locale(e.name.c_str())); } catch (std::runtime_error&) {} }
	else if (e.how == "facets") std::locale::global(std::locale(std::locale::classic(), new Comma));
}

static unsigned mxcsr() {
#if defined(__x86_64__) || defined(__i386__)
	unsigned v; __asm__ volatile("stmxcsr %0" : "=m"(v)); return v & ~0x3fu;
#else
	return 0;
#endif
}
static unsigned x87cw() {
#if defined(__x86_64__) || defined(__i386__)
	unsigned short v; __asm__ volatile("fnstcw %0" : "=m"(v)); return v;
#else
	return 0;
#endif
}

struct Cheap { unsigned mx, cw; int rd, flags; locale_t handle; const char* name; uint64_t hash; };
static uint64_t hashed(const char* s) { uint64_t h = 1469598103934665603ull; for (; s && *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
static Cheap look() { Cheap c; c.mx = mxcsr(); c.cw = x87cw(); c.rd = fegetround(); c.flags = fetestexcept(FE_ALL_EXCEPT); c.handle = uselocale(nullptr); c.name = setlocale(LC_ALL, nullptr); c.hash = hashed(c.name); return c; }
static std::string differs(const Cheap& a, const Cheap& b)
{
	if (a.rd != b.rd) return "the rounding direction is changed";
	if (a.mx != b.mx || a.cw != b.cw) return "the floating point control word is changed";
	if ((a.flags & b.flags) != a.flags) return "floating point exception flags are cleared";
	if (a.handle != b.handle) return "the locale of the thread is changed";
	if (a.hash != b.hash) return "the global locale is changed to " + std::string(b.name ? b.name : "?");
	return "";
}

struct Thrown {};
static int custom_errno, custom_mode;
template<typename F, typename C> F custom(const C* s, C** e)
{
	if (custom_mode == 2) throw Thrown();
	const int saved = errno;
	F v = floaxie::default_fallback<F, C>(s, e);
	errno = custom_mode == 1 ? custom_errno : saved;
	return v;
}

template<typename C> static const C* widened(const std::string& t) { static C b[mc::text_max]; for (size_t i = 0; i <= t.size(); ++i) b[i] = C((unsigned char)t.c_str()[i]); return b; }

// the permitted errno values after parsing: the one before, or what the fallback conversion sets
static float libc(const char* s, char** e, float) { return std::strtof(s, e); }
static double libc(const char* s, char** e, double) { return std::strtod(s, e); }
static float libc(const wchar_t* s, wchar_t** e, float) { return std::wcstof(s, e); }
static double libc(const wchar_t* s, wchar_t** e, double) { return std::wcstod(s, e); }
template<typename F, typename C> static int fallback_sets(const C* s) { C* e; errno = 0; volatile F v = libc(s, &e, F()); (void)v; return errno; }

enum { o_quiet, o_set, o_thrown, o_custom, o_print, o_dump };
static int out_fd = -1;

// case: kind 0 parsing (text a, type b), 1 printing a double, 2 a float; c: environment | errno << 8 | flags << 12 | rounding << 16 | fallback mode << 20
template<typename F, typename C> static void parsing(mc::Ctx& x, int er, int rd, bool flags, int mode)
{
	const std::string& t = T[x.c.a];
	const C* s = widened<C>(t);
	fesetround(rounds[rd]); const int allowed = mode == 0 ? fallback_sets<F, C>(s) : 0; fesetround(FE_TONEAREST);
	static std::basic_string<C> str; str.assign(s, t.size());
	custom_mode = mode == 3 ? 2 : mode == 2 ? 1 : 0; custom_errno = EDOM;
	long live[3] = {};
	for (int pass = 0; pass < 3; ++pass) {
		feclearexcept(FE_ALL_EXCEPT); if (flags) feraiseexcept(FE_ALL_EXCEPT);
		fesetround(rounds[rd]);
		const Cheap before = look(); const long l0 = alloc::live;
		bool thrown = false; int after;
		errno = er; x.state();
		if (mode == 0) {
			C* e;
			if (pass == 1) { floaxie::atof<F>(s, nullptr); after = errno; errno = er; floaxie::from_string<F>(str); if (errno != after) { fesetround(FE_TONEAREST); x.fail("the wrapper leaves errno %d, the function leaves %d", errno, after); } }
			else { floaxie::atof<F>(s, &e); after = errno; }
		} else {
			C* e;
			try { floaxie::atof<F>(s, &e, custom<F, C>); } catch (Thrown&) { thrown = true; }
			after = errno;
		}
		const Cheap then = look(); live[pass] = alloc::live - l0;
		fesetround(FE_TONEAREST);
		x.step(); x.state(); x.trace();
		const std::string d = differs(before, then);
		if (!d.empty()) x.fail("%s", d.c_str());
		const bool fine = after == er || (mode == 0 && allowed && after == allowed) || (mode == 2 && after == custom_errno);
		if (!fine) x.fail("errno is %d after the call, %d before%s", after, er, thrown ? " (the fallback throws)" : "");
		x.outcome(thrown ? o_thrown : after == er ? o_quiet : mode ? o_custom : o_set);
	}
	if (live[2] > 0 && live[1] > 0) x.fail("%ld blocks of memory stay allocated after every call", live[2]);
}
template<typename C> static void put(const std::basic_string<C>& s, std::string& r) { for (C c : s) r += char(c); }
template<typename F> static void printing(mc::Ctx& x, F v, int er, int rd, bool flags)
{
	char b1[64]; wchar_t b2[64]; char16_t b3[64]; char32_t b4[64];
	long live[3] = {}; const char* what[] = { "ftoa() to char", "ftoa() to wchar_t", "ftoa() to char16_t", "ftoa() to char32_t", "to_string()", "to_wstring()", "to_u16string()", "to_u32string()" };
	for (int pass = 0; pass < 3; ++pass) {
		feclearexcept(FE_ALL_EXCEPT); if (flags) feraiseexcept(FE_ALL_EXCEPT);
		fesetround(rounds[rd]);
		const Cheap before = look(); const long l0 = alloc::live; int es[8];
		errno = er; x.state();
		floaxie::ftoa(v, b1); es[0] = errno; errno = er;
		floaxie::ftoa(v, b2); es[1] = errno; errno = er;
		floaxie::ftoa(v, b3); es[2] = errno; errno = er;
		floaxie::ftoa(v, b4); es[3] = errno; errno = er;
		{ auto s = floaxie::to_string(v); es[4] = errno; } errno = er;
		{ auto s = floaxie::to_wstring(v); es[5] = errno; } errno = er;
		{ auto s = floaxie::to_u16string(v); es[6] = errno; } errno = er;
		{ auto s = floaxie::to_u32string(v); es[7] = errno; }
		const Cheap then = look(); live[pass] = alloc::live - l0;
		fesetround(FE_TONEAREST);
		x.step(8); x.state(8); x.trace(8); x.outcome(o_print);
		const std::string d = differs(before, then);
		if (!d.empty()) x.fail("%s", d.c_str());
		for (int i = 0; i < 8; ++i) if (es[i] != er) x.fail("errno is %d after %s, %d before", es[i], what[i], er);
	}
	if (live[2] > 0 && live[1] > 0) x.fail("%ld blocks of memory stay allocated after every call", live[2]);
}

static void dumping(mc::Ctx& x, uint64_t u, int er, int rd, bool flags)
{
	feclearexcept(FE_ALL_EXCEPT); if (flags) feraiseexcept(FE_ALL_EXCEPT);
	fesetround(rounds[rd]);
	const double v = ref::from_bits<double>(u);
	long live[3] = {};
	for (int pass = 0; pass < 3; ++pass) {
		const Cheap before = look(); const long l0 = alloc::live; int es[4]; x.state();
		std::string wrong;
		{
			errno = er;
			{ auto s = floaxie::print_binary(v); es[0] = errno; } errno = er;
			{ auto s = floaxie::print_binary(u); es[1] = errno; } errno = er;
			{ auto s = floaxie::print_double_presentation(u); es[2] = errno; }
			for (auto fl : { std::ios_base::dec, std::ios_base::hex | std::ios_base::showbase, std::ios_base::oct | std::ios_base::left | std::ios_base::uppercase | std::ios_base::showpos }) {
				std::ostringstream o; o.flags(fl); o.fill('*'); o.precision(3); const auto mask = o.exceptions(); const std::locale l = o.getloc();
				errno = er; o << floaxie::diy_fp<double>(u, -1074); es[3] = errno;
				if (o.flags() != fl || o.fill() != '*' || o.precision() != 3 || o.exceptions() != mask || !(o.getloc() == l)) wrong = "the settings of the stream are changed";
			}
		}
		const Cheap then = look(); live[pass] = alloc::live - l0; if (!wrong.empty()) { fesetround(FE_TONEAREST); x.fail("%s", wrong.c_str()); }
		x.step(6); x.state(6); x.trace(6); x.outcome(o_dump);
		const std::string d = differs(before, then);
		if (!d.empty()) { fesetround(FE_TONEAREST); x.fail("%s", d.c_str()); }
		for (int i = 0; i < 4; ++i) if (es[i] != er) x.fail("errno is %d after dump %d, %d before", es[i], i, er);
	}
	fesetround(FE_TONEAREST);
	if (live[2] > 0 && live[1] > 0) x.fail("%ld blocks of memory stay allocated after every call", live[2]);
}

static int cur = -2;
static void one(mc::Ctx& x)
{
	x.beat();
	const int env = int(x.c.c & 255), er = errs[x.c.c >> 8 & 7], rd = int(x.c.c >> 16 & 3), mode = int(x.c.c >> 20 & 3); const bool fl = x.c.c >> 12 & 1;
	if (cur != env) { cur = env; enter(E[size_t(env)]); }
	switch (x.c.kind) {
	case 0: switch (x.c.b & 3) { case 0: parsing<double, char>(x, er, rd, fl, mode); break; case 1: parsing<float, char>(x, er, rd, fl, mode); break; case 2: parsing<double, wchar_t>(x, er, rd, fl, mode); break; default: parsing<float, wchar_t>(x, er, rd, fl, mode); } break;
	case 1: printing<double>(x, ref::from_bits<double>(VD[x.c.a]), er, rd, fl); break;
	case 3: dumping(x, VD[x.c.a], er, rd, fl); break;
	case 2: printing<float>(x, ref::from_bits<float>(VF[x.c.a]), er, rd, fl); break;
	}
}

// everything which is looked at once per shard
struct Dear { struct sigaction sa[32]; sigset_t mask; int traps; std::locale l; char cwd[256]; std::string env; int fds; };
static int open_files() { int n = 0; for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) >= 0; return n; }
extern char** environ;
static Dear survey() { Dear d; for (int i = 1; i < 32; ++i) { std::memset(&d.sa[i], 0, sizeof d.sa[i]); sigaction(i, nullptr, &d.sa[i]); } sigemptyset(&d.mask); sigprocmask(SIG_BLOCK, nullptr, &d.mask); d.traps = fegetexcept(); d.l = std::locale(); if (!getcwd(d.cwd, sizeof d.cwd)) d.cwd[0] = 0; for (char** e = environ; e && *e; ++e) d.env += std::string(*e) + "\n"; d.fds = open_files(); return d; }
static void around(mc::Ctx& x, const std::function<void()>& f)
{
	int p[2] = { -1, -1 }; fflush(stdout); fflush(stderr);
	FILE* tmp = tmpfile(); const int o1 = dup(1), o2 = dup(2);
	if (tmp) { dup2(fileno(tmp), 1); dup2(fileno(tmp), 2); }
	const Dear a = survey();
	auto back = [&] { fflush(stdout); fflush(stderr); off_t n = tmp ? lseek(fileno(tmp), 0, SEEK_END) : 0; dup2(o1, 1); dup2(o2, 2); close(o1); close(o2); if (tmp) fclose(tmp); return n; };
	try { f(); } catch (...) { back(); throw; }
	const Dear b = survey(); const off_t n = back(); (void)p;
	for (int i = 1; i < 32; ++i) if (a.sa[i].sa_handler != b.sa[i].sa_handler || a.sa[i].sa_flags != b.sa[i].sa_flags) x.fail("the disposition of signal %d is changed", i);
	for (int i = 1; i < 32; ++i) if (sigismember(&a.mask, i) != sigismember(&b.mask, i)) x.fail("the signal mask is changed");
	if (a.traps != b.traps) x.fail("floating point traps are changed");
	if (!(a.l == b.l)) x.fail("the global C++ locale is changed");
	if (std::strcmp(a.cwd, b.cwd)) x.fail("the working directory is changed");
	if (a.env != b.env) x.fail("the environment is changed");
	if (a.fds != b.fds) x.fail("files are left open");
	if (n) x.fail("%ld bytes are written to the standard streams", long(n));
}

int main(int argc, char** argv)
{
	setlocale(LC_ALL, "C");
	const bool deep = mc::Check::thorough();
	E.push_back({ "none", "" });
	std::vector<std::string> names{ "C.UTF-8" }; std::string used_names = "C.UTF-8";
	for (const char* n : { "de_DE.UTF-8", "tr_TR.ISO-8859-9" }) if (locale_t l = newlocale(LC_ALL_MASK, n, nullptr)) { freelocale(l); names.push_back(n); used_names += std::string(", ") + n; }
	for (auto& n : names) for (const char* h : { "setlocale", "LC_NUMERIC", "uselocale", "std::locale" }) E.push_back({ h, n });
	E.push_back({ "facets", "decimal comma" });

	for (const char* d : { "0", "1", "123", "9007199254740993", "16777217", "123456789012345678901", "99999999999999999999999999" }) for (const char* s : { "", "-", "+" }) {
		const std::string D = d;
		for (size_t p : { size_t(0), size_t(1), D.size() / 2, D.size() }) { if (p > D.size()) continue; for (const char* e : { "", "e0", "E-7", "e+22", "e-30", "e300", "e-310", "e-324", "e-44", "e37", "e999", "e-999", "e", "e+" }) { T.push_back(s + D.substr(0, p) + "." + D.substr(p) + e); if (p == D.size()) T.push_back(s + D + e); } }
	}
	for (const char* t : { "", "x", ".", "-", "+.", "e5", "inf", "-inf", "INFINITY", "infinit", "nan", "-nan", "nan(12)", "nan(12", "nan()", "ni", " 1", "1 2", "1,5", "0x10", "1e5e5", "1..5", "-.", "-.e1" }) T.push_back(t);
	// middles between values, where the fallback decides
	for (uint64_t e : { uint64_t(0), uint64_t(1), uint64_t(2), uint64_t(60), uint64_t(900), uint64_t(1022), uint64_t(1023), uint64_t(1100), uint64_t(2045), uint64_t(2046) }) for (uint64_t m : { uint64_t(0), uint64_t(1), (uint64_t(1) << 52) - 1 }) for (int part = 0; part < 3; ++part) {
		const uint64_t u = e << 52 | m; uint64_t mm; long ee; exact::midpoint<double>(u, mm, ee); std::string d; long e10; exact::exact_decimal(mm, ee, d, e10);
		if (part == 1) { if (d.size() > 20) { e10 += long(d.size()) - 20; d.resize(20); } } else if (part == 2) { d += "0001"; e10 -= 4; }
		T.push_back(d + "e" + std::to_string(e10)); T.push_back("-" + d.substr(0, 1) + "." + (d.size() > 1 ? d.substr(1) : "") + "e" + std::to_string(e10 + long(d.size()) - 1)); }
	for (uint32_t e : { 0u, 1u, 30u, 120u, 127u, 150u, 254u }) for (uint32_t m : { 0u, 1u, 0x7fffffu }) for (int part = 0; part < 3; ++part) {
		const uint32_t u = e << 23 | m; uint64_t mm; long ee; exact::midpoint<float>(u, mm, ee); std::string d; long e10; exact::exact_decimal(mm, ee, d, e10);
		if (part == 1) { if (d.size() > 10) { e10 += long(d.size()) - 10; d.resize(10); } } else if (part == 2) { d += "0001"; e10 -= 4; }
		T.push_back(d + "e" + std::to_string(e10)); }
	if (deep) { const auto ds = gen::digit_strings(2, 24, 4); for (auto& d : ds) for (int q : { -340, -320, -46, -20, 0, 10, 280 }) T.push_back(d + "e" + std::to_string(q)); }
	std::sort(T.begin(), T.end(), [](const std::string& a, const std::string& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }); T.erase(std::unique(T.begin(), T.end()), T.end());
	for (uint64_t e = 0; e < 2048; e += deep ? 1 : 4) for (uint64_t m : { uint64_t(0), uint64_t(1), (uint64_t(1) << 52) - 1, uint64_t(0x999999999999a) }) { VD.push_back(e << 52 | m); if (e % 16 == 0) VD.push_back(uint64_t(1) << 63 | e << 52 | m); }
	for (double v : { 0.1, 1.5, 123.25, 1e15, 1e16, 1e17, 1e-5, 1e-17, 1e22, 1e23 }) VD.push_back(ref::bits<double>(v));
	for (uint64_t m : { uint64_t(0), uint64_t(1), uint64_t(1) << 51 }) for (uint64_t s : { uint64_t(0), uint64_t(1) }) VD.push_back(s << 63 | uint64_t(2047) << 52 | m);
	for (uint32_t e = 0; e < 256; e += deep ? 1 : 2) for (uint32_t m : { 0u, 1u, 0x7fffffu, 0x4ccccdu }) { VF.push_back(e << 23 | m); if (e % 16 == 0) VF.push_back(0x80000000u | e << 23 | m); }
	VF.push_back(0x7f800000u); VF.push_back(0xff800000u); VF.push_back(0x7fc00000u); VF.push_back(0x7f800001u);

	mc::Check c; c.id = "C27"; c.one = one;
	c.describe = [](const mc::Case& k) { const Env& e = E[size_t(k.c & 255)]; static const char* modes[] = { "", ", quiet fallback", ", fallback setting errno", ", throwing fallback" }; char b[160]; snprintf(b, sizeof b, ", errno %d, flags %d, rounding direction %d%s: ", errs[k.c >> 8 & 7], int(k.c >> 12 & 1), int(k.c >> 16 & 3), modes[k.c >> 20 & 3]); std::string s = e.how + " " + e.name + b; static const char* tn[] = { "double from char", "float from char", "double from wchar_t", "float from wchar_t" }; if (k.kind == 0) return s + "parsing \"" + mc::escape(T[k.a]) + "\", " + tn[k.b & 3]; snprintf(b, sizeof b, "printing 0x%llx", (unsigned long long)(k.kind != 2 ? VD[k.a] : VF[k.a])); if (k.kind == 3) s += "dump by "; return s + b; };
	c.outcome_names = { "parsed, errno as before", "parsed, errno set by the conversion of the C library", "fallback threw", "errno set by the caller's fallback", "printed", "dumped" };
	c.assumptions = { "memory in use is compared between a repeated call and the next one, so that one time allocations are permitted", "signal handling, environment, working directory, open files and standard streams are compared around a whole shard of calls" };
	const uint32_t ne = uint32_t(E.size());
	const std::string cfg = std::to_string(ne) + " environments (locales " + used_names + ", set by setlocale, for LC_NUMERIC, per thread, for C++; a facet of its own)";
	c.domains.push_back({ "parsing", cfg + " x 5 errno values x 4 rounding directions x exception flags clear/raised x " + std::to_string(T.size()) + " texts x 4 type combinations x 4 fallbacks (default, quiet, setting errno, throwing)", ne * 4, [=](mc::Ctx& x, uint32_t s) {
		cur = -2; const uint32_t env = s / 4, k = s % 4; enter(E[env]); cur = int(env);
		around(x, [&] { for (size_t t = 0; t < T.size(); ++t) for (unsigned e = 0; e < 5; ++e) for (unsigned rd = 0; rd < 4; ++rd) for (unsigned m = 0; m < 4; ++m) for (unsigned f = 0; f < 2; ++f) {
			if (!deep && rd && (e == 2 || e == 3)) continue;
			if (!deep && f != (e + rd + m) % 2) continue;
			x.c.kind = 0; x.c.a = t; x.c.b = k; x.c.c = env | e << 8 | f << 12 | rd << 16 | m << 20; one(x); } }); } });
	c.domains.push_back({ "printing", cfg + " x 5 errno values x 4 rounding directions x " + std::to_string(VD.size()) + " doubles and " + std::to_string(VF.size()) + " floats, by all functions", ne * 4, [=](mc::Ctx& x, uint32_t s) {
		const uint32_t env = s / 4, rd = s % 4; enter(E[env]); cur = int(env);
		around(x, [&] { for (unsigned e = 0; e < 5; ++e) { if (!deep && env && e != (rd + env) % 5) continue;
			for (size_t i = 0; i < VD.size(); ++i) { x.c.kind = 1; x.c.a = i; x.c.b = 0; x.c.c = env | e << 8 | (e & 1) << 12 | rd << 16; one(x); }
			for (size_t i = 0; i < VF.size(); ++i) { x.c.kind = 2; x.c.a = i; x.c.b = 0; x.c.c = env | e << 8 | (e & 1) << 12 | rd << 16; one(x); } } }); } });
	c.domains.push_back({ "dumps", cfg + " x 2 errno values x 4 rounding directions x " + std::to_string(VD.size()) + " bit patterns, binary dumps and the stream operator with 3 settings of the stream", ne * 4, [=](mc::Ctx& x, uint32_t s) {
		const uint32_t env = s / 4, rd = s % 4; if (!deep && env && rd != env % 4) return; enter(E[env]); cur = int(env);
		around(x, [&] { for (unsigned e = 0; e < 2; ++e) for (size_t i = 0; i < VD.size(); ++i) { x.c.kind = 3; x.c.a = i; x.c.b = 0; x.c.c = env | e << 8 | (e & 1) << 12 | rd << 16; one(x); } }); } });
	return c.main(argc, argv);
}

// Memory safety and termination on any input.
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <new>
#include <pthread.h>
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include "parse.h"
#include "lit.h"

extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:abort_on_error=1:print_stacktrace=0"; }

// allocation balance
static long live_blocks;
void* operator new(std::size_t n) { ++live_blocks; if (void* p = malloc(n)) return p; throw std::bad_alloc(); }
void* operator new[](std::size_t n) { ++live_blocks; if (void* p = malloc(n)) return p; throw std::bad_alloc(); }
void operator delete(void* p) noexcept { if (p) --live_blocks; free(p); }
void operator delete[](void* p) noexcept { if (p) --live_blocks; free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) --live_blocks; free(p); }
void operator delete[](void* p, std::size_t) noexcept { if (p) --live_blocks; free(p); }

// a window with inaccessible neighbours, read-only for the code under test
struct Window {
	unsigned char *rw, *ro; const size_t size;
	explicit Window(size_t n) : size(n)
	{
		int fd = memfd_create("w", 0); if (fd < 0 || ftruncate(fd, size)) _exit(5);
		rw = static_cast<unsigned char*>(mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
		unsigned char* p = static_cast<unsigned char*>(mmap(nullptr, size + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		ro = static_cast<unsigned char*>(mmap(p + 4096, size, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0));
		if (rw == MAP_FAILED || ro == MAP_FAILED) _exit(5);
		close(fd);
	}
};

// the same conversion without optimization on a thread with a small stack: its use mustn't grow with the text
extern "C" size_t plain_parse(unsigned kind, const void* t);
struct Plain { unsigned kind; const void* text; size_t got; };
static size_t on_small_stack(unsigned kind, const void* text)
{
	Plain p { kind, text, 0 };
	pthread_attr_t a; pthread_t t;
	if (pthread_attr_init(&a) || pthread_attr_setstacksize(&a, 512 * 1024)) _exit(5);
	if (pthread_create(&t, &a, [](void* v) -> void* { Plain* p = static_cast<Plain*>(v); p->got = plain_parse(p->kind, p->text); return nullptr; }, &p)) _exit(5);
	pthread_join(t, nullptr); pthread_attr_destroy(&a);
	return p.got;
}

template<typename F, typename C> static F nofall(const C* s, C** e) { if (e) *e = const_cast<C*>(s); return F(0); }

template<typename F, typename C> static void judge(mc::Ctx& x)
{
	static Window small(16 * 4096);
	const bool lng = x.c.kind & mc::long_text;
	std::string lt; if (lng) lt = mc::expand(x.c);
	static Window* large = nullptr; if (lng && (!large || large->size < (lt.size() + 16) * sizeof(C))) { if (large) { munmap(large->rw, large->size); munmap(large->ro - 4096, large->size + 8192); delete large; } large = new Window((lt.size() * sizeof(C) + 65536) & ~size_t(4095)); }
	Window& w = lng ? *large : small;
	const size_t n = lng ? lt.size() : x.c.len + (x.c.c ? 1 : 0);
	for (int place = 0; place < 2; ++place) {
		const size_t off = place ? 0 : w.size - (n + 1) * sizeof(C);
		C* t = reinterpret_cast<C*>(w.rw + off); const C* s = reinterpret_cast<const C*>(w.ro + off);
		if (place == 0) for (size_t i = 0; i < 8 && off >= 64; ++i) t[-1 - long(i)] = C('0' + i);     // plausible continuation to the left
		size_t k = 0;
		if (lng) for (; k < n; ++k) t[k] = C(lt[k]);
		else for (size_t i = 0; i < x.c.len; ++i) { if (x.c.c && i == x.c.b) t[k++] = C(x.c.a); t[k++] = C((unsigned char)x.c.text[i]); }
		if (!lng && x.c.c && x.c.b >= x.c.len) t[k++] = C(x.c.a);
		t[k] = C(0);
		if (place) for (size_t i = 1; i < 12; ++i) t[k + i] = C('0' + i % 10);                        // plausible continuation to the right
		C* e = nullptr;
		// memory kept once and for all is no leak, memory kept by every call is
		for (int again = 0; again < 3; ++again) {
		const long before = live_blocks;
		x.beat(); x.state();
		if (sizeof(C) == 1 || std::is_same<C, wchar_t>::value) {
			if constexpr (sizeof(C) == 1 || std::is_same<C, wchar_t>::value) {
				floaxie::atof<F>(s, &e);
				x.step();
			}
		} else { floaxie::atof<F>(s, &e, nofall<F, C>); x.step(); }
		x.trace();
		if (e < s || e > s + n) x.fail("end pointer %td is outside of the text of %zu characters", e - s, n);
		if (live_blocks == before) break;
		if (again == 2) x.fail("%ld allocated blocks are left behind by every call", live_blocks - before);
		}
		if (place == 0 && n > 2048) { x.beat(); x.state(); if (on_small_stack(x.c.kind & 15, s) > n) x.fail("end pointer is outside of the text"); x.step(); x.trace(); }
	}
	x.outcome(n < 8 ? 0 : n < 64 ? 1 : n <= 2048 ? 2 : 3);
	if (x.want_sample()) x.sample(mc::escape(std::string(x.c.text, x.c.len)).substr(0, 80) + " (" + std::to_string(n) + ")");
}
template<typename F> static void judge_print(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const F v = ref::from_bits<F>(U(x.c.a));
	for (int again = 0; again < 3; ++again) {
	const long before = live_blocks;
	x.beat(); x.state();
	{
		// heap blocks of exactly the promised size
		static char* a = static_cast<char*>(malloc(floaxie::max_buffer_size<F>())); static wchar_t* b = static_cast<wchar_t*>(malloc(floaxie::max_buffer_size<F>() * sizeof(wchar_t)));
		size_t n = floaxie::ftoa(v, a), m = floaxie::ftoa(v, b);
		x.step(2);
		if (n != std::strlen(a) || m != std::wcslen(b)) x.fail("length");
		std::string s = floaxie::to_string(v); x.step();
	}
	x.trace();
	if (live_blocks == before) break;
	if (again == 2) x.fail("%ld allocated blocks are left behind by every call", live_blocks - before);
	}
	x.outcome(4);
}
static void one(mc::Ctx& x)
{
	switch (x.c.kind & ~mc::long_text) { case 0: judge<double, char>(x); break; case 1: judge<float, char>(x); break; case 2: judge<double, wchar_t>(x); break; case 3: judge<float, wchar_t>(x); break; case 4: judge<double, char16_t>(x); break; case 5: judge<float, char32_t>(x); break; case 10: judge_print<double>(x); break; default: judge_print<float>(x); }
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C16"; k.one = one; k.outcome_names = { "text below 8 characters", "text below 64", "text within 2048", "text beyond the documented limit", "printed" };
	k.domains.push_back({ "all-short", "all strings of up to 5 (thorough 6) characters over 18 characters, text ending at / starting after an inaccessible page, 4 character types", 324, [deep](mc::Ctx& x, uint32_t s) {
		static const char al[] = "019.eE+-nNaAiIf(_)"; const int kk = 18; x.c.c = 0;
		for (int n = 0; n <= (deep ? 6 : 5); ++n) {
			if ((n < 2 && s >= 18) || (n < 1 && s)) continue;
			uint32_t tot = 1; for (int i = 2; i < n; ++i) tot *= kk;
			for (uint32_t v = 0; v < tot; ++v) { char t[8]; uint32_t y = v; if (n > 0) t[0] = al[s % 18]; if (n > 1) t[1] = al[s / 18]; for (int i = 2; i < n; ++i) { t[i] = al[y % kk]; y /= kk; } x.c.set(t, size_t(n)); for (uint32_t kd = 0; kd < 6; ++kd) { x.c.kind = kd; one(x); } }
		}
	} });
	k.domains.push_back({ "prefixes", "every prefix of 30 long texts (numbers, special words, near-ties)", 30, [](mc::Ctx& x, uint32_t s) {
		static const char* ts[] = { "infinity", "INFINITYX", "-infinitY", "nan(abc_123)", "-nan()", "nan(ab-c)", "1234567890123456789012345678901234567890", "0.000000000000000000000000000000000001", "1e1234567890123456789012345", "-1E-00000000000000000000000000005", "9007199254740993.0000000000000000000000001", "1.7976931348623158e308", "2.4703282292062328e-324", "4.9406564584124654e-324", "3.4028235677973366e38", "7.0064923216240853e-46", "16777217.0000000000000000000000000000000000001", "123.456e+789", "00000000000000000000000000000000000000000000001", "+.00000000000000000000000000e5", "1e-400", "1e400", "999999999999999999999999999999e-350", "0.1e1e1e1", "1..2", "--1", "5e-324", "1e+", "1e-x", "8.5e" };
		const std::string t(ts[s]); x.c.c = 0;
		for (size_t n = 0; n <= t.size(); ++n) for (uint32_t kd = 0; kd < 6; ++kd) { x.c.kind = kd; x.c.set(t.substr(0, n)); one(x); }
	} });
	k.domains.push_back({ "any-code-unit", "every code unit value (8 and 16 bit; 32 bit: a grid) alone, after a digit, inside of a word and of an exponent", 256, [](mc::Ctx& x, uint32_t s) {
		static const char* ts[] = { "", "1", "in", "1e", "1e1", "nan(", "-", ".", "1." };
		x.c.c = 1;
		for (const char* t : ts) for (uint32_t at = 0; at <= std::strlen(t); ++at) {
			x.c.set(std::string(t)); x.c.b = at;
			if (s) { x.c.a = s; x.c.kind = 0; one(x); x.c.kind = 1; one(x); }
			for (uint32_t hi = 0; hi < 256; ++hi) { x.c.a = hi << 8 | s; if (!x.c.a) continue; x.c.kind = 2 + hi % 2; one(x); x.c.kind = 4; one(x); if (hi % 8 == 0) { x.c.a = hi << 24 | s << 8; if (x.c.a) { x.c.kind = 5; one(x); x.c.kind = 2; one(x); } } }
		}
	} });
	k.domains.push_back({ "long-texts", "texts of every length 1..80 and around 1020..1030, 2030..2070, 4090..4100, 5990: nines, zeros, fractions, zeros then digit, long exponents, long nan sequences, ties", 200, [](mc::Ctx& x, uint32_t s) {
		size_t n = s < 80 ? s + 1 : s < 92 ? 1020 + (s - 80) : s < 150 ? 2026 + (s - 92) : s < 164 ? 4090 + (s - 150) : s < 174 ? 5980 + (s - 164) : 100 + (s - 174) * 70;
		if (n > mc::text_max - 20) n = mc::text_max - 20;
		x.c.c = 0;
		std::vector<std::string> ts{ std::string(n, '9'), std::string(n, '0'), "." + std::string(n - 1, '9'), "0." + std::string(n, '0') + "1", std::string(n, '0') + "1", "1" + std::string(n - 1, '0'), "1e" + std::string(n, '9'), "1e-" + std::string(n, '9'), "1e+" + std::string(n, '0') + "5", "nan(" + std::string(n, 'a') + ")", "nan(" + std::string(n, 'z'), "9007199254740993." + std::string(n, '0') + "1", std::string(n, '4') + "." + std::string(8, '5'), "0." + std::string(n, '3') + "e-5", std::string(n / 2, '7') + "." + std::string(n / 2, '8') + "e" + std::to_string(-long(n)), "-" + std::string(n, '1'), std::string(n, '.'), std::string(n, 'n'), "1." + std::string(n, '0') + "e", std::string(n, '5') + "x", std::string(n, '1') + "e10", "." + std::string(n, '0'), std::string(n, '0') + "e5" };
		for (auto& t : ts) for (uint32_t kd = 0; kd < 6; ++kd) { x.c.kind = kd; x.c.set(t.substr(0, mc::text_max - 8)); one(x); }
	} });
	k.domains.push_back({ "number-texts", "digit strings of every length 1..30 x every power in [-420,420] and powers around +-2^31, 2^32, 2^63, 2^64", 900, [](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 30, 3); x.c.c = 0;
		static const char* big[] = { "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "-4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "18446744073709551615", "18446744073709551616", "100000", "-100000", "99999", "-99999", "1000000", "65535", "65536", "-65536", "32767", "32768", "-32768", "-32769" };
		for (auto& d : ds) { const std::string q = s < 841 ? std::to_string(int(s) - 420) : big[(s - 841) % 24]; for (uint32_t kd = 0; kd < 4; ++kd) { if (kd > 1 && d.size() % 4) continue; x.c.kind = kd; x.c.set(d + "e" + q); one(x); x.c.set("." + d + "E" + q); one(x); } }
	} });
	k.domains.push_back(long_domain(deep, one, { 0, 1, 2, 3, 4, 5 }));
	k.domains.push_back({ "very-long-mantissas", "digits, zeros and both beyond the documented limit, up to 2^20 (thorough 2^24) characters", 12, [deep](mc::Ctx& x, uint32_t s) {
		static const char* ts[] = { "\1" "1", "\1" "0", "\1" "9e5", "0.\1" "0", "0.\1" "01", "1.\1" "0", ".\1" "7e-5", "\1" "0.\1" "0", "9007199254740993.\1" "01", "1\1" "0e-5", "\1" "05", "-\1" "3.\1" "3" };
		for (uint64_t n : mc::long_lengths(deep)) for (uint32_t kd = 0; kd < 6; ++kd) { x.c.set(std::string(ts[s])); x.c.a = n; x.c.kind = kd | mc::long_text; one(x); }
	} });
	k.domains.push_back({ "printing", "every exponent field x mantissa alphabet into heap blocks of exactly max_buffer_size", 2048, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 11 : 9, deep ? 11 : 9, deep ? 13 : 11), mf = gen::mantissas(23, 6, 6, 10);
		for (size_t i = s % 4; i < ms.size(); i += deep ? 1 : 4) { x.c.kind = 10; x.c.a = uint64_t(s) << 52 | ms[i]; one(x); x.c.a |= uint64_t(1) << 63; if (i % 16 == 0) one(x); }
		if (s < 512) for (uint64_t m : mf) { x.c.kind = 11; x.c.a = uint64_t(s) << 23 | m; one(x); }
	} });
	k.assumptions = { "gcc AddressSanitizer and UndefinedBehaviorSanitizer, inaccessible pages and read-only input mappings reveal forbidden accesses", "a case which makes no progress for 20 s (60 s when re-run alone) doesn't terminate" };
	k.domains.push_back(lit::parsing(one, { 0, 1, 2, 3, 4, 5 }, 5900));
	return k.main(argc, argv);
}

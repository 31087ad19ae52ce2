// Work of a conversion: basic blocks and accesses to memory are counted by
// the instrumentation of the compiler, memory requested by the allocator.
#include "mc.h"
#include "C31.h"
#include "gen.h"
#include "ref.h"
#include <cwchar>

namespace {
uint64_t steps, bytes; bool counting;
inline void step(uint64_t n = 1) { if (counting) steps += n; }
}

extern "C" {
void steps_begin() { steps = bytes = 0; counting = true; }
void steps_end() { counting = false; }
#define RW(n) void __tsan_read##n(void*) { step(); } void __tsan_write##n(void*) { step(); } void __tsan_unaligned_read##n(void*) { step(); } void __tsan_unaligned_write##n(void*) { step(); } \
	void __tsan_read_write##n(void*) { step(); } void __tsan_unaligned_read_write##n(void*) { step(); } void __tsan_volatile_read##n(void*) { step(); } void __tsan_volatile_write##n(void*) { step(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void*, size_t) { step(); }
void __tsan_write_range(void*, size_t) { step(); }
void __tsan_vptr_update(void**, void*) { step(); }
void __tsan_vptr_read(void**) { step(); }
void __tsan_init() {}
void __tsan_func_entry(void*) { step(); }
void __tsan_func_exit() {}
void __sanitizer_cov_trace_pc() { step(); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t);
void* __tsan_memcpy(void* d, const void* s, size_t n) { step(1 + n / 8); return __real_memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { step(1 + n / 8); return __real_memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { step(1 + n / 8); return __real_memset(d, c, n); }
#define ATOMIC(bits, type) \
	type __tsan_atomic##bits##_load(const volatile type* a, int) { step(); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##bits##_store(volatile type* a, type v, int) { step(); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_exchange(volatile type* a, type v, int) { step(); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int) { step(); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int) { step(); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int) { step(); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int) { step(); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int) { step(); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* e, type v, int, int) { step(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* e, type v, int, int) { step(); return __atomic_compare_exchange_n(a, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type e, type v, int, int) { step(); __atomic_compare_exchange_n(a, &e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { step(); }
void __tsan_atomic_signal_fence(int) {}
#define WRAP(ret, name, params, args, n) ret __real_##name params; ret __wrap_##name params { ret r = __real_##name args; step(1 + (n) / 8); return r; }
WRAP(void*, memcpy, (void* d, const void* s, size_t n), (d, s, n), n)
WRAP(void*, memmove, (void* d, const void* s, size_t n), (d, s, n), n)
WRAP(void*, memset, (void* d, int c, size_t n), (d, c, n), n)
WRAP(int, memcmp, (const void* a, const void* b, size_t n), (a, b, n), n)
WRAP(void*, memchr, (const void* a, int c, size_t n), (a, c, n), r ? size_t((const char*)r - (const char*)a) : n)
WRAP(wchar_t*, wmemcpy, (wchar_t* d, const wchar_t* s, size_t n), (d, s, n), n * 4)
WRAP(wchar_t*, wmemmove, (wchar_t* d, const wchar_t* s, size_t n), (d, s, n), n * 4)
WRAP(wchar_t*, wmemset, (wchar_t* d, wchar_t c, size_t n), (d, c, n), n * 4)
WRAP(size_t, strlen, (const char* s), (s), r * 8)
WRAP(size_t, wcslen, (const wchar_t* s), (s), r * 8)
WRAP(size_t, strnlen, (const char* s, size_t m), (s, m), r * 8)
WRAP(size_t, strspn, (const char* s, const char* a), (s, a), r)
WRAP(size_t, strcspn, (const char* s, const char* a), (s, a), r)
WRAP(char*, strchr, (const char* s, int c), (s, c), r ? size_t(r - s) : std::strlen(s))
WRAP(char*, strpbrk, (const char* s, const char* a), (s, a), r ? size_t(r - s) : std::strlen(s))
WRAP(wchar_t*, wcschr, (const wchar_t* s, wchar_t c), (s, c), (r ? size_t(r - s) : std::wcslen(s)) * 4)
extern void* __libc_malloc(size_t); extern void* __libc_calloc(size_t, size_t); extern void* __libc_realloc(void*, size_t);
void* malloc(size_t n) { if (counting) bytes += n; return __libc_malloc(n); }
void* calloc(size_t n, size_t m) { if (counting) bytes += n * m; return __libc_calloc(n, m); }
void* realloc(void* p, size_t m) { if (counting) bytes += m; return __libc_realloc(p, m); }
}

namespace {

// far above what is needed, far below what anything of a higher order takes
constexpr uint64_t print_limit = 12000, base_limit = 40000, per_char = 400, base_bytes = 4096, bytes_per_char = 64;
enum { o_print, o_parse, o_junk, o_string };

struct Most { uint64_t print, parse, per, bytes, base; } *M;
void most(uint64_t& a, uint64_t v) { if (v > a) a = v; }

// what is to be looked at: up to the first character which can't belong to a number or a special word
size_t relevant(const std::string& t) { size_t n = 0; while (n < t.size() && (isalnum((unsigned char)t[n]) || (t[n] && std::strchr("_.+-()", t[n])))) ++n; return n; }

template<typename C> void parse(mc::Ctx& x, int type, int ch, const std::string& t, int how)
{
	static std::vector<C> w; w.assign(t.begin(), t.end()); w.push_back(C(0));
	x.beat(); x.state();
	step_parse(type, ch, w.data(), t.size(), how);
	x.step(); x.state(); x.trace();
	const size_t n = relevant(t);
	const uint64_t s = steps, b = bytes;
	most(M->parse, s); most(M->bytes, b); if (n < 50) most(M->base, s); if (n > 200) most(M->per, s / n);
	if (s > base_limit + per_char * n) x.fail("%llu steps for %zu characters of a number%s", (unsigned long long)s, n, n == t.size() ? "" : (" (in a text of " + std::to_string(t.size()) + ")").c_str());
	if (b > base_bytes + bytes_per_char * n) x.fail("%llu bytes of memory for %zu characters of a number%s", (unsigned long long)b, n, n == t.size() ? "" : (" (in a text of " + std::to_string(t.size()) + ")").c_str());
	x.outcome(how ? o_string : n == t.size() ? o_parse : o_junk);
	if (x.want_sample()) x.sample(mc::escape(t.substr(0, 40)) + "... (" + std::to_string(t.size()) + " characters) -> " + std::to_string(s) + " steps, " + std::to_string(b) + " bytes");
}

void one(mc::Ctx& x)
{
	const int type = x.c.kind & 1, ch = x.c.kind >> 1 & 3, how = x.c.kind >> 4 & 1;
	if (x.c.kind & 8) {
		static char32_t out[64];
		x.beat(); x.state();
		step_print(type, ch, x.c.a, out);
		x.step(); x.state(); x.trace();
		most(M->print, steps); most(M->bytes, bytes);
		if (steps > print_limit) x.fail("%llu steps to print", (unsigned long long)steps);
		if (bytes > base_bytes) x.fail("%llu bytes of memory to print", (unsigned long long)bytes);
		x.outcome(o_print);
		if (x.want_sample()) x.sample((type ? "float 0x" : "double 0x") + std::to_string(x.c.a) + " -> " + std::to_string(steps) + " steps");
		return;
	}
	const std::string t = mc::expand(x.c);
	switch (ch) { case 0: parse<char>(x, type, ch, t, how); break; case 1: parse<wchar_t>(x, type, ch, t, how); break; case 2: parse<char16_t>(x, type, ch, t, how); break; default: parse<char32_t>(x, type, ch, t, how); }
}
std::string describe(const mc::Case& c)
{
	char b[160];
	if (c.kind & 8) { snprintf(b, sizeof b, "printing %s 0x%llx", c.kind & 1 ? "float" : "double", (unsigned long long)c.a); return b; }
	std::string t = mc::expand(c); const size_t n = t.size(); if (n > 300) t = t.substr(0, 150) + "..." + t.substr(n - 100) + " (" + std::to_string(n) + " characters)";
	return std::string(c.kind & 16 ? "from_string" : "atof") + (c.kind & 1 ? "<float> \"" : "<double> \"") + mc::escape(t) + "\"";
}
const char* const parts[] = { "\1" "0", "\1" "5", "\1" "9", "-0.\1" "0", "0.\1" "7", "12.\1" "0", "1\1" "0", "9007199254740993\1" "0", "0.\1" "01", "1\1" "01", "1e\1" "0", "1e-\1" "05", "2.5e+\1" "9", "nan(\1z)", "nan(\1" "0", "\1(", "infinity\1y", "1.\1.", "1e\1e", "\1-", "0.5\1" "0e-7", "\1" "0.\1" "0", "\1" "0.\1" "0\1" "3", "\1" "3.\1" "0\1" "3", "\1" "8.\1" "4e\1" "0", "1\1" "0.\1" "0\1" "2\1" "0" };
constexpr uint32_t nparts = sizeof parts / sizeof *parts;
const char* const numbers[] = { "1", "-0.1", "123456789", "9007199254740993", "16777217", "1.7976931348623157e308", "1e999", "1e-999", "0", "nan", "nan(5", "inf", "infinit", "", "+", "1e", "1e+", "1.5e-7", "123456789012345678901234567890", "00000000000000000000000000000000001.5" };
constexpr uint32_t nnumbers = sizeof numbers / sizeof *numbers;

} // namespace

int main(int argc, char** argv)
{
	M = static_cast<Most*>(mc::Check::shmap(sizeof(Most)));
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C31"; k.one = one; k.describe = describe;
	k.outcome_names = { "printed", "parsed", "parsed within a longer text", "parsed from a string object" };
	k.domains.push_back({ "printing", "every exponent field x mantissa alphabet of double and float, 4 character types", 2048, [deep](mc::Ctx& x, uint32_t s) {
		static const auto md = gen::mantissas(52, deep ? 10 : 6, deep ? 10 : 6, deep ? 12 : 8), mf = gen::mantissas(23, 8, 8, 10);
		for (uint64_t m : md) { x.c.a = uint64_t(s) << 52 | m; x.c.kind = 8 | uint32_t(m % 4) << 1; one(x); }
		if (s < 256) for (uint64_t m : mf) { x.c.a = uint64_t(s) << 23 | m; x.c.kind = 9 | uint32_t(m % 4) << 1; one(x); }
	} });
	k.domains.push_back({ "numbers-with-a-repeated-part", std::to_string(nparts) + " texts with parts repeated n times, every n up to 300, every 37th (thorough each) up to 2100, and around 2^12..2^17, 4 character types, both functions", nparts * 16, [deep](mc::Ctx& x, uint32_t s) {
		const char* p = parts[s / 16]; x.c.set(std::string(p));
		std::vector<uint64_t> ns; for (uint64_t n = 0; n <= 2100; n += n < 300 || deep ? 1 : 37) ns.push_back(n);
		for (uint64_t b : { 1ull << 12, 1ull << 13, 1ull << 14, 1ull << 15, 1ull << 16, 1ull << 17 }) for (uint64_t d = 0; d < 3; ++d) ns.push_back(b - 1 + d);
		for (uint64_t n : ns) { x.c.a = n; x.c.kind = mc::long_text | (s & 7) | (s & 8) << 1; one(x); }
	} });
	k.domains.push_back({ "numbers-within-long-texts", std::to_string(nnumbers) + " numbers followed by n characters of what doesn't belong to them, n around 0, 2^6..2^19", nnumbers * 16, [deep](mc::Ctx& x, uint32_t s) {
		const std::string num = numbers[s / 16];
		for (const char* j : { " \1x", ",\1" "1", ";\1 ", "\n\1" "0", "\t\1.", " nan(\1z)", ",\1e" }) for (int b = 6; b <= (deep ? 22 : 19); ++b) for (uint64_t d = 0; d < 3; ++d) { x.c.set(num + j); x.c.a = (uint64_t(1) << b) - 1 + d; x.c.kind = mc::long_text | (s & 7) | (s & 8) << 1; one(x); }
	} });
	k.domains.push_back({ "all-short", "all strings of up to 5 characters over {0,1,9,.,e,-,n,a,(,i}", 100, [](mc::Ctx& x, uint32_t s) {
		static const char al[] = "019.e-na(i"; char t[8];
		for (int n = 2; n <= 5; ++n) { uint32_t tot = 1; for (int i = 2; i < n; ++i) tot *= 10; for (uint32_t v = 0; v < tot; ++v) { uint32_t y = v; t[0] = al[s % 10]; t[1] = al[s / 10]; for (int i = 2; i < n; ++i) { t[i] = al[y % 10]; y /= 10; } t[n] = 0; x.c.set(t, size_t(n)); x.c.kind = v & 7; one(x); } }
	} });
	k.domains.push_back({ "digits-with-powers", "digit strings of every length 1..40 x every power in [-420,420], and powers of ten of up to 19 digits", 841, [](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 40, 4);
		for (size_t i = s % 3; i < ds.size(); i += 3) { x.c.set(ds[i] + "e" + std::to_string(int(s) - 420)); x.c.kind = uint32_t(i & 7); one(x); }
		for (int n = 3; n < 20; ++n) { x.c.set("1" + std::string(size_t(n), char('0' + s % 10)) + (s & 1 ? "e-" : "e") + std::string(size_t(n), char('1' + s % 9))); x.c.kind = s & 7; one(x); }
	} });
	k.assumptions = { "steps are basic blocks and accesses to memory of the library's code as compiled by clang++ -O0; the C library's conversions aren't counted", "limits: " + std::to_string(print_limit) + " steps for printing, " + std::to_string(base_limit) + " + " + std::to_string(per_char) + " per character for parsing, " + std::to_string(base_bytes) + " + " + std::to_string(bytes_per_char) + " bytes per character" };
	k.finish = [](const uint64_t*, bool) { fprintf(stdout, "most: %llu steps for printing, %llu for parsing (%llu for short texts, %llu per character of long ones), %llu bytes\n", (unsigned long long)M->print, (unsigned long long)M->parse, (unsigned long long)M->base, (unsigned long long)M->per, (unsigned long long)M->bytes); return std::string(); };
	return k.main(argc, argv);
}

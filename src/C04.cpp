// Output buffer contract.
#include <floaxie/ftoa.h>
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include "guard.h"
#include "lit.h"

// kind: bit 0 - float, bits 1..2 - character type, bit 3 - placement (0: the
// buffer ends at an inaccessible page, 1: it starts right after one)
template<typename F, typename C> static void judge(mc::Ctx& x, bool start)
{
	typedef typename ref::fmt<F>::U U;
	static Guarded g(1);
	constexpr size_t cap = floaxie::max_buffer_size<F>();
	static_assert(floaxie::max_buffer_size<const F&>() == cap, "qualified types");
	const F v = ref::from_bits<F>(U(x.c.a));
	C* buf = start ? g.at_start<C>() : g.at_end<C>(cap);
	// neighbouring accessible area: the other side of the buffer
	C* other = start ? buf + cap : buf - 64;
	const C fill = C(0x5a);
	for (size_t i = 0; i < cap; ++i) buf[i] = fill;
	for (size_t i = 0; i < 64; ++i) other[i] = fill;
	x.beat(); x.state();
	const std::size_t n = floaxie::ftoa(v, buf);
	x.step(); x.state(); x.trace();
	if (n + 1 > cap) x.fail("%zu characters and the terminator exceed max_buffer_size %zu", n, cap);
	for (size_t i = 0; i < n; ++i) if (buf[i] == C(0) || buf[i] == fill) x.fail("character %zu of %zu isn't written", i, n);
	if (buf[n] != C(0)) x.fail("no terminator after %zu characters", n);
	for (size_t i = 0; i < 64; ++i) if (other[i] != fill) x.fail("written outside of the buffer, offset %td", (start ? ptrdiff_t(cap) : -64) + ptrdiff_t(i));
	x.outcome(unsigned(n));
	if (x.want_sample()) { std::string s; for (size_t i = 0; i < n; ++i) s += char(buf[i]); x.sample(s + " fits " + std::to_string(cap) + " (" + std::to_string(sizeof(C)) + " byte characters), nothing else touched"); }
}

// what the buffer held before: b = 0 zeros; 1..10 all the same character; 16 + 2 i, 17 + 2 i a single (non-)zero at position i;
// 256 + j the text of another value
static const uint64_t dirty_values[] = { 0x3ff0000000000000, 0xc059000000000000, 0x3fb999999999999a, 0x0000000000000001, 0x7fefffffffffffff, 0xffefffffffffffff, 0, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x4341c37937e08000, 0x4340000000000001, 0x3e7ad7f29abcaf48, 0x4202a05f20000000, 0xbf2a36e2eb1c432d, 0x41dfffffffc00000, 0x408f400000000000, 0x40c3880000000000, 0x40fe240000000000, 0x4024000000000000, 0xbf50624dd2f1a9fc, 0x8000000000000000, 0x7e37e43c8800759c, 0x81b1234567890abc };
constexpr unsigned n_dirty = sizeof dirty_values / sizeof *dirty_values;
template<typename F, typename C> static void judge_dirty(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	static Guarded g(1);
	constexpr size_t cap = floaxie::max_buffer_size<F>();
	const F v = ref::from_bits<F>(U(x.c.a));
	C want[cap + 64]; C* buf = g.at_end<C>(cap);
	for (C& c : want) c = C(0x5a);
	x.beat(); x.state(2);
	const size_t nw = floaxie::ftoa(v, want);
	static const char same[] = "09.e-naif1";
	const unsigned b = unsigned(x.c.b);
	for (size_t i = 0; i < cap; ++i) buf[i] = b == 0 ? C(0) : b < 11 ? C(same[b - 1]) : b < 256 ? (((b - 16) / 2 == i) == !(b & 1) ? C(0) : C('7')) : C(0);
	if (b >= 256) floaxie::ftoa(F(ref::from_bits<double>(dirty_values[b - 256])), buf);
	const size_t n = floaxie::ftoa(v, buf);
	x.step(2); x.state(); x.trace();
	if (nw + 1 > cap || n != nw) x.fail("length %zu, %zu with a fresh buffer (capacity %zu)", n, nw, cap);
	for (size_t i = 0; i <= n; ++i) if (buf[i] != want[i]) x.fail("character %zu depends on the previous contents of the buffer", i);
	if (buf[n] != C(0)) x.fail("no terminator after %zu characters", n);
	x.outcome(unsigned(n));
}
template<typename F> static void dirty_by_char(mc::Ctx& x) { switch (x.c.kind >> 1 & 3) { case 0: judge_dirty<F, char>(x); break; case 1: judge_dirty<F, wchar_t>(x); break; case 2: judge_dirty<F, char16_t>(x); break; default: judge_dirty<F, char32_t>(x); } }

template<typename F> static void by_char(mc::Ctx& x)
{
	bool st = x.c.kind & 8;
	switch (x.c.kind >> 1 & 3) { case 0: judge<F, char>(x, st); break; case 1: judge<F, wchar_t>(x, st); break; case 2: judge<F, char16_t>(x, st); break; default: judge<F, char32_t>(x, st); }
}
static void one(mc::Ctx& x) { if (x.c.kind & 16) { if (x.c.kind & 1) dirty_by_char<float>(x); else dirty_by_char<double>(x); return; } if (x.c.kind & 1) by_char<float>(x); else by_char<double>(x); }

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C04"; k.one = one;
	for (int i = 0; i < 32; ++i) k.outcome_names.push_back("length " + std::to_string(i));
	k.describe = [](const mc::Case& c) { char b[200]; const char* ct[] = { "char", "wchar_t", "char16_t", "char32_t" }; int n = snprintf(b, sizeof b, "%s buffer %s an inaccessible page, ", ct[c.kind >> 1 & 3], c.kind & 8 ? "starting after" : "ending at"); if (c.kind & 16) n += snprintf(b + n, sizeof b - n, "previous contents %u, ", unsigned(c.b)); if (!(c.kind & 1)) snprintf(b + n, sizeof b - n, "double 0x%016llx (%.17g)", (unsigned long long)c.a, ref::from_bits<double>(c.a)); else snprintf(b + n, sizeof b - n, "float 0x%08x (%.9g)", unsigned(c.a), double(ref::from_bits<float>(uint32_t(c.a)))); return std::string(b); };
	k.domains.push_back({ "double-structured", "every exponent field x every mantissa of the alphabet, both signs, both placements; 4 character types for the small alphabet", 2048, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 12 : 8, deep ? 12 : 8, deep ? 15 : 11);
		static const auto mw = gen::mantissas(52, 3, 3, 5);
		for (uint64_t m : ms) for (int neg = 0; neg < 2; ++neg) { x.c.a = uint64_t(s) << 52 | m | uint64_t(neg) << 63; x.c.kind = 0; one(x); x.c.kind = 8; one(x); }
		for (uint64_t m : mw) for (int neg = 0; neg < 2; ++neg) for (int ch = 1; ch < 4; ++ch) { x.c.a = uint64_t(s) << 52 | m | uint64_t(neg) << 63; x.c.kind = ch << 1; one(x); x.c.kind = ch << 1 | 8; one(x); }
	} });
	k.domains.push_back({ "digit-count-x-power", "doubles nearest to d*10^q, d of every length 1..17, q in [-345,308], both signs, 4 character types, both placements", 654, [deep](mc::Ctx& x, uint32_t s) {
		int q = int(s) - 345;
		static const auto ds = gen::digit_strings(1, 17, deep ? 100 : 20);
		for (auto& d : ds) {
			std::string t = d + "e" + std::to_string(q); double v = ref::magnitude<double>(t.data(), t.data() + t.size(), true);
			if (std::isinf(v)) continue;
			for (int neg = 0; neg < 2; ++neg) for (int ch = 0; ch < 4; ++ch) for (int pl = 0; pl < 2; ++pl) { x.c.a = ref::bits<double>(neg ? -v : v); x.c.kind = ch << 1 | pl << 3; one(x); }
		}
	} });
	k.domains.push_back({ "float-structured", "every exponent field x every mantissa of the alphabet, both signs, both placements, 4 character types", 256, [](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, 9, 9, 11);
		for (uint64_t m : ms) for (int neg = 0; neg < 2; ++neg) for (int ch = 0; ch < 4; ++ch) for (int pl = 0; pl < 2; ++pl) { x.c.a = uint64_t(neg) << 31 | uint64_t(s) << 23 | m; x.c.kind = 1 | ch << 1 | pl << 3; one(x); }
	} });
	k.domains.push_back({ "float-negative", "all negative float bit patterns divisible by 4 (quick) / all of them (thorough), buffer ending at an inaccessible page", 2048, [deep](mc::Ctx& x, uint32_t s) {
		x.c.kind = 1; uint32_t b = s << 20 | 0x80000000u;
		for (uint32_t i = 0; i < 1u << 20; i += deep ? 1 : 4) { x.c.a = b + i; one(x); }
	} });
	k.domains.push_back({ "dirty-buffers", "values of every (length, form) of the structured alphabet (specials, d*10^q with d of every length 1..17 and q in [-40,25] and at the ends of the range) printed over every previous content: zeros, each of 10 characters repeated, a single zero or a single non-zero character at each position, texts of 24 other values; 4 character types", 17 * 4, [deep](mc::Ctx& x, uint32_t s) {
		const size_t len = s / 4 + 1; std::vector<uint64_t> vs;
		static const auto ds = gen::digit_strings(1, 17, deep ? 8 : 1);
		if (len == 1) for (uint64_t b : dirty_values) vs.push_back(b);
		for (auto& d : ds) if (d.size() == len) for (int q = -345; q < 309; q += (q >= -40 && q < 25) || q < -318 || q > 290 ? 1 : 29) { std::string t = d + "e" + std::to_string(q); double v = ref::magnitude<double>(t.data(), t.data() + t.size(), true); if (std::isinf(v)) continue; vs.push_back(ref::bits<double>(q & 1 ? -v : v)); }
		const unsigned last = 16 + 2 * unsigned(floaxie::max_buffer_size<double>());
		for (uint64_t b : vs) for (unsigned pat = 0; pat < 256 + n_dirty; ++pat) { if ((pat > 10 && pat < 16) || (pat >= last && pat < 256)) continue;
			x.c.b = pat; x.c.a = b; x.c.kind = 16 | (s % 4) << 1; one(x);
			if (std::fabs(ref::from_bits<double>(b)) < 3e38 && len < 10) { x.c.a = ref::bits<float>(float(ref::from_bits<double>(b))); x.c.kind |= 1; one(x); } }
		x.c.b = 0;
	} });
	k.assumptions = { "stores are observed by inaccessible pages on one side and a 64 character pattern on the other" };
	lit::printing(k.domains, one, 0, 1);
	return k.main(argc, argv);
}

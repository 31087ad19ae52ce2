// Printed text reads back exactly.
#include <floaxie/ftoa.h>
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include "lit.h"

template<typename F, typename C> static void judge(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const U u = U(x.c.a);
	const F v = ref::from_bits<F>(u);
	char buf[128]; C out[128];
	x.beat(); x.state();
	const std::size_t n = floaxie::ftoa(v, out);
	x.step();
	if (n == 0 || n > 60 || out[n] != C(0)) x.fail("returned length %zu doesn't match the text", n);
	for (std::size_t i = 0; i <= n; ++i) { if (uint32_t(out[i]) > 126) x.fail("code unit %u at %zu", unsigned(out[i]), i); buf[i] = char(out[i]); }
	x.state();
	// exact interpretation of the printed text by an independent reader
	const bool neg = buf[0] == '-';
	F r = 0; auto fc = std::from_chars(buf + neg, buf + n, r, std::chars_format::general);
	x.step(); x.trace();
	const U mag = u & ~(U(1) << (sizeof(U) * 8 - 1));
	const bool vneg = u != mag && mag;
	if (fc.ec == std::errc() && fc.ptr == buf + n && ref::bits<F>(r) == mag && neg == vneg) { x.outcome(std::strchr(buf, 'e') ? 1 : 0); if (x.want_sample()) x.sample(std::string(sizeof(F) == 8 ? "double " : "float ") + std::to_string(u) + " -> " + buf); return; }
	// big-integer confirmation
	ref::Syntax y = ref::scan(buf);
	if (y.kind == ref::number && y.used == n && y.neg == vneg && ref::exactly_right<F>(buf, neg ? -ref::from_bits<F>(mag) : ref::from_bits<F>(mag))) { x.outcome(2); return; }
	x.fail("printed as \"%s\", which is not the value", mc::escape(std::string(buf, n)).c_str());
}

static void one(mc::Ctx& x)
{
	switch (x.c.kind) {
	case 0: judge<double, char>(x); break; case 1: judge<float, char>(x); break;
	case 2: judge<double, wchar_t>(x); break; case 3: judge<float, wchar_t>(x); break;
	case 4: judge<double, char16_t>(x); break; case 5: judge<float, char16_t>(x); break;
	case 6: judge<double, char32_t>(x); break; default: judge<float, char32_t>(x);
	}
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C01"; k.one = one;
	k.outcome_names = { "decimal notation", "exponent notation", "settled by big integers" };
	k.describe = [](const mc::Case& c) { char b[200]; static const char* to[] = { "char", "wchar_t", "char16_t", "char32_t" }; if (!(c.kind & 1)) snprintf(b, sizeof b, "double 0x%016llx (%.17g)", (unsigned long long)c.a, ref::from_bits<double>(c.a)); else snprintf(b, sizeof b, "float 0x%08x (%.9g)", unsigned(c.a), double(ref::from_bits<float>(uint32_t(c.a)))); return std::string(b) + " to " + to[c.kind >> 1 & 3]; };
	k.domains.push_back({ "double-structured", "every binary exponent x every mantissa of the alphabet", 2047, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 16 : 13, deep ? 16 : 13, deep ? 19 : 16);
		x.c.kind = 0;
		for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; one(x); }
	} });
	k.domains.push_back({ "other-character-types", "every binary exponent of double x small mantissa alphabet, float lattice; wchar_t, char16_t and char32_t", 2047, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 9 : 5, deep ? 9 : 5, deep ? 12 : 8), mf = gen::mantissas(23, 5, 5, 8);
		for (uint32_t kd : { 2, 4, 6 }) {
			for (uint64_t m : ms) { x.c.kind = kd; x.c.a = uint64_t(s) << 52 | m; one(x); x.c.a |= uint64_t(1) << 63; if (m % 5 == 0) one(x); }
			if (s < 255) for (uint64_t m : mf) { x.c.kind = kd + 1; x.c.a = uint64_t(s) << 23 | m; one(x); }
		}
	} });
	k.domains.push_back({ "double-short-decimals", "the double nearest to d*10^q and its neighbours (3, thorough 8 at each side) for every d of up to 4 digits (quick) / 5 digits (thorough), q in [-345,308]", 654, [deep](mc::Ctx& x, uint32_t s) {
		int q = int(s) - 345; x.c.kind = 0; char t[32];
		for (int d = 1; d < (deep ? 100000 : 10000); ++d) {
			if (d % 10 == 0) continue;
			int n = snprintf(t, sizeof t, "%de%d", d, q); double v = ref::magnitude<double>(t, t + n, true);
			if (std::isinf(v)) continue;
			x.c.a = ref::bits<double>(v); one(x); x.c.a |= uint64_t(1) << 63; one(x);
			for (uint64_t n = 1; n <= (deep ? 8u : 3u); ++n) { x.c.a = ref::bits<double>(v) + n; if (x.c.a < 0x7ff0000000000000u) one(x); x.c.a = ref::bits<double>(v) - n; if (ref::bits<double>(v) > n) one(x); }
		}
	} });
	k.domains.push_back({ "double-integers", "all integers below 2^20 (quick) / 2^26 (thorough) and their multiples by 2^-10, both signs", 64, [deep](mc::Ctx& x, uint32_t s) {
		x.c.kind = 0; const uint64_t n = uint64_t(1) << (deep ? 26 : 20);
		for (uint64_t i = s; i < n; i += 64) for (double f : { 1.0, -1.0, 1.0 / 1024 }) { x.c.a = ref::bits<double>(double(i) * f); one(x); }
	} });
	k.domains.push_back({ "float-exhaustive", "all 2^31 - 2^23 finite non-negative floats", 255 * 8, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = 1; uint32_t b = s << 20;
		for (uint32_t i = 0; i < 1u << 20; ++i) { x.c.a = b + i; one(x); }
	} });
	k.domains.push_back({ "float-negative", "all finite negative floats", 255 * 8, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = 1; uint32_t b = s << 20 | 0x80000000u;
		for (uint32_t i = 0; i < 1u << 20; ++i) { x.c.a = b + i; one(x); }
	}, true });
	k.assumptions = { "IEEE-754 binary32/binary64", "text value taken from libstdc++ std::from_chars; every disagreement is re-judged by big-integer arithmetic" };
	lit::printing(k.domains, one, 0, 1);
	return k.main(argc, argv);
}

// Tables and scaling factors: powers of ten, the choice of the power for an
// exponent, compile time powers, conversion of decimal fractions to binary.
// HAVE_x says which of the building blocks the tree provides.
#include "mc.h"
#include "ref.h"
#include "gen.h"
#if HAVE_POWERS
#include <floaxie/cached_power.h>
#endif
#if HAVE_SCALE
#include <floaxie/grisu.h>
#endif
#if HAVE_STATIC
#include <floaxie/static_pow.h>
#endif
#if HAVE_FRACTION
#include <floaxie/fraction.h>
#endif
#if HAVE_BITS || HAVE_ROUND
#include <floaxie/bit_ops.h>
#endif
#include <limits>

using exact::Big;
enum { o_power, o_scale, o_static, o_fraction, o_bits, o_round };

// sign of |f*2^e - 10^k| - 2^(e-1), exactly
static int off(uint64_t f, int e, int k)
{
	// compare 2^e*(2f-1)/2 <= 10^k <= 2^e*(2f+1)/2
	auto cmp = [&](unsigned __int128 m, int b) { // 10^k against m*2^b
		Big x = Big::of(1), y; y.w = { uint32_t(m), uint32_t(m >> 32), uint32_t(m >> 64), uint32_t(m >> 96) }; y.trim();
		for (int i = 0; i < std::abs(k); ++i) (k > 0 ? x : y).mul(10);
		if (b > 0) y.shl(unsigned(b)); else x.shl(unsigned(-b));
		return Big::cmp(x, y);
	};
	const int lo = cmp(((unsigned __int128)f << 1) - 1, e - 1), hi = cmp(((unsigned __int128)f << 1) + 1, e - 1);
	return lo < 0 || hi > 0;
}

#if HAVE_POWERS
template<typename F> static void power(mc::Ctx& x)
{
	const int k = int(int64_t(x.c.a));
	x.beat(); x.state();
	const auto p = floaxie::cached_power<F>(k);
	x.step(); x.state(); x.trace(); x.outcome(o_power);
	const uint64_t f = p.mantissa(); const int width = int(sizeof(p.mantissa()) * 8);
	if (!(f >> (width - 1) & 1)) x.fail("10^%d isn't normalized: mantissa 0x%llx", k, (unsigned long long)f);
	if (off(f, p.exponent(), k)) x.fail("10^%d is stored as 0x%llx*2^%d, which is off by more than a half of a unit", k, (unsigned long long)f, p.exponent());
	if (x.want_sample()) { char b[80]; snprintf(b, sizeof b, "10^%d = 0x%llx*2^%d", k, (unsigned long long)f, p.exponent()); x.sample(b); }
}
#endif
#if HAVE_SCALE
// the power chosen for the exponent of an upper boundary brings the product to the range of the digit generation
template<typename F> static void scale(mc::Ctx& x)
{
	constexpr auto par = floaxie::grisu_parameters<F>;
	const int e = int(int64_t(x.c.a));
	x.beat(); x.state();
	const int k = floaxie::k_comp_exp<par.alpha, par.gamma>(e);
	x.step(); x.state(); x.trace(); x.outcome(o_scale);
	const int width = int(sizeof(typename floaxie::diy_fp<F>::mantissa_storage_type) * 8);
	const auto& bd = floaxie::powers_ten<F>::boundaries;
	if (k < bd.first || k > bd.second) x.fail("10^%d is chosen for the exponent %d, the table covers %d..%d", k, e, int(bd.first), int(bd.second));
	const auto c = floaxie::cached_power<F>(k);
	const int r = e + c.exponent() + width; // of the product, before possible normalization
	if (r < par.alpha || r > par.gamma) x.fail("10^%d is chosen for the exponent %d, the product gets the exponent %d beyond %d..%d", k, e, r, par.alpha, par.gamma);
	if (x.want_sample()) { char b[80]; snprintf(b, sizeof b, "exponent %d -> 10^%d, product %d", e, k, r); x.sample(b); }
}
#endif
#if HAVE_STATIC
template<typename T, T base, size_t n, size_t... I> static void seq(mc::Ctx& x, std::index_sequence<I...>) { uint64_t w = 1; const uint64_t got[] = { uint64_t(floaxie::seq_pow<T, base, n>(I))... }; for (size_t i = 0; i <= n; ++i) { if (got[i] != w) x.fail("%llu^%zu is %llu in the sequence", (unsigned long long)base, i, (unsigned long long)got[i]); if (i < n) w *= base; } }
template<unsigned base, unsigned... I> static void stat(mc::Ctx& x, std::integer_sequence<unsigned, I...>) { uint64_t w = 1; const uint64_t got[] = { uint64_t(floaxie::static_pow<base, I>())... }; for (size_t i = 0; i < sizeof...(I); ++i) { if (got[i] != w) x.fail("%u^%zu is %llu", base, i, (unsigned long long)got[i]); w *= base; } }
static void statics(mc::Ctx& x)
{
	x.beat(); x.state(); x.step(); x.trace(); x.outcome(o_static);
	seq<uint64_t, 10, 19>(x, std::make_index_sequence<20>()); seq<uint32_t, 10, 9>(x, std::make_index_sequence<10>()); seq<unsigned int, 10, 4>(x, std::make_index_sequence<5>()); seq<unsigned int, 2, 31>(x, std::make_index_sequence<32>());
	stat<10>(x, std::make_integer_sequence<unsigned, 10>()); stat<2>(x, std::make_integer_sequence<unsigned, 32>());
}
#endif
#if HAVE_FRACTION
// the binary numerator is the decimal fraction cut, at most one unit (and the truncation of the step sizes) below it
template<size_t D, size_t B> static void fraction(mc::Ctx& x)
{
	const unsigned n = unsigned(x.c.a); unsigned den = 1; for (size_t i = 0; i < D; ++i) den *= 10;
	x.beat(); x.state();
	const unsigned got = floaxie::convert_numerator<D, B>(n);
	x.step(); x.state(); x.trace(); x.outcome(o_fraction);
	// |n/den - got/2^B| < 1/2^B, once again as much for truncated divisors
	const int64_t diff = int64_t(uint64_t(n) << B) - int64_t(got) * den;
	if (got >> B || diff < -int64_t(den) || diff > int64_t(den)) x.fail("%u/%u is converted to %u/%u", n, den, got, 1u << B);
	if (x.want_sample()) { char b[80]; snprintf(b, sizeof b, "%u/%u -> %u/%u", n, den, got, 1u << B); x.sample(b); }
}
#endif

#if HAVE_BITS
template<typename T> static void bits(mc::Ctx& x)
{
	const T v = T(x.c.a); const unsigned w = sizeof(T) * 8;
	x.beat(); x.state();
	for (unsigned n = 0; n < w; ++n) if (floaxie::nth_bit<T>(v, n) != bool(v >> n & 1)) x.fail("bit %u isn't recognized", n);
	if (floaxie::highest_bit<T>(v) != bool(v >> (w - 1) & 1)) x.fail("the highest bit isn't recognized");
	for (unsigned n = 0; n <= w + 1; ++n) { const T m = n < w ? T((T(1) << n) - 1) : T(~T(0)); if (floaxie::mask<T>(n) != m) x.fail("wrong mask of %u bits", n); if (n < w && floaxie::raised_bit<T>(n) != T(T(1) << n)) x.fail("wrong bit %u", n); }
	x.step(3 * w); x.state(); x.trace(); x.outcome(o_bits);
}
#endif
#if HAVE_ROUND
// to the nearest multiple of 2^n, ties to even; a tie isn't certain
template<typename T> static void round(mc::Ctx& x)
{
	const T v = T(x.c.a); const unsigned n = unsigned(x.c.b);
	x.beat(); x.state();
	const auto r = floaxie::round_up(v, n);
	x.step(); x.state(); x.trace(); x.outcome(o_round);
	const uint64_t low = uint64_t(v) & ((uint64_t(2) << (n - 1)) - 1), half = uint64_t(1) << (n - 1); const bool odd = n < sizeof(T) * 8 && (uint64_t(v) >> n & 1);
	const bool up = low > half || (low == half && odd), sure = low != half;
	if (bool(r.value) != up || bool(r.is_accurate) != sure) x.fail("rounded %s%s, expected %s%s", r.value ? "up" : "down", r.is_accurate ? "" : " (tie)", up ? "up" : "down", sure ? "" : " (tie)");
}
#endif

static void one(mc::Ctx& x)
{
	switch (x.c.kind) {
#if HAVE_POWERS
	case 0: power<double>(x); break; case 1: power<float>(x); break;
#endif
#if HAVE_SCALE
	case 2: scale<double>(x); break; case 3: scale<float>(x); break;
#endif
#if HAVE_STATIC
	case 4: statics(x); break;
#endif
#if HAVE_FRACTION
	case 5: fraction<4, 7>(x); break; case 6: fraction<3, 7>(x); break; case 7: fraction<2, 4>(x); break; case 8: fraction<4, 10>(x); break; case 9: fraction<1, 3>(x); break;
#endif
#if HAVE_BITS
	case 10: bits<uint8_t>(x); break; case 11: bits<uint16_t>(x); break; case 12: bits<uint32_t>(x); break; case 13: bits<uint64_t>(x); break;
#endif
#if HAVE_ROUND
	case 14: round<uint8_t>(x); break; case 15: round<uint16_t>(x); break; case 16: round<uint32_t>(x); break; case 17: round<uint64_t>(x); break;
#endif
	default: x.beat();
	}
}

int main(int argc, char** argv)
{
	mc::Check c; c.id = "C28"; c.one = one; c.outcome_names = { "power of ten", "scaling", "compile time powers", "fraction", "bits", "rounding" };
	c.describe = [](const mc::Case& k) { static const char* n[] = { "power of ten, double, ", "power of ten, float, ", "scaling, double, exponent ", "scaling, float, exponent ", "compile time powers ", "fraction of 4 digits ", "fraction of 3 digits ", "fraction of 2 digits ", "fraction of 4 digits to 10 bits ", "fraction of 1 digit ", "bits of 8: ", "bits of 16: ", "bits of 32: ", "bits of 64: ", "rounding of 8 bits, ", "rounding of 16 bits, ", "rounding of 32 bits, ", "rounding of 64 bits, " }; return std::string(n[k.kind % 18]) + std::to_string((long long)(int64_t)k.a) + (k.kind >= 14 ? " at bit " + std::to_string(k.b) : std::string()); };
	c.assumptions = { "the building blocks which a tree doesn't provide any more are left to C01, C06 and C07, which judge their results" };
	c.domains.push_back({ "nothing", "keeps the evidence well formed if no building block is provided", 1, [](mc::Ctx& x, uint32_t) { x.beat(); x.state(2); x.step(); } });
#if HAVE_POWERS
	c.domains.push_back({ "powers", "every power of ten of both tables", 16, [](mc::Ctx& x, uint32_t s) {
		{ const auto b = floaxie::powers_ten<double>::boundaries; x.c.kind = 0; for (int k = int(b.first); k <= int(b.second); ++k) if (unsigned(k + 4096) % 16 == s) { x.c.a = uint64_t(int64_t(k)); one(x); } }
		{ const auto b = floaxie::powers_ten<float>::boundaries; x.c.kind = 1; for (int k = int(b.first); k <= int(b.second); ++k) if (unsigned(k + 4096) % 16 == s) { x.c.a = uint64_t(int64_t(k)); one(x); } } } });
#endif
#if HAVE_SCALE
	c.domains.push_back({ "scaling", "every binary exponent of the (normalized) upper boundary of a value", 2, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = s ? 3 : 2;
		// values 2^-1074..2^1024 as 64 bit mantissas, 2^-149..2^128 as 32 bit ones
		if (s == 0) for (int e = -1074 - 63; e <= 1024 - 64; ++e) { x.c.a = uint64_t(int64_t(e)); one(x); }
		else for (int e = -149 - 31; e <= 128 - 32; ++e) { x.c.a = uint64_t(int64_t(e)); one(x); } } });
#endif
#if HAVE_STATIC
	c.domains.push_back({ "static", "powers of 10 and 2 up to the width of the types", 1, [](mc::Ctx& x, uint32_t) { x.c.kind = 4; one(x); } });
#endif
#if HAVE_FRACTION
	c.domains.push_back({ "fractions", "every decimal numerator of 1 to 4 digits, 3 to 10 bits", 1, [](mc::Ctx& x, uint32_t) { const unsigned top[] = { 10000, 1000, 100, 10000, 10 }; for (unsigned k = 0; k < 5; ++k) for (unsigned n = 0; n < top[k]; ++n) { x.c.kind = 5 + k; x.c.a = n; one(x); } } });
#endif
#if HAVE_BITS
	c.domains.push_back({ "bits", "all 8 and 16 bit values, alphabets of 32 and 64 bit values", 16, [](mc::Ctx& x, uint32_t s) {
		for (uint32_t i = s; i < 65536; i += 16) { x.c.a = i; if (i < 256) { x.c.kind = 10; one(x); } x.c.kind = 11; one(x); }
		static const auto a = gen::mantissas(32, 6, 6, 8), b = gen::mantissas(63, 6, 6, 8);
		for (size_t i = s; i < a.size(); i += 16) { x.c.kind = 12; x.c.a = a[i]; one(x); } for (size_t i = s; i < b.size(); i += 16) { x.c.kind = 13; x.c.a = b[i]; one(x); x.c.a |= uint64_t(1) << 63; one(x); } } });
#endif
#if HAVE_ROUND
	c.domains.push_back({ "rounding", "all 8 and 16 bit values, alphabets of 32 and 64 bit values x every position", 64, [](mc::Ctx& x, uint32_t s) {
		for (uint32_t i = s; i < 65536; i += 64) { x.c.a = i; if (i < 256) { x.c.kind = 14; for (x.c.b = 1; x.c.b < 8; ++x.c.b) one(x); } x.c.kind = 15; for (x.c.b = 1; x.c.b < 16; ++x.c.b) one(x); }
		static const auto a = gen::mantissas(32, 8, 8, 10), b = gen::mantissas(63, 8, 8, 10);
		x.c.kind = 16; for (size_t i = s; i < a.size(); i += 64) { x.c.a = a[i]; for (x.c.b = 1; x.c.b < 32; ++x.c.b) one(x); }
		x.c.kind = 17; for (size_t i = s; i < b.size(); i += 64) for (uint64_t top = 0; top < 2; ++top) { x.c.a = b[i] | top << 63; for (x.c.b = 1; x.c.b < 64; ++x.c.b) one(x); } } });
#endif
	return c.main(argc, argv);
}

// Parsing to double is correctly rounded.
#include "parse.h"
#include "lit.h"
#include "carry.h"

static void one(mc::Ctx& x) { one_parse(x, J_VALUE | J_USED | (x.c.kind & 4 ? J_EXACT : 0)); }

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C06"; k.one = one; k.describe = describe_parse; k.outcome_names = parse_outcomes();
	k.domains.push_back({ "short-digits-x-power", "every digit string of up to 4 (thorough 5) digits x every power in [-345,310]", 656, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(deep ? 5 : 4, deep ? 5 : 4, 0);
		int q = int(s) - 345;
		for (auto& d : ds) { x.c.kind = 0; put(x.c, d, q); one(x); }
	} });
	k.domains.push_back({ "long-digits-x-power", "digit strings of every length 5..40 (constant, nines, sparse, lattice of 100 / thorough 1000 per length) x every power such that the value spans the whole range", 700, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 40, deep ? 1000 : 100);
		int top = int(s) - 360;   // position of the leading digit
		for (auto& d : ds) { x.c.kind = 0; put(x.c, d, top - int(d.size())); one(x); }
	} });
	k.domains.push_back({ "near-midpoints", "for every exponent field and every mantissa of the alphabet: the midpoint to the next double, truncated to 15..21, 24, 30 digits and the same plus one unit of the last digit", 2047, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 6 : 2, deep ? 6 : 2, deep ? 9 : 5);
		std::string d; long e10;
		static std::vector<uint64_t> pick; if (pick.empty()) for (size_t i = 0; i < ms.size(); i += deep ? 1 : 5) pick.push_back(ms[i]);
		for (uint64_t m : pick) {
			uint64_t mm; long me; exact::midpoint<double>(uint64_t(s) << 52 | m, mm, me);
			exact::exact_decimal(mm, me, d, e10);
			for (size_t n : { 15, 16, 17, 18, 19, 20, 21, 24, 30 }) {
				if (n >= d.size()) break;
				std::string t = d.substr(0, n); int q = int(e10 + long(d.size() - n));
				x.c.kind = 0; put(x.c, t, q); one(x);
				put(x.c, bump(t), q); one(x);
			}
			put(x.c, d.substr(0, 800), int(e10 + long(d.size() - std::min<size_t>(800, d.size())))); x.c.kind = 4; if (m == pick[0] || d.size() < 60) one(x);
		}
	} });
	k.domains.push_back({ "near-midpoints-19", "for every exponent field and a large mantissa alphabet: 17 and 19 digit decimal neighbours of the midpoint to the next double", 2047, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, 3, 3, deep ? 15 : 12);
		long double sc; (void)sc; char t[64];
		for (uint64_t m : ms) {
			const uint64_t u = uint64_t(s) << 52 | m; const double v = ref::from_bits<double>(u), v2 = ref::from_bits<double>(u + 1);
			if (std::isinf(v2)) continue;
			const long double mid = (static_cast<long double>(v) + static_cast<long double>(v2)) / 2;   // exact in 64 bits of mantissa
			for (int p : { 16, 18 }) {
				auto r = std::to_chars(t, t + sizeof t, mid, std::chars_format::scientific, p); *r.ptr = 0;
				std::string d; const char* e = t; for (; *e != 'e'; ++e) if (*e != '.') d += *e;
				int q = atoi(e + 1) - p;
				x.c.kind = 0; put(x.c, d, q); one(x);
				put(x.c, bump(d), q); one(x);
			}
		}
	} });
	k.domains.push_back({ "point-among-dropped-digits", "for every exponent field x mantissas: the midpoint to the next double truncated to 20..32 digits, and one unit above, with the decimal point behind digit 18..23", 2047, [deep](mc::Ctx& x, uint32_t s) {
		std::string d; long e10;
		for (uint64_t j = 0; j < (deep ? 2000u : 200u); ++j) {
			const uint64_t m = ((uint64_t(s) * 2048 + j) * 0x9E3779B97F4A7C15ull) >> 12;
			uint64_t mm; long me; exact::midpoint<double>(uint64_t(s) << 52 | m, mm, me); exact::exact_decimal(mm, me, d, e10);
			x.c.kind = 0;
			for (size_t n : { 21, 24, 32, 22, 20 }) {
				if (n >= d.size()) continue;
				if (j % 8 && n == 22) break;
				for (int up = 0; up < 2; ++up) for (size_t at = j % 8 ? 20 : 18; at <= (j % 8 ? 21 : 23) && at < n; ++at) {
					const std::string c = up ? bump(d.substr(0, n)) : d.substr(0, n); if (c.size() != n) continue;
					put(x.c, c.substr(0, at) + "." + c.substr(at), int(e10 + long(d.size() - n) + long(n - at))); one(x);
				}
			}
		}
	} });
	k.domains.push_back({ "zeros-x-point-x-power", "digit strings of 10 lengths x every position of the leading digit over the whole range x 0..15 zeros in front x 0..23 zeros behind x decimal point at every place or absent", 660, [deep](mc::Ctx& x, uint32_t s) {
		zeros_and_point(x, int(s) - 345, { 1, 2, 5, 9, 15, 17, 18, 19, 20, 24 }, 0, deep, one);
	} });
	k.domains.push_back({ "printed-doubles", "17 significant digits of every exponent field x every mantissa of the alphabet, as char and wchar_t", 2047, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, 4, 4, deep ? 15 : 11);
		for (uint64_t m : ms) {
			const double v = ref::from_bits<double>(uint64_t(s) << 52 | m);
			auto r = std::to_chars(x.c.text, x.c.text + 64, v, std::chars_format::scientific, 16); *r.ptr = 0; x.c.len = uint32_t(r.ptr - x.c.text);
			x.c.kind = 0; one(x); x.c.kind = 2; one(x);
		}
	} });
	k.domains.push_back({ "fixed-notation", "every string of 1..3 integer digits and 1..3 (thorough 4) fraction digits, with 0..12 zeros behind the decimal point and 0..12 zeros before it", 1000, [deep](mc::Ctx& x, uint32_t s) {
		const int fl = deep ? 10000 : 1000; char t[80];
		for (int f = 0; f < fl; ++f) for (int z = 0; z <= 12; z += 3) for (int zi = 0; zi <= 12; zi += 4) {
			int n = snprintf(t, sizeof t, "%u%s.%s%d", s, std::string(size_t(zi), '0').c_str(), std::string(size_t(z), '0').c_str(), f);
			x.c.kind = 0; x.c.set(t, size_t(n)); one(x);
		}
	} });
	k.domains.push_back({ "oracle-cross-validation", "short digit strings x powers judged by big-integer arithmetic in addition to the runtime's conversion", 656, [](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 24, 1);
		int q = int(s) - 345;
		for (size_t i = s % 3; i < ds.size(); i += 3) { x.c.kind = 4; put(x.c, ds[i], q); one(x); }
	} });
	k.assumptions = { "C locale, round-to-nearest", "libstdc++ std::from_chars as the first oracle, big-integer arithmetic for disagreements and on the cross-validation domain" };
	k.domains.push_back(lit::parsing(one, { 0 }));
	k.domains.push_back(lit::powers(one, { 0 }));
	k.domains.push_back(carry::parsing(one, { 0 }, false, deep));
	return k.main(argc, argv);
}

// Parsing to float is correctly rounded (directly, not through double).
#include "parse.h"
#include "lit.h"
#include "carry.h"

static void one(mc::Ctx& x) { one_parse(x, J_VALUE | J_USED | (x.c.kind & 4 ? J_EXACT : 0)); }

// 9-digit and longer decimal neighbours of the midpoint between consecutive floats
static void midpoints(mc::Ctx& x, uint32_t u, bool many)
{
	char t[64];
	const float v = ref::from_bits<float>(u), v2 = ref::from_bits<float>(u + 1);
	const double mid = std::isinf(v2) ? double(v) + (double(v) - double(ref::from_bits<float>(u - 1))) / 2 : (double(v) + double(v2)) / 2;   // exact
	x.c.kind = 1;
	for (int p : { 8, 11, 14 }) {
		auto r = std::to_chars(t, t + sizeof t, mid, std::chars_format::scientific, p); *r.ptr = 0;
		std::string d; const char* e = t; for (; *e != 'e'; ++e) if (*e != '.') d += *e;
		int q = atoi(e + 1) - p;
		put(x.c, d, q); one(x);
		put(x.c, bump(d), q); one(x);
		if (!many) break;
	}
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C07"; k.one = one; k.describe = describe_parse; k.outcome_names = parse_outcomes();
	k.domains.push_back({ "short-digits-x-power", "every digit string of up to 5 (thorough 6) digits x every power in [-60,42]", 103 * 8, [deep](mc::Ctx& x, uint32_t s) {
		const uint32_t lim = deep ? 1000000 : 100000; char t[32];
		int q = int(s / 8) - 60; x.c.kind = 1;
		for (uint32_t d = 1 + s % 8; d < lim; d += 8) { auto r = std::to_chars(t, t + 16, d); put(x.c, std::string(t, r.ptr), q); one(x); }
	} });
	k.domains.push_back({ "long-digits-x-power", "digit strings of every length 5..40 x every power such that the value spans the whole range", 120, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 40, deep ? 3000 : 400);
		int top = int(s) - 65;
		for (auto& d : ds) { x.c.kind = 1; put(x.c, d, top - int(d.size())); one(x); }
	} });
	k.domains.push_back({ "near-midpoints", "for every exponent field x mantissa alphabet (2^15 lattice, 11 arbitrary top and bottom bits): 9, 12 and 15 digit decimal neighbours of the midpoint to the next float", 255, [](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, 11, 11, 15);
		for (uint64_t m : ms) midpoints(x, uint32_t(s << 23 | m), true);
	} });
	k.domains.push_back({ "midpoints-exact", "for every exponent field x small mantissa alphabet: exact decimal expansion of the midpoint, truncated to every length up to 60, and plus one unit", 255, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, 3, 3, deep ? 8 : 3);
		std::string d; long e10;
		for (uint64_t m : ms) {
			uint64_t mm; long me; exact::midpoint<float>(uint32_t(s << 23 | m), mm, me); exact::exact_decimal(mm, me, d, e10);
			x.c.kind = 1;
			for (size_t n = 5; n <= std::min<size_t>(d.size(), 60); n += 1 + (n > 24) * 4) {
				std::string t = d.substr(0, n); int q = int(e10 + long(d.size() - n));
				put(x.c, t, q); one(x); put(x.c, bump(t), q); one(x);
			}
			put(x.c, d, int(e10)); x.c.kind = m % 4 ? 1 : 5; one(x); x.c.kind = 1; put(x.c, d + "0001", int(e10) - 4); one(x);
		}
	} });
	k.domains.push_back({ "all-floats-9-digits", "every 11th (quick) / every (thorough) finite float printed with 9 significant digits by the C++ runtime", 2040, [deep](mc::Ctx& x, uint32_t s) {
		x.c.kind = 1; const uint32_t b = s << 20; const uint32_t st = deep ? 1 : 11;
		for (uint32_t i = (st - b % st) % st; i < 1u << 20; i += st) {
			auto r = std::to_chars(x.c.text, x.c.text + 40, ref::from_bits<float>(b + i), std::chars_format::scientific, 8); *r.ptr = 0; x.c.len = uint32_t(r.ptr - x.c.text); one(x);
		}
	} });
	k.domains.push_back({ "all-midpoints-9-digits", "9 digit decimal neighbours of the midpoint following every 17th (quick) / every 3rd (thorough) float", 2040, [deep](mc::Ctx& x, uint32_t s) {
		const uint32_t b = s << 20; const uint32_t st = deep ? 3 : 17;
		for (uint32_t i = (st - b % st) % st; i < 1u << 20; i += st) if (b + i) midpoints(x, b + i, false);
	} });
	k.domains.push_back({ "double-rounding", "decimal texts slightly beside a float midpoint, closer than half ulp of double: exact midpoint with a digit appended after 0..6 zeros (or preceded by 9s)", 255, [](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, 4, 4, 5);
		std::string d; long e10;
		for (uint64_t m : ms) {
			uint64_t mm; long me; exact::midpoint<float>(uint32_t(s << 23 | m), mm, me); exact::exact_decimal(mm, me, d, e10);
			x.c.kind = 1;
			for (int z = 0; z <= 6; z += 2) {
				put(x.c, d + std::string(size_t(z), '0') + "1", int(e10) - z - 1); one(x);
				std::string l = d; for (size_t i = l.size(); i--;) { if (l[i] == '0') l[i] = '9'; else { --l[i]; break; } }
				put(x.c, l + std::string(size_t(z), '9') + "9", int(e10) - z - 1); one(x);
			}
		}
	} });
	k.domains.push_back({ "point-among-dropped-digits", "every 127th (thorough 7th) float: the midpoint to the next float truncated to 11..24 digits, and one unit above, with the decimal point behind digit 9..12", 2040, [deep](mc::Ctx& x, uint32_t s) {
		const uint32_t b = s << 20, st = deep ? 7 : 127; char t[64]; x.c.kind = 1;
		for (uint32_t i = (st - b % st) % st; i < 1u << 20; i += st) {
			const uint32_t u = b + i; if (!u || u + 1 >= 0x7f800000u) continue;
			const double mid = (double(ref::from_bits<float>(u)) + double(ref::from_bits<float>(u + 1))) / 2;   // exact
			auto r = std::to_chars(t, t + sizeof t, mid, std::chars_format::scientific, 23); *r.ptr = 0;
			std::string d; const char* e = t; for (; *e != 'e'; ++e) if (*e != '.') d += *e;
			const int e10 = atoi(e + 1) - 23;
			for (size_t n : { 11, 14, 24 }) for (int up = 0; up < 2; ++up) for (size_t at = i % 8 ? 10 : 9; at <= (i % 8 ? 11u : 12u) && at < n; ++at) {
				const std::string c = up ? bump(d.substr(0, n)) : d.substr(0, n); if (c.size() != n) continue;
				put(x.c, c.substr(0, at) + "." + c.substr(at), e10 + int(d.size() - n) + int(n - at)); one(x);
			}
		}
	} });
	k.domains.push_back({ "zeros-x-point-x-power", "digit strings of 12 lengths x every position of the leading digit over the whole range x 0..15 zeros in front x 0..23 zeros behind x decimal point at every place or absent", 103, [deep](mc::Ctx& x, uint32_t s) {
		zeros_and_point(x, int(s) - 60, { 1, 2, 4, 5, 6, 7, 8, 9, 10, 12, 17, 24 }, 1, deep, one);
	} });
	k.domains.push_back({ "wchar", "9 digit texts of exponent fields x mantissa alphabet as wchar_t", 255, [](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, 6, 6, 10);
		x.c.kind = 3;
		for (uint64_t m : ms) { auto r = std::to_chars(x.c.text, x.c.text + 40, ref::from_bits<float>(uint32_t(s << 23 | m)), std::chars_format::scientific, 8); *r.ptr = 0; x.c.len = uint32_t(r.ptr - x.c.text); one(x); }
	} });
	k.assumptions = { "C locale, round-to-nearest", "libstdc++ std::from_chars as the first oracle, big-integer arithmetic for disagreements" };
	k.domains.push_back(lit::parsing(one, { 1 }));
	k.domains.push_back(lit::powers(one, { 1 }));
	k.domains.push_back(carry::parsing(one, { 1 }, true, deep));
	return k.main(argc, argv);
}

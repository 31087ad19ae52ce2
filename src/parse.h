// Judging one parsed text against the reference.
#pragma once
#include <floaxie/atof.h>
#include <cerrno>
#include "mc.h"
#include "ref.h"
#include "gen.h"

enum { J_VALUE = 1, J_USED = 2, J_STATUS = 4, J_EXACT = 8 };

template<typename F> std::string num(F v) { char b[80]; snprintf(b, sizeof b, sizeof(F) == 8 ? "%.17g" : "%.9g", double(v)); return b; }

// text of the case is ASCII
template<typename F, typename C> void judge_parse(mc::Ctx& x, unsigned what)
{
	static C wide[mc::text_max];
	const C* s; const char* narrow = x.c.text;
	std::string lt; std::basic_string<C> lw;
	if (x.c.kind & mc::long_text) { lt = mc::expand(x.c); narrow = lt.c_str(); lw.assign(lt.begin(), lt.end()); s = lw.c_str(); }
	else if constexpr (sizeof(C) == 1) s = x.c.text;
	else { for (uint32_t i = 0; i <= x.c.len; ++i) wide[i] = C((unsigned char)x.c.text[i]); s = wide; }
	x.beat(); x.state();
	C* end = nullptr;
	const auto r = floaxie::atof<F>(s, &end);
	x.step(); x.state();
	const ref::Value<F> w = ref::parse<F>(narrow);
	x.trace();
	if (const F number = r; ref::bits<F>(number) != ref::bits<F>(r.value)) x.fail("used as a number, the result is %s, its value is %s", num<F>(number).c_str(), num<F>(r.value).c_str());
	if (what & J_VALUE) {
		if (!ref::same<F>(r.value, w.value)) {
			if (w.kind == ref::number && ref::exactly_right<F>(narrow, r.value)) x.outcome(15);
			else x.fail("parsed as %s, correctly rounded value is %s", num<F>(r.value).c_str(), num<F>(w.value).c_str());
		}
		if ((what & J_EXACT) && w.kind == ref::number && !ref::exactly_right<F>(narrow, r.value)) x.fail("parsed as %s, which is not the correctly rounded value per big-integer arithmetic", num<F>(r.value).c_str());
	}
	if ((what & J_USED) && end != s + w.used) x.fail("%td characters consumed, %zu expected", end ? end - s : -1, w.used);
	if ((what & J_STATUS) && int(r.status) != int(w.status)) x.fail("status %d, %d expected", int(r.status), int(w.status));
	x.outcome(unsigned(w.kind) * 3 + unsigned(w.status));
	if (x.want_sample()) x.sample(std::string(x.c.text).substr(0, 120) + " -> " + num<F>(r.value) + ", status " + std::to_string(int(r.status)) + ", " + std::to_string(w.used) + " characters");
}

inline const std::vector<std::string>& parse_outcomes()
{
	static const std::vector<std::string> v{ "no number", "-", "-", "number in range", "number, underflow to zero", "number, overflow", "infinity", "-", "-", "nan", "-", "-", "-", "-", "-", "settled by big integers" };
	return v;
}

// kind: bit 0 float, bit 1 wchar_t only (both character types otherwise)
inline void one_parse(mc::Ctx& x, unsigned what)
{
	if (!(x.c.kind & 2)) {
		if (x.c.kind & 1) judge_parse<float, char>(x, what); else judge_parse<double, char>(x, what);
		x.c.kind |= 2; what &= ~unsigned(J_EXACT);
		if (x.c.kind & 1) judge_parse<float, wchar_t>(x, what); else judge_parse<double, wchar_t>(x, what);
		x.c.kind &= ~2u;
		return;
	}
	switch (x.c.kind & 3) { case 0: judge_parse<double, char>(x, what); break; case 1: judge_parse<float, char>(x, what); break; case 2: judge_parse<double, wchar_t>(x, what); break; default: judge_parse<float, wchar_t>(x, what); }
}
inline std::string describe_parse(const mc::Case& c)
{
	std::string t = mc::expand(c); if (t.size() > 900) t = t.substr(0, 400) + "..." + t.substr(t.size() - 400) + " (" + std::to_string(mc::expand(c).size()) + " characters)";
	return std::string(c.kind & 1 ? "float" : "double") + (c.kind & 2 ? " from wchar_t \"" : " from \"") + mc::escape(t) + "\"";
}

inline void put(mc::Case& c, const std::string& d, int q) { std::memcpy(c.text, d.data(), d.size()); char* p = c.text + d.size(); *p++ = 'e'; auto r = std::to_chars(p, p + 8, q); *r.ptr = 0; c.len = uint32_t(r.ptr - c.text); }

// texts with a part repeated very many times; the mantissa stays within the documented limit
inline const std::vector<std::string>& long_templates()
{
	static const std::vector<std::string> v = [] { std::vector<std::string> r{
		"nan(\1a)", "-NaN(\1_)", "nan(\1Z", "nan(\1" "0-)", "nan(\1" "9)5", "1e\1" "05", "1.5e-\1" "0" "7", "-25E+\1" "0", "1e\1" "9", "1e-\1" "9", "0e\1" "9", "-0.0e-\1" "1", "9007199254740993e\1" "0", "123456789012345678901234567890e-\1" "0" "20", "16777217e-\1" "0" "0", "1e-\1" "0" "400", "12e\1" "0" "400",
		"1 \1" "9", "2.5,\1" "0", "7x\1" "y", "1e+\1+", "3e-\1" "e", "inf\1i", "infinity\1y", "-infinit\1y", "nan\1n", "1..\1" "5", "4.5.\1" "5e5", "1e5.\1" "5", "1e5e\1" "5", "9007199254740993 \1" "5", "16777217;\1" "0e5", "\1 1", "\1-1", "\1.", "\1n", "\1i", "\1(", "-\1-", "x\1" "5" }; return r; }();
	return v;
}
inline mc::Domain long_domain(bool deep, std::function<void(mc::Ctx&)> one, std::vector<uint32_t> kinds, std::function<bool(const std::string&)> which = nullptr)
{
	const auto& ts = long_templates();
	return { "very-long-texts", std::to_string(ts.size()) + " texts with a part (exponent padding, exponent digits, characters of nan(), what follows the number) repeated n times, n around 2048, 2^15, 2^16, 2^17, 2^20 (thorough up to 2^24)", uint32_t(ts.size()), [=](mc::Ctx& x, uint32_t s) {
		const std::string& t = long_templates()[s]; if (which && !which(t)) return;
		for (uint64_t n : mc::long_lengths(deep)) for (uint32_t kd : kinds) { x.c.set(t); x.c.a = n; x.c.kind = kd | mc::long_text; one(x); }
	} };
}

// <lz zeros><digits><tz zeros> with the point everywhere, the value being 0.ddd * 10^top
inline void zeros_and_point(mc::Ctx& x, int top, const std::vector<int>& lengths, uint32_t kind, bool deep, void (*one)(mc::Ctx&))
{
	uint64_t seed = uint64_t(top + 1000) * 0x9E3779B97F4A7C15ull;
	for (int n : lengths) for (int lz = 0; lz < 16; ++lz) for (int tz = 0; tz < 24; ++tz) {
		seed = seed * 6364136223846793005ull + 1442695040888963407ull;
		char d[80]; int l = 0; uint64_t y = seed;
		for (int i = 0; i < lz; ++i) d[l++] = '0';
		for (int i = 0; i < n; ++i) { y = y * 6364136223846793005ull + 1442695040888963407ull; int c = int((y >> 33) % 10); if (!c && (i == 0 || i == n - 1)) c = 1 + int((y >> 40) % 9); d[l++] = char('0' + c); }
		for (int i = 0; i < tz; ++i) d[l++] = '0';
		// all places of the point; quick: every third, a different one of three for every number of zeros
		for (int at = deep ? 0 : (lz + tz) % 3; at <= l + 1; at += deep ? 1 : 3) {
			char* t = x.c.text; int p = l; size_t m = 0;
			if (at <= l) { p = at; std::memcpy(t, d, size_t(at)); t[at] = '.'; std::memcpy(t + at + 1, d + at, size_t(l - at)); m = size_t(l) + 1; } else { std::memcpy(t, d, size_t(l)); m = size_t(l); }
			const int e = top - (p - lz); // p - lz digits are before the point
			t[m++] = tz & 1 ? 'E' : 'e'; if (e >= 0 && (lz & 1)) t[m++] = '+';
			auto r = std::to_chars(t + m, t + m + 8, e); *r.ptr = 0; x.c.len = uint32_t(r.ptr - t);
			x.c.kind = kind; one(x);
		}
	}
}

// decimal neighbours of the exact value D*10^e10 with n digits: D truncated and D truncated + 1
inline std::string bump(std::string d) { for (size_t i = d.size(); i--;) { if (d[i] == '9') d[i] = '0'; else { ++d[i]; return d; } } return "1" + d; }

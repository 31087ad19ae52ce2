// Alphabet taken from the tree itself: all numbers and words its headers name.
// They only extend what is enumerated, they never decide a verdict.
#pragma once
#include <dirent.h>
#include <algorithm>
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "mc.h"
#include "ref.h"

namespace lit {

struct All { std::vector<uint64_t> numbers; std::vector<std::string> words; std::vector<double> reals; std::vector<std::string> sequences; };

inline void scan(const std::string& t, All& a)
{
	std::vector<uint64_t> found; std::vector<double> reals; std::vector<size_t> braces; std::string chars;
	for (size_t i = 0; i < t.size();) {
		const char c = t[i];
		if (c == '/' && t[i + 1] == '/') { while (i < t.size() && t[i] != '\n') ++i; }
		else if (c == '/' && t[i + 1] == '*') { size_t e = t.find("*/", i + 2); i = e == std::string::npos ? t.size() : e + 2; }
		else if (c == '#') { while (i < t.size() && t[i] != '\n') { if (t.compare(i, 6, "define") == 0) break; ++i; } ++i; }
		else if (c == '"') { std::string w; for (++i; i < t.size() && t[i] != '"' && t[i] != '\n'; ++i) { if (t[i] == '\\') ++i; w += t[i]; } ++i; if (!w.empty() && w.size() <= 30) a.words.push_back(w); }
		else if (c == '\'') {
			// a character, to be joined with those which follow
			int v = 0; size_t e = i + 1;
			if (t[e] != '\\') v = (unsigned char)t[e++];
			else { const char k = t[++e]; if (k == 'x') v = int(std::strtoul(t.c_str() + e + 1, nullptr, 16)); else if (k >= '0' && k <= '7') v = int(std::strtoul(t.c_str() + e, nullptr, 8)); else { static const char from[] = "abfnrtv", to[] = "\a\b\f\n\r\t\v"; const char* p = strchr(from, k); v = p ? to[p - from] : k; } ++e; }
			while (e < t.size() && t[e] != '\'' && t[e] != '\n') ++e;
			i = e + 1;
			if (v > 0 && v < 128) { if (chars.empty() || tolower(chars.back()) != tolower(v)) chars += char(v); }
		}
		else if (c == '{') { braces.push_back(found.size()); ++i; }
		else if (c == '}') { if (!braces.empty()) { if (found.size() - braces.back() > 100 && braces.size() > 1) { bool table = t.find(';', i) < i + 4; if (table) found.resize(braces.back()); } braces.pop_back(); } ++i; } // tables aren't what is looked for
		else if (c == '_' || (c | 32) - 'a' + 0u < 26u) { while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_')) ++i; }
		else if (c >= '0' && c <= '9') {
			std::string n; size_t k = i; const bool hex = c == '0' && (t[i + 1] | 32) == 'x';
			while (k < t.size() && (isalnum((unsigned char)t[k]) || t[k] == '.' || t[k] == '\'' || (!hex && (t[k] == '+' || t[k] == '-') && (t[k - 1] | 32) == 'e'))) { if (t[k] != '\'') n += t[k]; ++k; }
			i = k;
			if (!hex && n.find_first_of(".eE") != std::string::npos) { reals.push_back(std::strtod(n.c_str(), nullptr)); continue; }
			errno = 0; uint64_t v = std::strtoull(n.c_str() + (c == '0' && (n.size() > 1 && (n[1] | 32) == 'b') ? 2 : 0), nullptr, (n.size() > 1 && (n[1] | 32) == 'b') ? 2 : 0); if (!errno) found.push_back(v);
		}
		else ++i;
	}
	a.numbers.insert(a.numbers.end(), found.begin(), found.end());
	a.reals.insert(a.reals.end(), reals.begin(), reals.end());
	if (chars.size() > 1000) chars.resize(1000);
	for (size_t i = 0; i < chars.size(); ++i) for (size_t n = 1; n <= 8 && i + n <= chars.size(); ++n) a.sequences.push_back(chars.substr(i, n));
	// unusual characters are often tested for before the others
	for (size_t i = 0; i < chars.size(); ++i) if (!isalnum((unsigned char)chars[i])) for (size_t j = i + 2; j < chars.size() && j < i + 8; ++j) for (size_t n = 1; n <= 5 && j + n <= chars.size(); ++n) a.sequences.push_back(chars[i] + chars.substr(j, n));
}

inline const All& all()
{
	static const All r = [] {
		All a; const char* repo = getenv("FLOAXIE_REPO"); const std::string dir = std::string(repo ? repo : "/repo") + "/include/floaxie";
		std::vector<std::string> dirs{ dir }, files;
		for (size_t k = 0; k < dirs.size() && k < 20; ++k) if (DIR* d = opendir(dirs[k].c_str())) { while (dirent* e = readdir(d)) { if (e->d_name[0] == '.') continue; (e->d_type == DT_DIR ? dirs : files).push_back(dirs[k] + "/" + e->d_name); } closedir(d); }
		std::sort(files.begin(), files.end());
		for (const std::string& f : files) { std::ifstream i(f); std::stringstream s; s << i.rdbuf(); scan(s.str() + "\n  ", a); }
		auto uniq = [](auto& v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); };
		for (const std::string& w : a.words) if (w.size() <= 12) a.sequences.push_back(w);
		a.sequences.erase(std::remove_if(a.sequences.begin(), a.sequences.end(), [](const std::string& w) { int digits = 0; for (char c : w) { if (c <= 0) return true; digits += c >= '0' && c <= '9'; } return digits > 3; }), a.sequences.end());
		uniq(a.numbers); uniq(a.words); uniq(a.reals); uniq(a.sequences);
		if (a.sequences.size() > 5000) a.sequences.resize(5000);
		if (a.numbers.size() > 600) a.numbers.resize(600);
		return a; }();
	return r;
}
// with the neighbours
inline const std::vector<uint64_t>& numbers()
{
	static const std::vector<uint64_t> r = [] { std::set<uint64_t> s; for (uint64_t v : all().numbers) { s.insert(v); s.insert(v + 1); if (v) s.insert(v - 1); } return std::vector<uint64_t>(s.begin(), s.end()); }();
	return r;
}
inline std::vector<int> small(int limit) { std::vector<int> r; for (uint64_t v : numbers()) if (v <= uint64_t(limit)) r.push_back(int(v)); return r; }

// mantissa fields of `w` bits where a number is found: at the low end with zeros or ones above, at the high end with zeros or ones
// below, behind the implicit bit, and those complemented
inline std::vector<uint64_t> mantissas(int w)
{
	const uint64_t mask = (uint64_t(1) << w) - 1; std::set<uint64_t> s;
	for (uint64_t v : numbers()) {
		if (!v) continue;
		const int n = 64 - __builtin_clzll(v);
		auto add = [&](uint64_t m) { s.insert(m & mask); s.insert(~m & mask); };
		add(v); if (n <= w) { add(v | (mask << n)); add(v << (w - n)); add(v << (w - n) | ((uint64_t(1) << (w - n)) - 1)); }
		if (n <= w + 1) add(v << (w + 1 - n)); else add(v >> (n - w - 1));
		for (int k : { 8, 16, 32 }) if (n + k <= w) add(v << k);
	}
	return std::vector<uint64_t>(s.begin(), s.end());
}
template<typename F> std::vector<F> values()
{
	std::vector<F> r; auto add = [&](double d) { const F f = F(d); if (std::isfinite(f) && f) { r.push_back(f); r.push_back(F(1) / f); r.push_back(std::nextafter(f, F(0))); r.push_back(std::nextafter(f, std::numeric_limits<F>::infinity())); } };
	for (uint64_t v : numbers()) add(double(v));
	for (double d : all().reals) add(d);
	return r;
}

// domains for checks of printing; `kinds` are given to the cases
inline void printing(std::vector<mc::Domain>& to, void (*one)(mc::Ctx&), uint32_t kind_double, uint32_t kind_float)
{
	to.push_back({ "numbers-of-the-source-as-mantissas", "every number named in the headers and its neighbours at the ends of the mantissa, in both complements, x every binary exponent, both signs", 2047, [=](mc::Ctx& x, uint32_t s) {
		static const auto md = mantissas(52), mf = mantissas(23);
		for (uint64_t m : md) { x.c.kind = kind_double; x.c.a = uint64_t(s) << 52 | m; one(x); x.c.a |= uint64_t(1) << 63; one(x); }
		if (s < 255) for (uint64_t m : mf) { x.c.kind = kind_float; x.c.a = uint64_t(s) << 23 | m; one(x); x.c.a |= 0x80000000u; one(x); }
	} });
	to.push_back({ "numbers-of-the-source-as-digits", "the values nearest to n*10^q for every number n named in the headers and its neighbours, every q, and the values themselves, their reciprocals and neighbours", 655, [=](mc::Ctx& x, uint32_t s) {
		auto put = [&](double d) { if (!std::isfinite(d)) return; for (double v : { d, -d }) { x.c.kind = kind_double; x.c.a = ref::bits<double>(v); one(x); const float f = float(v); if (std::isfinite(f)) { x.c.kind = kind_float; x.c.a = ref::bits<float>(f); one(x); } } };
		if (s == 654) { for (double d : values<double>()) put(d); for (float f : values<float>()) put(f); return; }
		char t[48]; for (uint64_t v : numbers()) { const int n = snprintf(t, sizeof t, "%llue%d", (unsigned long long)v, int(s) - 345); const double d = ref::magnitude<double>(t, t + n, true); put(d); put(std::nextafter(d, 0)); put(std::nextafter(d, HUGE_VAL)); }
	} });
}

// texts made of the numbers: as digits with every power, as lengths of every part and as exponents
inline void texts(mc::Ctx& x, uint32_t s, uint32_t shards, void (*one)(mc::Ctx&), const std::vector<uint32_t>& kinds, size_t limit = 2040)
{
	auto put = [&](const std::string& t) { if (t.size() > limit || t.size() >= mc::text_max - 1) return; for (uint32_t k : kinds) { x.c.set(t); x.c.kind = k; one(x); } };
	const auto& ns = numbers();
	for (size_t i = s; i < ns.size(); i += shards) {
		const uint64_t v = ns[i]; const std::string d = std::to_string((unsigned long long)v);
		for (const char* before : { "", "-", "1", "9007199254740993", "0." }) for (const char* after : { "", "1", "5", "0000000000000001", ".5" }) {
			if (*before == '0' && *after == '.') continue;
			const std::string m = before + d + after;
			for (int q = -345; q <= 310; q += (*before || *after) ? 5 : 1) put(m + "e" + std::to_string(q));
			put(m);
		}
		for (const char* m : { "1", "-7.25", "0.0001", "123456789012345678", "123456789012345678901234567890", "0" }) for (const char* e : { "e", "E-", "e+", "e00", "e-0" }) for (const char* z : { "", "x", ".", "e" }) put(m + (e + d) + z);
		if (v > limit) continue;
		const size_t n = size_t(v); const std::string zeros(n, '0');
		for (const char* a : { "1", "7", "1234567890123456789" , "9007199254740993" }) for (const char* b : { "", "1", "5", "1234567890123456789" }) {
			const std::string l = std::to_string((long)n), m = std::string(a);
			for (const std::string& t : { m + zeros + b, zeros + m + "." + b, "0." + zeros + m + b, m + "." + zeros + b, m + zeros + "." + zeros + b, "." + zeros + m + "e" + l, m + zeros + b + "e-" + l, m + b + "e" + zeros + "5", m + "." + b + "e-" + zeros + "7", m + b + std::string(n, ' '), m + b + std::string(n, 'x'), std::string("nan(") + std::string(n, 'a') + ")" + b }) put(t);
		}
		std::string r; for (size_t k = 0; k < n; ++k) r += char('1' + (k * 7 + n) % 9);
		for (size_t dot : { size_t(0), size_t(1), n / 2, n > 17 ? size_t(17) : n, n > 18 ? size_t(18) : n, n > 19 ? size_t(19) : n, n > 20 ? size_t(20) : n, n ? n - 1 : n, n }) { if (dot > n) continue; const std::string t = r.substr(0, dot) + "." + r.substr(dot); for (int q : { 0, -int(n), int(n), -300, 300, -45, 38 }) { put(t + "e" + std::to_string(q)); } put(t); put("-" + t + "1"); }
		// the number as a power of the value, whatever the place of the point
		for (size_t k = 1; k < 40; ++k) for (int sgn : { -1, 1 }) { put(std::string(k, '3') + "e" + std::to_string(sgn * int(n) - int(k))); put("0." + std::string(k, '0') + "37e" + std::to_string(sgn * int(n) + int(k))); put("1" + std::string(k, '0') + "e" + std::to_string(sgn * int(n) - int(k))); }
	}
	// what the source compares characters with, in the same order, at every place of a number
	const auto& qs = all().sequences;
	for (size_t i = s; i < qs.size(); i += shards) for (const char* g : { "1", "-2", "12.5", ".5", "1.", "1e5", "7e-10", "0", "-0.0", "inf", "nan", "nan(1)", "12345678901234567890", "" }) {
		const std::string m(g); const size_t n = m.size();
		for (size_t at = 0; at <= n; at += n > 8 && at > 1 && at + 8 < n ? n - at - 7 : 1) { put(m.substr(0, at) + qs[i] + m.substr(at)); if (at < n) put(m.substr(0, at) + qs[i] + m.substr(at + 1)); put(m.substr(0, at) + qs[i]); put(m.substr(0, at) + qs[i] + "1"); }
	}
	if (s == 0) for (const std::string& w : all().words) for (const char* a : { "", "-", "+", "1", "1.5e" }) for (const char* b : { "", "1", "e5", "(" }) { std::string u = w, l = w; for (char& c : u) c = char(toupper((unsigned char)c)); for (char& c : l) c = char(tolower((unsigned char)c)); for (const std::string& t : { w, u, l }) { bool ascii = true; for (char c : t) ascii &= c > 0; if (ascii) put(a + t + b); } }
}
inline mc::Domain parsing(void (*one)(mc::Ctx&), std::vector<uint32_t> kinds, size_t limit = 2040)
{
	return { "numbers-of-the-source", std::to_string(all().numbers.size()) + " numbers named in the headers and their neighbours, as digits with every power, as lengths of every part, as exponents and powers; the words and " + std::to_string(all().sequences.size()) + " sequences of characters named there, at every place of a number", 96, [=](mc::Ctx& x, uint32_t s) { texts(x, s, 96, one, kinds, limit); } };
}

// exponents which some width of an integer can't hold, or holds as a power in range
inline mc::Domain powers(void (*one)(mc::Ctx&), std::vector<uint32_t> kinds)
{
	return { "powers-of-all-widths", "10 mantissas of both signs times powers next to 2^7 .. 2^70 and to 10^2 .. 10^22, and times 2^k+q for k of 15, 16, 17, 31, 32, 33, 63, 64 with every 5th q which would be in range", 71, [=](mc::Ctx& x, uint32_t s) {
		auto text = [](unsigned __int128 v) { std::string t; do { t.insert(t.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return t; };
		std::vector<std::string> es; typedef unsigned __int128 W; W p = 1;
		for (uint32_t i = 0; i < s % 23; ++i) p *= 10;
		for (int d = -4; d <= 4; ++d) for (W v : { W(1) << s, p }) if (v > 4) { es.push_back(text(v + W(__int128(d)))); es.push_back("000" + es.back()); }
		for (uint32_t k : { 15u, 16u, 17u, 31u, 32u, 33u, 63u, 64u }) for (int q = -380 + int(s) * 5; q <= 340; q += 71 * 5) es.push_back(text((W(1) << k) + W(__int128(q))));
		for (const char* sg : { "", "-" }) for (const char* m : { "1", "7", "0.001", "123456789", "9007199254740993", "1234567890123456789", "123456789012345678901234567890", "0", ".5", "1000000000000000000000000" }) for (const char* g : { "e", "e-", "E+" }) for (auto& e : es) for (uint32_t k : kinds) { x.c.set(sg + (m + (g + e))); x.c.kind = k; one(x); }
	} };
}

} // namespace lit

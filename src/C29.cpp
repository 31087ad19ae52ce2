// The scanner: how a text is divided into sign, significant digits, power of
// ten and exponent before any rounding takes place.  HAVE_x says which of the
// parts the tree provides.
#include <floaxie/krosh.h>
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include "lit.h"
#include "carry.h"
#include <limits>
#include <type_traits>

using exact::Big;
enum { o_exact, o_cut, o_zero, o_word, o_nothing, o_exponent, o_saturated, o_noexp };

// what the grammar says about the mantissa part of a text
struct Parts { bool sign = true, word = false, nan = false, number = false; size_t end = 0; std::string digits; long q = 0; };
static bool letter(char c, char l) { return c == l || c == l - 32; }
static Parts scan(const char* s)
{
	Parts p; size_t i = 0;
	if (s[i] == '+' || s[i] == '-') { p.sign = s[i] == '+'; ++i; }
	auto is = [&](size_t k, const char* w) { for (; *w; ++w, ++k) if (!letter(s[k], *w)) return false; return true; };
	if (is(i, "nan")) { p.word = p.nan = true; p.end = i + 3; if (s[p.end] == '(') { size_t k = p.end + 1; while ((s[k] >= '0' && s[k] <= '9') || (s[k] >= 'a' && s[k] <= 'z') || (s[k] >= 'A' && s[k] <= 'Z') || s[k] == '_') ++k; if (s[k] == ')') p.end = k + 1; } return p; }
	if (is(i, "inf")) { p.word = true; p.end = i + 3; if (is(i, "infinity")) p.end = i + 8; return p; }
	bool dot = false;
	for (;; ++i) {
		if (s[i] >= '0' && s[i] <= '9') { p.digits += s[i]; if (dot) --p.q; p.number = true; }
		else if (s[i] == '.' && !dot) dot = true;
		else break;
	}
	if (p.number) p.end = i;
	// without the zeros in front and behind
	const size_t z = p.digits.find_first_not_of('0');
	if (z == std::string::npos) { p.digits.clear(); p.q = 0; } else { p.digits.erase(0, z); while (p.digits.back() == '0') { p.digits.pop_back(); ++p.q; } }
	return p;
}

template<typename T, typename = void> struct has_error : std::false_type { static unsigned get(const T&, bool cut) { return cut ? 4 : 0; } };
template<typename T> struct has_error<T, decltype(void(std::declval<T>().error))> : std::true_type { static unsigned get(const T& t, bool) { return unsigned(t.error); } };

#if HAVE_DIGITS
template<typename F, typename C> static void digits(mc::Ctx& x)
{
	static C wide[mc::text_max];
	const char* t = x.c.text; for (uint32_t i = 0; i <= x.c.len; ++i) wide[i] = C((unsigned char)t[i]);
	const Parts p = scan(t);
	constexpr size_t kappa = std::numeric_limits<typename floaxie::diy_fp<F>::mantissa_storage_type>::digits10;
	x.beat(); x.state();
	const auto r = floaxie::parse_digits<F>(static_cast<const C*>(wide));
	x.step(); x.state(); x.trace();
	if (r.str_end != wide + p.end) x.fail("%td characters scanned, %zu expected", r.str_end - wide, p.end);
	if (p.word) { if (r.special != (p.nan ? floaxie::speciality::nan : floaxie::speciality::inf)) x.fail("the word isn't recognized"); if (r.sign != p.sign) x.fail("wrong sign"); x.outcome(o_word); return; }
	if (r.special != floaxie::speciality::no) x.fail("taken for a special value");
	if (!p.number) { x.outcome(o_nothing); return; }
	if (r.sign != p.sign) x.fail("wrong sign");
	if (p.digits.empty()) { if (r.value) x.fail("zero is scanned as %llu", (unsigned long long)r.value); x.outcome(o_zero); return; }
	// floor(digits*10^q / 10^K) == value
	std::string v = std::to_string((unsigned long long)r.value); long k = r.K;
	const bool cut = p.digits.size() > kappa;
	std::string d = p.digits; long q = p.q;
	if (k > q) { const size_t drop = size_t(k - q); if (drop >= d.size()) x.fail("scanned as %s*10^%ld", v.c_str(), k); bool lost = false; for (size_t i = d.size() - drop; i < d.size(); ++i) lost |= d[i] != '0'; if (lost && !cut) x.fail("digits are lost: %s*10^%ld", v.c_str(), k); d.resize(d.size() - drop); }
	else { if (q - k > 40) x.fail("scanned as %s*10^%ld", v.c_str(), k); d.append(size_t(q - k), '0'); }
	if (d != v) x.fail("scanned as %s*10^%ld", v.c_str(), k);
	if (cut && v.size() < kappa) x.fail("only %zu digits are taken into account: %s*10^%ld", v.size(), v.c_str(), k);
	x.outcome(cut ? o_cut : o_exact);
	if (x.want_sample()) x.sample(std::string(t).substr(0, 60) + " -> " + v + "*10^" + std::to_string(k));
}
#endif
#if HAVE_MANTISSA
static Big big(const std::string& d) { Big b; for (char c : d) { b.mul(10); b.add(uint32_t(c - '0')); } b.trim(); return b; }
template<typename F, typename C> static void mantissa(mc::Ctx& x)
{
	static C wide[mc::text_max];
	const char* t = x.c.text; for (uint32_t i = 0; i <= x.c.len; ++i) wide[i] = C((unsigned char)t[i]);
	const Parts p = scan(t);
	x.beat(); x.state();
	const auto r = floaxie::parse_mantissa<F>(static_cast<const C*>(wide));
	x.step(); x.state(); x.trace();
	if (r.str_end != wide + p.end) x.fail("%td characters scanned, %zu expected", r.str_end - wide, p.end);
	if (p.word) { if (r.special != (p.nan ? floaxie::speciality::nan : floaxie::speciality::inf)) x.fail("the word isn't recognized"); if (r.sign != p.sign) x.fail("wrong sign"); x.outcome(o_word); return; }
	if (r.special != floaxie::speciality::no) x.fail("taken for a special value");
	if (!p.number) { x.outcome(o_nothing); return; }
	if (r.sign != p.sign) x.fail("wrong sign");
	const uint64_t m = r.value.mantissa(); const int e = r.value.exponent(); const long k = r.K;
	if (p.digits.empty()) { if (m) x.fail("zero is scanned as 0x%llx*2^%d", (unsigned long long)m, e); x.outcome(o_zero); return; }
	constexpr size_t kappa = std::numeric_limits<typename floaxie::diy_fp<F>::mantissa_storage_type>::digits10;
	const bool cut = p.digits.size() > kappa;
	const unsigned err = cut ? has_error<typename std::decay<decltype(r)>::type>::get(r, cut) : 0;
	// (m - err)*2^e*10^K <= digits*10^q <= (m + err)*2^e*10^K
	auto cmp = [&](uint64_t n, bool carry) { Big a = big(p.digits), b = Big::of(n); if (carry) { Big c; c.w = { uint32_t(n), uint32_t(n >> 32), 1 }; b = c; } const long d = p.q - k; for (long i = 0; i < std::labs(d); ++i) (d > 0 ? a : b).mul(10); if (e > 0) b.shl(unsigned(e)); else a.shl(unsigned(-e)); return Big::cmp(a, b); };
	if (std::labs(p.q - k) > 4000) x.fail("scanned as 0x%llx*2^%d*10^%ld", (unsigned long long)m, e, k);
	const uint64_t lo = m < err ? 0 : m - err, hi = m + err; const bool carry = hi < m;
	if (cmp(lo, false) < 0 || cmp(hi, carry) > 0) x.fail("scanned as 0x%llx*2^%d*10^%ld, off by more than %u units", (unsigned long long)m, e, k, err);
	if (!cut && cmp(m, false)) x.fail("scanned as 0x%llx*2^%d*10^%ld", (unsigned long long)m, e, k);
	x.outcome(cut ? o_cut : o_exact);
}
#endif
#if HAVE_EXPONENT
template<typename C> static void exponent(mc::Ctx& x)
{
	static C wide[mc::text_max];
	const char* t = x.c.text; for (uint32_t i = 0; i <= x.c.len; ++i) wide[i] = C((unsigned char)t[i]);
	// by the grammar
	size_t end = 0; long w = 0; bool neg = false, any = false;
	if (letter(t[0], 'e')) { size_t i = 1; if (t[i] == '+' || t[i] == '-') { neg = t[i] == '-'; ++i; } for (; t[i] >= '0' && t[i] <= '9'; ++i) { any = true; if (w < 100000000) w = w * 10 + (t[i] - '0'); } if (any) end = i; else w = 0; }
	if (neg) w = -w;
	x.beat(); x.state();
	const auto r = floaxie::parse_exponent(static_cast<const C*>(wide));
	x.step(); x.state(); x.trace();
	if (r.str_end != wide + end) x.fail("%td characters scanned, %zu expected", r.str_end - wide, end);
	// greater ones may be limited to anything beyond every representable value and every padding of 2048 zeros
	if (std::labs(w) < 10000) { if (r.value != w) x.fail("exponent scanned as %d", int(r.value)); }
	else if ((w < 0) != (r.value < 0) || std::labs(long(r.value)) < 9999 || std::labs(long(r.value)) > std::labs(w)) x.fail("exponent scanned as %d", int(r.value));
	x.outcome(!any ? o_noexp : std::labs(w) < 10000 ? o_exponent : o_saturated);
	if (x.want_sample()) x.sample(std::string(t).substr(0, 40) + " -> " + std::to_string(r.value));
}
#endif

// kind: 0 digits, 1 mantissa (c: type), 2 exponent
static void one(mc::Ctx& x)
{
	switch (x.c.kind) {
#if HAVE_DIGITS
	case 0: switch (x.c.c & 3) { case 0: digits<double, char>(x); break; case 1: digits<float, char>(x); break; case 2: digits<double, wchar_t>(x); break; default: digits<float, char32_t>(x); } break;
#endif
#if HAVE_MANTISSA
	case 1: switch (x.c.c & 3) { case 0: mantissa<double, char>(x); break; case 1: mantissa<float, char>(x); break; case 2: mantissa<double, wchar_t>(x); break; default: mantissa<float, char32_t>(x); } break;
#endif
#if HAVE_EXPONENT
	case 2: switch (x.c.c & 3) { case 0: exponent<char>(x); break; case 1: exponent<wchar_t>(x); break; default: exponent<char16_t>(x); } break;
#endif
	default: x.beat();
	}
}
static void both(mc::Ctx& x) { for (unsigned k = 0; k < 2; ++k) for (unsigned c = 0; c < 4; ++c) { x.c.kind = k; x.c.c = c; one(x); } }

static std::vector<std::string> patterns(bool deep)
{
	// significant parts around the capacities (9 and 19 digits), with zeros at every place
	std::vector<std::string> r;
	for (size_t n = 1; n <= (deep ? 26u : 24u); ++n) for (const char* a : { "1", "9", "18446744073709551615", "42949672954294967295", "99999999999999999995", "1234567890123456789012345" }) {
		std::string d; while (d.size() < n) d += a; d.resize(n); r.push_back(d);
		for (size_t i = 1; i + 1 < n; ++i) for (size_t l = 1; i + l < n; l += (deep ? 1 : l < 4 ? 1 : 3)) { std::string z = d; for (size_t j = 0; j < l; ++j) z[i + j] = '0'; if (z.find_first_not_of('0') == 0) r.push_back(z); }
	}
	for (auto& s : r) { size_t f = s.find_first_not_of('0'); if (f && f != std::string::npos) s.erase(0, f); }
	std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check c; c.id = "C29"; c.one = one; c.outcome_names = { "all digits taken", "digits beyond the capacity", "zero", "special word", "no number", "exponent", "exponent beyond any effect", "no exponent" };
	c.describe = [](const mc::Case& k) { static const char* n[] = { "digits of \"", "mantissa of \"", "exponent of \"" }; static const char* t[] = { "\" (double from char)", "\" (float from char)", "\" (double from wchar_t)", "\" (float from char32_t)" }; return n[k.kind % 3] + mc::escape(std::string(k.text, k.len)) + (k.kind < 2 ? t[k.c & 3] : "\""); };
	c.assumptions = { "the parts of the scanner which a tree doesn't provide any more are left to C06..C11, which judge the results of the whole" };
	static const char alpha[] = "019.-+eNn";
	const unsigned depth = deep ? 8 : 7;
	c.domains.push_back({ "all-short", "every text up to " + std::to_string(depth) + " characters over {0,1,9,.,-,+,e,N,n}, 2 types each from 2 character types", 81, [depth](mc::Ctx& x, uint32_t s) {
		char t[16]; t[0] = alpha[s / 9]; t[1] = alpha[s % 9];
		std::function<void(unsigned)> rec = [&](unsigned n) { x.c.set(t, n); both(x); if (n < depth) for (int i = 0; i < 9; ++i) { t[n] = alpha[i]; rec(n + 1); } };
		if (s % 9 == 0) { x.c.set(t, 1); both(x); if (s == 0) { x.c.set(t, 0); both(x); } }
		rec(2); } });
	static const auto ps = patterns(deep);
	c.domains.push_back({ "digits", std::to_string(ps.size()) + " digit strings up to " + (deep ? "26" : "24") + " digits with a block of zeros at every place x point at every place or beside, zeros in front and behind, sign", 64, [deep](mc::Ctx& x, uint32_t s) {
		for (size_t i = s; i < ps.size(); i += 64) { const std::string& d = ps[i]; const long n = long(d.size());
			for (long p = -3; p <= n + 3; ++p) {
				std::string t = p < 0 ? "." + std::string(size_t(-p), '0') + d : p > n ? d + std::string(size_t(p - n), '0') : d.substr(0, size_t(p)) + "." + d.substr(size_t(p));
				for (unsigned f = 0; f < (deep ? 5u : 4u); ++f) { std::string u = (f == 1 ? "-" : f == 3 ? "+000" : "") + t; if (f == 2 && t.find('.') != std::string::npos) u += "000"; if (f == 3) u += t.find('.') != std::string::npos ? "0e5" : "e-5"; if (f == 4) u = std::string(300, '0') + t + ".5"; x.c.set(u); both(x); } } } } });
	c.domains.push_back({ "long-zeros", "a number divided by, preceded or followed by up to 2000 zeros", 64, [](mc::Ctx& x, uint32_t s) {
		static const char* left[] = { "", "1", "12345678", "123456789", "1234567890", "123456789012345678", "1234567890123456789", "12345678901234567891" }; static const char* right[] = { "", "1", "9999", "0001" };
		for (unsigned z = s; z <= 2000; z += z < 64 ? 64 : 64 * 3) for (const char* l : left) for (const char* r : right) for (unsigned p = 0; p < 3; ++p) { std::string Z(z, '0'); std::string t = p == 0 ? l + Z + r : p == 1 ? std::string(l) + "." + Z + r : l + Z + "." + r; if (t.size() > 2040) continue; x.c.set(t); both(x); } } });
	c.domains.push_back({ "words", "special words in every letter case, signs, what may follow, and their prefixes", 1, [](mc::Ctx& x, uint32_t) {
		for (const std::string w : { "inf", "infinity", "nan", "nan(1_z)", "infinit", "nan(" }) for (unsigned m = 0; m < 1u << std::min<size_t>(w.size(), 8); ++m) { std::string t = w; for (size_t i = 0; i < std::min<size_t>(w.size(), 8); ++i) if (m >> i & 1) t[i] = char(toupper(t[i])); for (const char* sg : { "", "+", "-" }) for (const char* b : { "", "1", "y", "(", ")", "(a)", "(a-)", "e5", "." }) { x.c.set(sg + t + b); both(x); if (!*b && !*sg) for (size_t n = 1; n < t.size(); ++n) { x.c.set(t.substr(0, n)); both(x); } } } } });
	c.domains.push_back({ "exponents", "exponents -12000..12000 in several spellings, up to 40 digits, and every text up to 6 characters over {e,E,+,-,0,1,9,.}", 64, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = 2; auto go = [&](const std::string& t) { x.c.set(t); for (x.c.c = 0; x.c.c < 3; ++x.c.c) one(x); };
		for (int v = -12000 + int(s); v <= 12000; v += 64) { const std::string n = std::to_string(std::abs(v)), sg = v < 0 ? "-" : ""; go("e" + sg + n); go("E" + sg + "000" + n); go("e" + (v < 0 ? sg : "+") + std::string(unsigned(v) % 40, '0') + n + "x"); go("e" + sg + n + "e5"); }
		for (unsigned n = 5; n <= 40; ++n) for (char a : { '1', '4', '9' }) for (const char* sg : { "", "+", "-" }) if (n % 64 == s) { go("e" + std::string(sg) + std::string(n, a)); go("e" + std::string(sg) + "0" + std::string(n, a) + "."); go("e" + std::string(sg) + "2147483647" + std::string(n - 5, '0')); }
		static const char ea[] = "eE+-019."; std::string t; t.resize(2); t[0] = ea[s / 8]; t[1] = ea[s % 8];
		std::function<void()> rec = [&] { go(t); if (t.size() < 6) for (int i = 0; i < 8; ++i) { t += ea[i]; rec(); t.pop_back(); } };
		rec(); if (s == 0) { go(""); } if (s % 8 == 0) go(t.substr(0, 1)); } });
	c.domains.push_back(lit::parsing(both, { 0 }));
	c.domains.push_back(lit::powers(both, { 0 }));
	c.domains.push_back(carry::parsing(both, { 0 }, false, deep)); c.domains.push_back(carry::parsing(both, { 0 }, true, deep));
	return c.main(argc, argv);
}

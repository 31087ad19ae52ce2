// Ambient settings: locales of the C and C++ libraries, errno, floating point
// exception flags and rounding direction.  Differential: the results in the
// initial ("C") environment are the oracle.
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <cfenv>
#include <clocale>
#include <locale>
#include <unistd.h>

struct Env { std::string how, name; };
static std::vector<Env> E;
static std::vector<std::string> T;     // texts
static std::vector<uint64_t> VD; static std::vector<uint32_t> VF;
static const int errs[] = { 0, ERANGE, EDOM, EINVAL };
static const int rounds[] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };

struct Comma : std::numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\1"; } std::string do_truename() const override { return "nan"; } };
struct WComma : std::numpunct<wchar_t> { wchar_t do_decimal_point() const override { return L','; } wchar_t do_thousands_sep() const override { return L'.'; } std::string do_grouping() const override { return "\1"; } };
// letters have other cases than in the classic locale: i <-> dotted I only, everything else mixed up
struct Ctype : std::ctype<char> { char do_tolower(char c) const override { return c == 'I' ? '\xfd' : c == 'N' ? 'm' : c; } char do_toupper(char c) const override { return c == 'i' ? '\xdd' : c; }
	const char* do_tolower(char* b, const char* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; } const char* do_toupper(char* b, const char* e) const override { for (; b < e; ++b) *b = do_toupper(*b); return e; } };
struct WCtype : std::ctype<wchar_t> { wchar_t do_tolower(wchar_t c) const override { return c == L'I' ? L'\x131' : c == L'N' ? L'm' : c; } wchar_t do_toupper(wchar_t c) const override { return c == L'i' ? L'\x130' : c; } };

static locale_t used;
static void leave() { uselocale(LC_GLOBAL_LOCALE); if (used) freelocale(used); used = nullptr; std::locale::global(std::locale::classic()); setlocale(LC_ALL, "C"); fesetround(FE_TONEAREST); feclearexcept(FE_ALL_EXCEPT); }
static void enter(const Env& e)
{
	leave();
	if (e.how == "setlocale") setlocale(LC_ALL, e.name.c_str());
	else if (e.how == "LC_NUMERIC") setlocale(LC_NUMERIC, e.name.c_str());
	else if (e.how == "LC_CTYPE") setlocale(LC_CTYPE, e.name.c_str());
	else if (e.how == "uselocale") { used = newlocale(LC_ALL_MASK, e.name.c_str(), nullptr); if (used) uselocale(used); }
	else if (e.how == "std::locale") { try { std::locale::global(std::locale(e.name.c_str())); } catch (std::runtime_error&) {} }
	else if (e.how == "facets") {
		std::locale l = std::locale::classic();
		if (e.name.find('n') != std::string::npos) l = std::locale(std::locale(l, new Comma), new WComma);
		if (e.name.find('c') != std::string::npos) l = std::locale(std::locale(l, new Ctype), new WCtype);
		std::locale::global(l);
	}
}

struct R { uint64_t bits; int status; long used; bool operator==(const R& o) const { return bits == o.bits && status == o.status && used == o.used; } };
static std::string show(const R& r) { char b[120]; snprintf(b, sizeof b, "bits=0x%llx status=%d consumed=%ld", (unsigned long long)r.bits, r.status, r.used); return b; }
template<typename F> uint64_t fb(F v) { return v != v ? ~uint64_t(0) : uint64_t(ref::bits<F>(v)); }

static int calls;
template<typename F, typename C> F counting(const C* s, C** e) { ++calls; return floaxie::default_fallback<F, C>(s, e); }

template<typename F, typename C> R parse(const std::string& t, bool count = false)
{
	static C b[mc::text_max]; for (size_t i = 0; i <= t.size(); ++i) b[i] = C((unsigned char)t.c_str()[i]);
	const C* s = b; C* e = nullptr;
	floaxie::value_and_status<F> v;
	if (count) v = floaxie::atof<F>(s, &e, counting<F, C>); else v = floaxie::atof<F>(s, &e);
	return R{ fb<F>(v.value), int(v.status), e ? e - b : -1 };
}
static R parse(const std::string& t, unsigned type, bool count = false) { switch (type & 3) { case 0: return parse<double, char>(t, count); case 1: return parse<float, char>(t, count); case 2: return parse<double, wchar_t>(t, count); default: return parse<float, wchar_t>(t, count); } }
template<typename F> static R libc(const std::string& t) { char* e; errno = 0; F v = floaxie::default_fallback<F, char>(t.c_str(), &e); return R{ fb<F>(v), 0, e - t.c_str() }; }
static const char* tname[] = { "double,char", "float,char", "double,wchar_t", "float,wchar_t" };

static std::vector<R> base;  // [text][type]

template<typename F, typename C> std::string text_of(F v) { C b[64]; size_t n = floaxie::ftoa(v, b); std::string r; for (size_t i = 0; i < n && i < 64; ++i) r += b[i] < C(127) && b[i] > C(0) ? char(b[i]) : '?'; if (b[n] != C(0)) r += "(no terminator)"; return r; }
static std::vector<std::string> bd, bf;

static int cur = -2; 
enum { o_same, o_known, o_print };

// kind 0: parsing text a as type b; kind 1: printing double a, kind 2: printing float a; c: environment | error << 8 | flags << 12 | rounding << 16
static void one(mc::Ctx& x)
{
	x.beat();
	const int env = int(x.c.c & 255), er = errs[x.c.c >> 8 & 3], fl = x.c.c >> 12 & 1, rd = rounds[x.c.c >> 16 & 3];
	if (cur != env) { cur = env; enter(E[size_t(env)]); }
	if (x.c.kind == 0) {
		const std::string& t = T[x.c.a]; const R& want = base[x.c.a * 4 + x.c.b];
		x.state();
		feclearexcept(FE_ALL_EXCEPT); if (fl) feraiseexcept(FE_ALL_EXCEPT);
		errno = er;
		const R r = parse(t, unsigned(x.c.b)); x.step(); x.state(); x.trace();
		if (r == want) { x.outcome(o_same); if (x.want_sample()) x.sample(E[size_t(env)].how + " " + E[size_t(env)].name + ": \"" + t.substr(0, 80) + "\" as " + tname[x.c.b] + " -> " + show(r)); return; }
		// the C library's conversion obeys the decimal separator of the locale: is it that call which stopped at the point?
		calls = 0; errno = er; const R again = parse(t, unsigned(x.c.b), true);
		const lconv* lc = localeconv();
		const size_t dot = t.find('.');
		if (calls == 1 && again == r && std::strcmp(lc->decimal_point, ".") && dot != std::string::npos && (r.used == long(dot) || (r.used == 0 && t.find_first_of("0123456789") > dot))) {
			x.outcome(o_known);
			x.fail_key(std::string("default_fallback<") + tname[x.c.b] + ">@other-decimal-separator", E[size_t(env)].how + " " + E[size_t(env)].name + ": \"" + t + "\": " + show(r) + ", in the C locale: " + show(want));
			return;
		}
		x.fail("%s %s, errno %d, flags %d: \"%s\" as %s: %s, in the initial environment: %s", E[size_t(env)].how.c_str(), E[size_t(env)].name.c_str(), er, fl, mc::escape(t).c_str(), tname[x.c.b], show(r).c_str(), show(want).c_str());
	} else {
		feclearexcept(FE_ALL_EXCEPT); if (fl) feraiseexcept(FE_ALL_EXCEPT);
		errno = er; x.state();
		const bool d = x.c.kind == 1; const std::string& want = d ? bd[x.c.a] : bf[x.c.a];
		const double v = ref::from_bits<double>(VD[d ? x.c.a : 0]); const float f = ref::from_bits<float>(VF[d ? 0 : x.c.a]);
		std::string r[5];
		fesetround(rd);
		if (d) { r[0] = text_of<double, char>(v); r[1] = text_of<double, wchar_t>(v); r[2] = text_of<double, char16_t>(v); r[3] = text_of<double, char32_t>(v); r[4] = floaxie::to_string(v); }
		else { r[0] = text_of<float, char>(f); r[1] = text_of<float, wchar_t>(f); r[2] = text_of<float, char16_t>(f); r[3] = text_of<float, char32_t>(f); r[4] = floaxie::to_string(f); }
		fesetround(FE_TONEAREST);
		x.step(5); x.state(5); x.trace(5); x.outcome(o_print);
		for (int i = 0; i < 5; ++i) if (r[i] != want) x.fail("%s %s, errno %d, flags %d, rounding direction %d: %s printed as \"%s\", in the initial environment as \"%s\"", E[size_t(env)].how.c_str(), E[size_t(env)].name.c_str(), er, fl, int(x.c.c >> 16 & 3), d ? "double" : "float", mc::escape(r[i]).c_str(), want.c_str());
		if (x.want_sample()) x.sample(E[size_t(env)].how + " " + E[size_t(env)].name + ", rounding " + std::to_string(x.c.c >> 16 & 3) + " -> " + want);
	}
}

int main(int argc, char** argv)
{
	setlocale(LC_ALL, "C");
	const bool deep = mc::Check::thorough();
	E.push_back({ "none", "" });
	std::vector<std::string> names{ "C", "C.UTF-8" }; std::string used_names = "C, C.UTF-8";
	for (const char* n : { "de_DE.UTF-8", "tr_TR.UTF-8", "tr_TR.ISO-8859-9", "de_CH.UTF-8", "ps_AF.UTF-8", "en_US.UTF-8", "fr_FR.ISO-8859-1" }) { if (locale_t l = newlocale(LC_ALL_MASK, n, nullptr)) { freelocale(l); names.push_back(n); used_names += std::string(", ") + n; } }
	for (auto& n : names) for (const char* h : { "setlocale", "LC_NUMERIC", "LC_CTYPE", "uselocale", "std::locale" }) E.push_back({ h, n });
	for (const char* n : { "n", "c", "nc" }) E.push_back({ "facets", n });

	// texts: numbers in all spellings, special words in all cases, foreign characters
	for (const char* d : { "0", "1", "7", "123", "4567", "9007199254740993", "16777217", "123456789012345678901", "99999999999999999999999999" }) for (const char* s : { "", "-", "+" }) {
		const std::string D = d;
		for (size_t p = 0; p <= D.size(); ++p) for (const char* e : { "", "e0", "e5", "E-7", "e+22", "e-30", "e300", "e-310", "e-44", "e37", "e999", "e-999" }) { std::string t = s + D.substr(0, p) + "." + D.substr(p) + e; T.push_back(t); if (p == D.size()) T.push_back(s + D + e); }
	}
	for (const std::string w : { "inf", "infinity", "nan", "nan(i)", "nan(ii_1)", "nan(n)" }) { size_t letters = std::min<size_t>(w.size(), 8); for (unsigned m = 0; m < 1u << letters; ++m) { std::string t = w; for (size_t i = 0; i < letters; ++i) if (m >> i & 1) t[i] = char(toupper(t[i])); T.push_back(t); T.push_back("-" + t); T.push_back(t + "I"); } }
	for (const char* t : { "", "x", ",5", "1,5", "1,000.5", "1.000,5", "1'000", "0.1\xc4\xb1", "\xc4\xb1nf", "nan(\xc4\xb1)", "nan(\xfd)", "\xfdnf", "infin\xfdty", "nan(\xc0)", "nan(\xe9)", " 1", "\xa0""1", "1\xa0""000", "0x1.8p3", "1e5,5", "1.5,5", "2.5e3.7" }) T.push_back(t);
	const auto ds = gen::digit_strings(deep ? 3 : 2, 24, deep ? 6 : 2);
	for (size_t i = 0; i < ds.size(); i += deep ? 1 : 3) { const std::string& d = ds[i]; for (int q : { -340, -320, -60, -46, -20, -3, 0, 10, 25, 280 }) { T.push_back(d + "e" + std::to_string(q)); if (d.size() > 1) T.push_back(d.substr(0, 1) + "." + d.substr(1) + "e" + std::to_string(q)); } }
	std::sort(T.begin(), T.end(), [](const std::string& a, const std::string& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }); T.erase(std::unique(T.begin(), T.end()), T.end());
	for (uint64_t e = 0; e < 2047; ++e) for (uint64_t m : { uint64_t(1), uint64_t(0), (uint64_t(1) << 52) - 1, uint64_t(0x5555555555555), uint64_t(0x8000000000000), uint64_t(0x999999999999a) }) { VD.push_back(e << 52 | m); if (e % 8 == 0) VD.push_back(uint64_t(1) << 63 | e << 52 | m); }
	for (double v : { 0.1, 1.5, 123.25, 1e15, 1e16, 1e17, 123456789.125, 1e-5, 1e-16, 1e-17, 1e22, 1e23, 5e-324 }) VD.push_back(ref::bits<double>(v));
	for (uint64_t u : { uint64_t(0x7ff0000000000000), uint64_t(0xfff0000000000000), uint64_t(0x7ff8000000000000) }) VD.push_back(u);
	for (uint32_t e = 0; e < 255; ++e) for (uint32_t m : { 1u, 0u, 0x7fffffu, 0x2aaaaau, 0x400000u, 0x4ccccdu }) { VF.push_back(e << 23 | m); if (e % 8 == 0) VF.push_back(0x80000000u | e << 23 | m); }
	VF.push_back(0x7f800000u);
	for (auto& t : T) for (unsigned k = 0; k < 4; ++k) { errno = 0; base.push_back(parse(t, k)); }
	for (uint64_t u : VD) bd.push_back(text_of<double, char>(ref::from_bits<double>(u)));
	for (uint32_t u : VF) bf.push_back(text_of<float, char>(ref::from_bits<float>(u)));

	mc::Check c; c.id = "C20"; c.one = one;
	c.describe = [](const mc::Case& k) { const Env& e = E[size_t(k.c & 255)]; std::string s = e.how + " " + e.name + ": "; if (k.kind == 0) return s + "parsing \"" + T[k.a] + "\" as " + tname[k.b & 3]; char b[60]; snprintf(b, sizeof b, "printing 0x%llx", (unsigned long long)(k.kind == 1 ? VD[k.a] : VF[k.a])); return s + b; };
	c.outcome_names = { "parsed as in the initial environment", "known finding (conversion of the C library with another decimal separator)", "printed as in the initial environment" };
	c.extra.push_back({ "locales", mc::json(used_names) });
	c.assumptions = { "floating point behaviour is switched by fesetround() and feraiseexcept() only", "parsing under other rounding directions isn't claimed" };
	const uint32_t ne = uint32_t(E.size());
	const std::string cfg = std::to_string(ne) + " environments (locales " + used_names + ", set by setlocale, for one category, per thread, for C++; C++ facets of their own)";
	c.domains.push_back({ "parsing", cfg + " x 4 errno values x exception flags clear/raised x " + std::to_string(T.size()) + " texts x 4 type combinations", ne, [=](mc::Ctx& x, uint32_t s) {
		cur = -2;
		for (size_t t = 0; t < T.size(); ++t) for (unsigned k = 0; k < 4; ++k) for (unsigned e = 0; e < 4; ++e) for (unsigned f = 0; f < 2; ++f) { if (e > 1 && f && !deep) continue; x.c.kind = 0; x.c.a = t; x.c.b = k; x.c.c = s | e << 8 | f << 12; one(x); } } });
	c.domains.push_back({ "printing", cfg + " x errno 0/ERANGE x flags x " + std::to_string(VD.size()) + " doubles and " + std::to_string(VF.size()) + " floats x 4 rounding directions, 4 character types and the string wrapper", ne, [=](mc::Ctx& x, uint32_t s) {
		cur = -2;
		const size_t st = s && !deep ? 5 : 1;
		for (unsigned rd = 0; rd < 4; ++rd) for (unsigned e = 0; e < 2; ++e) {
			for (size_t i = s % st; i < VD.size(); i += st) { x.c.kind = 1; x.c.a = i; x.c.b = 0; x.c.c = s | e << 8 | e << 12 | rd << 16; one(x); }
			for (size_t i = s % st; i < VF.size(); i += st) { x.c.kind = 2; x.c.a = i; x.c.b = 0; x.c.c = s | e << 8 | e << 12 | rd << 16; one(x); } } } });
	return c.main(argc, argv);
}

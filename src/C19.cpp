// Contract of the caller supplied fallback.
#include <floaxie/ftoa.h>
#include "parse.h"
#include <stdexcept>

// What the fallback does (an environment answer): value x errno x end position
static const double answers[] = { 0.0, -0.0, 1.5, -2.25e10, 1e-40, 4.9406564584124654e-324, HUGE_VAL, -HUGE_VAL, NAN };
static const int errs[] = { 0, ERANGE, EINVAL };
static const int befores[] = { 0, ERANGE, EDOM };

struct Log { int calls; bool same; bool e; };
static Log lg; static const void* given; static uint32_t given_len;   // the text in the caller's characters
static uint64_t cur; static unsigned mode;

template<typename C> static bool starts(const C* s) { const C* g = static_cast<const C*>(given); for (uint32_t i = 0; i <= given_len; ++i) if (s[i] != g[i]) return false; return true; }
template<typename F, typename C> struct Answer {
	static F make(const C* s, C** e)
	{
		++lg.calls; lg.e = e != nullptr;
		lg.same = s == given || starts<C>(s);   // a copy is as good as the text itself; it ends with the null where it differs first
		const F v = F(answers[cur % 9]); const int er = errs[cur / 9 % 3]; const int pos = int(cur / 27 % 3);
		if (mode == 1) throw std::runtime_error("fallback");
		if (mode == 2) {   // re-entrant: uses the library itself
			char b[64]; floaxie::ftoa(1234.5678, b); wchar_t w[64]; floaxie::ftoa(0.25f, w);
			static const char t[] = "-98765.43210e-5"; char* te; auto r = floaxie::atof<double>(t, &te); auto q = floaxie::atof<float>("9007199254740993", nullptr);
			if (std::strcmp(b, "1234.5678") || std::wcscmp(w, L"0.25") || te != t + sizeof t - 1 || double(r) != -0.9876543210 || q.value != 9007199254740992.f) lg.calls = 1000;
		}
		if (e) *e = const_cast<C*>(s) + pos;
		errno = er;
		return v;
	}
};
template<typename F, typename C> struct Functor { int pad[9]; int tag; Functor() : pad(), tag(42) {} F operator()(const C* s, C** e) { if (tag != 42) lg.calls = 500; return Answer<F, C>::make(s, e); } };

// Is the rounding of the number certain beyond any doubt?  The value is zero,
// far out of range, or an eighth of the unit in the last place or more away
// from every point where rounding changes, while the power of ten involved is
// well within the precomputed ones (the extended format has at least 8 bits
// more than the result, and its error is below 3 of their units or 1/16).
template<typename F> static bool certain(const char* s, F right)
{
	const ref::Syntax y = ref::scan(s); std::string d; long e10; ref::decompose(s, y, d, e10);
	if (d.empty()) return true;
	const long top = long(d.size()) + e10, max10 = std::numeric_limits<F>::max_exponent10, min10 = std::numeric_limits<F>::min_exponent10;
	if (top > max10 + 2 || top < min10 - std::numeric_limits<F>::max_digits10 - 20) return true;
	if (e10 + std::max<long>(0, long(d.size()) - (sizeof(F) == 8 ? 19 : 9)) < (sizeof(F) == 8 ? -330 : -45)) return false;
	if (std::isinf(right) || right == 0) return false;
	uint64_t m; long e; exact::split<F>(ref::bits<F>(std::fabs(right)), m, e);
	if (!(m & (m - 1))) return false;
	return exact::cmp_dec_bin(d, e10, 8 * m - 3, e - 3) > 0 && exact::cmp_dec_bin(d, e10, 8 * m + 3, e - 3) < 0;
}

// kind: bits 0 float, 1-2 char type, 3 null end, 4-5 callable kind, 6-7 mode, 8 string object (with 3); a: answer; b: errno before
template<typename F, typename C> static void judge(mc::Ctx& x)
{
	static C s[mc::text_max];
	for (uint32_t i = 0; i <= x.c.len; ++i) s[i] = C((unsigned char)x.c.text[i]);
	const C* const cs = s;
	const bool null = x.c.kind >> 3 & 1; const int call = x.c.kind >> 4 & 3; mode = x.c.kind >> 6 & 3; cur = x.c.a;
	const ref::Value<F> w = ref::parse<F>(static_cast<const char*>(x.c.text));
	lg = Log{ 0, false, false }; given = cs; given_len = x.c.len;
	C* const poison = s + 1000; C* e = poison;
	floaxie::value_and_status<F> r; bool thrown = false;
	x.beat(); x.state();
	errno = befores[x.c.b];
	try {
		if (x.c.kind & 256) {
			const std::basic_string<C> str(cs, x.c.len); given = str.c_str();
			switch (call) {
			case 0: r = floaxie::from_string<F>(str, Answer<F, C>::make); break;
			case 1: r = floaxie::from_string<F>(str, Functor<F, C>()); break;
			case 2: { int cap = 7; r = floaxie::from_string<F>(str, [cap](const C* a, C** b) { if (cap != 7) lg.calls = 500; return Answer<F, C>::make(a, b); }); break; }
			default: r = floaxie::from_string<F>(str, std::function<F(const C*, C**)>(Answer<F, C>::make)); }
		}
		else if (null) switch (call) {
			case 0: r = floaxie::atof<F>(cs, nullptr, Answer<F, C>::make); break;
			case 1: r = floaxie::atof<F>(cs, nullptr, Functor<F, C>()); break;
			case 2: { int cap = 7; r = floaxie::atof<F>(cs, nullptr, [cap](const C* a, C** b) { if (cap != 7) lg.calls = 500; return Answer<F, C>::make(a, b); }); break; }
			default: r = floaxie::atof<F>(cs, nullptr, std::function<F(const C*, C**)>(Answer<F, C>::make)); }
		else switch (call) {
			case 0: r = floaxie::atof<F>(cs, &e, Answer<F, C>::make); break;
			case 1: r = floaxie::atof<F>(cs, &e, Functor<F, C>()); break;
			case 2: { int cap = 7; r = floaxie::atof<F>(cs, &e, [cap](const C* a, C** b) { if (cap != 7) lg.calls = 500; return Answer<F, C>::make(a, b); }); break; }
			default: r = floaxie::atof<F>(cs, &e, std::function<F(const C*, C**)>(Answer<F, C>::make)); }
	} catch (std::runtime_error&) { thrown = true; }
	x.step(); x.state(); x.trace();
	if (!thrown) if (const F number = r; ref::bits<F>(number) != ref::bits<F>(r.value)) x.fail("used as a number, the result is %s, its value is %s", num<F>(number).c_str(), num<F>(r.value).c_str());
	if (lg.calls > 1) x.fail(lg.calls >= 500 ? "the callable isn't invoked properly" : "the fallback is called %d times", lg.calls);
	if (lg.calls == 0) {
		if (thrown) x.fail("exception from nowhere");
		if (!ref::same<F>(r.value, w.value) || int(r.status) != int(w.status)) x.fail("without the fallback: %s status %d, expected %s status %d", num<F>(r.value).c_str(), int(r.status), num<F>(w.value).c_str(), int(w.status));
		if (!null && e != s + w.used) x.fail("without the fallback: %td characters consumed, %zu expected", e - s, w.used);
		x.outcome(0); return;
	}
	if (w.kind != ref::number) x.fail("the fallback is called for a text which isn't a number");
	if (certain<F>(x.c.text, w.value)) x.fail("the fallback is called although the rounding of the number is certain");
	if (!lg.same) x.fail("the fallback gets another text");
	if (!null && !lg.e) x.fail("the fallback gets no end pointer");
	if (mode == 1) { if (!thrown) x.fail("exception of the fallback is swallowed"); x.outcome(2); return; }
	const F v = F(answers[cur % 9]); const int er = errs[cur / 9 % 3];
	if (!ref::same<F>(r.value, v)) x.fail("the fallback returned %s, the caller gets %s", num<F>(v).c_str(), num<F>(r.value).c_str());
	if (!null && e != s + cur / 27 % 3) x.fail("end position of the fallback isn't preserved");
	const int want = er != ERANGE ? 0 : std::isinf(v) ? 2 : v == 0 ? 1 : 0;
	if (int(r.status) != want) x.fail("status %d, the fallback returned %s with errno %d (%d before the call)", int(r.status), num<F>(v).c_str(), er, befores[x.c.b]);
	x.outcome(mode == 2 ? 3 : 1);
	if (x.want_sample()) x.sample(std::string(x.c.text).substr(0, 60) + ": fallback answered " + num<F>(v) + ", errno " + std::to_string(er) + " -> status " + std::to_string(want));
}
template<typename F> static void bychar(mc::Ctx& x) { switch (x.c.kind >> 1 & 3) { case 0: judge<F, char>(x); break; case 1: judge<F, wchar_t>(x); break; case 2: judge<F, char16_t>(x); break; default: judge<F, char32_t>(x); } }

// the (internal) interpretation of errno, if the tree has it under the known name
namespace errno_status {
	using namespace floaxie;
	template<typename F> auto of(F v, int) -> decltype(int(check_errno(v))) { return int(check_errno(v)); }
	template<typename F> int of(F, long) { return -1; }
}
// kind 1000: the default fallback equals the C library
template<typename F, typename C> static F lib(const C* s, C** e);
template<> double lib<double, char>(const char* s, char** e) { return strtod(s, e); }
template<> float lib<float, char>(const char* s, char** e) { return strtof(s, e); }
template<> double lib<double, wchar_t>(const wchar_t* s, wchar_t** e) { return wcstod(s, e); }
template<> float lib<float, wchar_t>(const wchar_t* s, wchar_t** e) { return wcstof(s, e); }
template<> long double lib<long double, char>(const char* s, char** e) { return strtold(s, e); }
template<> long double lib<long double, wchar_t>(const wchar_t* s, wchar_t** e) { return wcstold(s, e); }
template<typename F> static bool equal(F a, F b) { return a == b ? std::signbit(a) == std::signbit(b) : a != a && b != b; }
template<typename F, typename C> static void judge_default(mc::Ctx& x)
{
	static C s[mc::text_max];
	for (uint32_t i = 0; i <= x.c.len; ++i) s[i] = C((unsigned char)x.c.text[i]);
	x.beat(); x.state();
	C *e = nullptr, *g = nullptr;
	errno = 0; const F v = floaxie::default_fallback<F, C>(static_cast<const C*>(s), &e); const int er = errno; const int st = errno_status::of(v, 0);
	errno = 0; const F w = lib<F, C>(s, &g); const int wr = errno;
	x.step(); x.trace();
	if (!equal<F>(v, w) || e != g || er != wr) x.fail("default fallback: %.21Lg, %td consumed; C library: %.21Lg, %td", (long double)v, e - s, (long double)w, g - s);
	const int want = wr != ERANGE ? 0 : std::isinf(w) ? 2 : w == 0 ? 1 : 0;
	if (st >= 0 && st != want) x.fail("errno check yields %d for %.21Lg, errno %d", st, (long double)w, wr);
	x.outcome(4);
}
static void one(mc::Ctx& x)
{
	if (x.c.kind >= 1000) { switch (x.c.kind - 1000) { case 0: judge_default<double, char>(x); break; case 1: judge_default<float, char>(x); break; case 2: judge_default<double, wchar_t>(x); break; case 3: judge_default<float, wchar_t>(x); break; case 4: judge_default<long double, char>(x); break; default: judge_default<long double, wchar_t>(x); } return; }
	if (x.c.kind & 1) bychar<float>(x); else bychar<double>(x);
}

static std::vector<std::string> texts()
{
	std::vector<std::string> r{ "", "x", "+", "-", ".", "0", "-0", "0e5", "00.00", "inf", "-inf", "infinity", "nan", "nan(1)", "1", "-1", "1.5", "1e5", "1e999", "-1e999", "1e-999", "1e", "1.5tail", "9007199254740992", "16777216", "2.5e-324", "2.4e-324", "123456789012345678", "0.1", "3e-46", "7.1e-46", "1e-46" };
	for (const char* t : { "9007199254740993", "16777217", "-9007199254740993", "9007199254740993.5e0", "9007199254740993 tail", "9007199254740993e", "9007199254740993e+x", "16777217,5", "16777219.0000", "+16777217", "2.4703282292062327e-324", "2.4703282292062328e-324", "1.7976931348623158e308", "1.7976931348623159e308", "3.4028235677973366e38", "3.4028235677973365e38", "7.0064923216240854e-46", "7.0064923216240853e-46", "5.5e-320", "1.00000000000000011102230246251565404e0", "0.000000000000000000000000000000000000000000000000000000000009007199254740993e60", "179769313486231580793728971405303415079934132710037826936173778980444968292764750946649017977587207096330286416692887910946555547851940402630657488671505820681908902000708383676273854845817711531764475730270069855571366959622842914819860834936475292719074168444365510704342711559699508093042880", "-0.0000000000000000000000000000000000000000000004", "8.98846567431158e307", "4.450147717014403e-308" }) r.push_back(t);
	return r;
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C19"; k.one = one; k.outcome_names = { "fallback not needed", "fallback answer passed on", "fallback threw", "re-entrant fallback", "default fallback" };
	k.describe = [](const mc::Case& c) { char b[300]; snprintf(b, sizeof b, "%s char-type %u%s callable %u mode %u answer %llu errno-before %llu text \"%.100s\"", c.kind & 1 ? "float" : "double", c.kind >> 1 & 3, c.kind >> 8 & 1 ? " string-object" : c.kind >> 3 & 1 ? " null-end" : "", c.kind >> 4 & 3, c.kind >> 6 & 3, (unsigned long long)c.a, (unsigned long long)c.b, mc::escape(std::string(c.text, c.len)).c_str()); return std::string(b); };
	static const auto ts = texts();
	k.domains.push_back({ "answers-x-texts", "every text x 9 values x 3 errno answers x 3 end positions of the fallback x 3 errno values before x end pointer, null end or string object x function pointer, functor, capturing lambda, std::function x plain, throwing, re-entrant x float, double x 4 character types", uint32_t(ts.size() * 8), [](mc::Ctx& x, uint32_t s) {
		x.c.set(ts[s / 8]);
		for (uint32_t nul : { 0u, 1u, 33u }) for (uint32_t call = 0; call < 4; ++call) for (uint32_t md = 0; md < 3; ++md) for (uint64_t before = 0; before < 3; ++before) for (uint64_t ans = 0; ans < 81; ++ans) { x.c.kind = (s % 8) | nul << 3 | call << 4 | md << 6; x.c.a = ans; x.c.b = before; one(x); }
	} });
	k.domains.push_back({ "many-texts", "near-midpoint texts of every exponent field (17, 19, 22 digits and exact), 6 answers: called at most once, with the original text, answer passed on", 2047, [deep](mc::Ctx& x, uint32_t s) {
		std::string d; long e10; static const auto ms = gen::mantissas(52, 2, 2, 3);
		for (size_t i = s % 37; i < ms.size(); i += deep ? 5 : 17) {
			uint64_t mm; long me; exact::midpoint<double>(uint64_t(s) << 52 | ms[i], mm, me); exact::exact_decimal(mm, me, d, e10);
			for (size_t n : { size_t(17), size_t(19), size_t(22), d.size() }) { if (n > d.size()) continue; put(x.c, (i % 2 ? "-" : "") + d.substr(0, n), int(e10 + long(d.size() - n))); for (uint32_t kd : { 0u, 2u, 8u, 1u, 3u, 128u }) { x.c.kind = kd; x.c.a = 2 + 9 * (i % 3) + 27 * (n % 3); x.c.b = n % 3; one(x); } }
		}
	} });
	k.domains.push_back({ "certain", "digit strings of every length 1..60 (constant, nines, sparse, lattice) x every power over the whole range, integers, fractions and with zeros around: no call wherever the value is 1/8 ulp or more away from the next rounding boundary", 700, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(2, 60, deep ? 40 : 16);
		for (size_t i = 0; i < ds.size(); ++i) { const std::string& d = ds[i]; const int q = int(s) - 350 - int(d.size()); x.c.a = 2; x.c.b = i % 3;
			for (uint32_t kd : { 0u, 1u, 2u, 3u }) {
				if ((kd & 1) && (s < 280 || s > 400)) continue; if (kd > 1 && i % 6) continue;
				x.c.kind = kd; put(x.c, d, q); one(x);
				x.c.set(d.substr(0, 1) + "." + d.substr(1) + "e" + std::to_string(q + int(d.size()) - 1)); one(x);
				if (q > -60 && q < 0) { const int dot = int(d.size()) + q; x.c.set(dot > 0 ? d.substr(0, size_t(dot)) + "." + d.substr(size_t(dot)) + "00" : "-0." + std::string(size_t(-dot), '0') + d); one(x); }
				if (q >= 0 && q < 60) { x.c.set("00" + d + std::string(size_t(q), '0') + ".0"); one(x); }
			}
		}
	} });
	k.domains.push_back({ "default-fallback", "texts and digit strings x powers: the default fallback is the C library's conversion of the same type", 841, [](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 24, 2);
		if (s < ts.size()) for (uint32_t kd = 0; kd < 6; ++kd) { x.c.kind = 1000 + kd; x.c.set(ts[s]); one(x); x.c.set(" " + ts[s]); one(x); }
		for (auto& d : ds) for (uint32_t kd = 0; kd < 6; ++kd) { x.c.kind = 1000 + kd; put(x.c, d, int(s) - 420); one(x); }
	} });
	k.assumptions = { "C locale" };
	return k.main(argc, argv);
}

// Character type independence.
#include <floaxie/ftoa.h>
#include "parse.h"
#include "lit.h"

template<typename C> static bool same_text(const char* a, const C* b, size_t n) { for (size_t i = 0; i <= n; ++i) if (uint32_t((unsigned char)a[i]) != uint32_t(b[i])) return false; return true; }

template<typename F> static void judge_print(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const F v = ref::from_bits<F>(U(x.c.a));
	char a[128]; wchar_t w[128]; char16_t h[128]; char32_t q[128];
	x.beat(); x.state();
	const size_t n = floaxie::ftoa(v, a), nw = floaxie::ftoa(v, w), nh = floaxie::ftoa(v, h), nq = floaxie::ftoa(v, q);
	x.step(4); x.state(4); x.trace();
	if (n > 60) x.fail("length %zu", n);
	if (nw != n || !same_text(a, w, n)) x.fail("wchar_t text differs from \"%s\"", a);
	if (nh != n || !same_text(a, h, n)) x.fail("char16_t text differs from \"%s\"", a);
	if (nq != n || !same_text(a, q, n)) x.fail("char32_t text differs from \"%s\"", a);
	x.outcome(std::strchr(a, 'e') ? 1 : 0);
	if (x.want_sample()) x.sample(std::string(a) + " in 4 character types");
}

// fallback for character types the C library knows nothing about
template<typename F, typename C> static F narrow_fallback(const C* s, C** e)
{
	static char b[mc::text_max]; size_t n = 0; while (n + 1 < sizeof b && s[n]) { b[n] = uint32_t(s[n]) < 128 ? char(s[n]) : '\1'; ++n; } b[n] = 0;
	char* ce; F r = floaxie::default_fallback<F, char>(b, &ce); if (e) *e = const_cast<C*>(s) + (ce - b); return r;
}

template<typename F, typename C> static void compare(mc::Ctx& x, const floaxie::value_and_status<F>& r, size_t used, const char* name)
{
	static C s[mc::text_max];
	for (uint32_t i = 0; i <= x.c.len; ++i) s[i] = C((unsigned char)x.c.text[i]);
	C* e = nullptr; floaxie::value_and_status<F> o;
	if constexpr (std::is_same<C, wchar_t>::value) o = floaxie::atof<F>(static_cast<const C*>(s), &e);
	else o = floaxie::atof<F>(static_cast<const C*>(s), &e, narrow_fallback<F, C>);
	x.step(); x.state();
	if (size_t(e - s) != used) x.fail("%s: %td characters consumed, %zu as char", name, e - s, used);
	if (!ref::same<F>(o.value, r.value)) x.fail("%s: %s, %s as char", name, num<F>(o.value).c_str(), num<F>(r.value).c_str());
	if (o.status != r.status) x.fail("%s: status %d, %d as char", name, int(o.status), int(r.status));
}
template<typename F> static void judge_text(mc::Ctx& x)
{
	x.beat(); x.state();
	char* e = nullptr; const auto r = floaxie::atof<F>(static_cast<const char*>(x.c.text), &e); x.step(); x.state();
	const size_t used = size_t(e - x.c.text);
	compare<F, wchar_t>(x, r, used, "wchar_t"); compare<F, char16_t>(x, r, used, "char16_t"); compare<F, char32_t>(x, r, used, "char32_t");
	x.trace();
	x.outcome(2 + unsigned(used != 0));
	if (x.want_sample()) x.sample(mc::escape(x.c.text).substr(0, 100) + " -> " + num<F>(r.value) + " in 4 character types");
}
// a wide character outside of ASCII ends the number exactly as any other foreign character does
template<typename F, typename C> static void judge_foreign(mc::Ctx& x)
{
	static C s[mc::text_max], t[mc::text_max];
	for (uint32_t i = 0; i <= x.c.len; ++i) s[i] = t[i] = C((unsigned char)x.c.text[i]);
	s[x.c.b] = C(x.c.a); t[x.c.b] = C('#');
	x.beat(); x.state(2);
	C *e = nullptr, *g = nullptr; const auto r = floaxie::atof<F>(static_cast<const C*>(s), &e, narrow_fallback<F, C>), o = floaxie::atof<F>(static_cast<const C*>(t), &g, narrow_fallback<F, C>);
	x.step(2); x.trace();
	if (e - s != g - t || !ref::same<F>(r.value, o.value) || r.status != o.status) x.fail("code unit 0x%llx is treated as a part of the number: %s, %td consumed", (unsigned long long)x.c.a, num<F>(r.value).c_str(), e - s);
	x.outcome(4);
}
// the digits which don't fit the accumulator end at a foreign code unit, too: same value and same certainty
template<typename F, typename C> static void judge_tail(mc::Ctx& x)
{
	static C s[mc::text_max], t[mc::text_max]; static bool asked;
	struct Fb { static F f(const C* p, C** e) { asked = true; C* q = const_cast<C*>(p); if (*q == C('-')) ++q; while ((*q >= C('0') && *q <= C('9')) || *q == C('.')) ++q; if (e) *e = q; return F(1); } };
	for (uint32_t i = 0; i <= x.c.len; ++i) s[i] = t[i] = C((unsigned char)x.c.text[i]);
	s[x.c.b] = C(x.c.a); t[x.c.b] = C(0);
	x.beat(); x.state(2);
	C *e = nullptr, *g = nullptr;
	asked = false; const auto r = floaxie::atof<F>(static_cast<const C*>(s), &e, Fb::f); const bool a = asked;
	asked = false; const auto o = floaxie::atof<F>(static_cast<const C*>(t), &g, Fb::f); const bool b = asked;
	x.step(2); x.trace();
	if (a != b || e - s != g - t || !ref::same<F>(r.value, o.value) || r.status != o.status) x.fail("code unit 0x%llx behind the number is taken for a digit", (unsigned long long)x.c.a);
	x.outcome(4);
}
static void one(mc::Ctx& x)
{
	switch (x.c.kind) { case 10: judge_tail<double, wchar_t>(x); break; case 11: judge_tail<double, char16_t>(x); break; case 12: judge_tail<double, char32_t>(x); break; case 13: judge_tail<float, wchar_t>(x); break; case 14: judge_tail<float, char16_t>(x); break; case 15: judge_tail<float, char32_t>(x); break; case 0: judge_print<double>(x); break; case 1: judge_print<float>(x); break; case 2: judge_text<double>(x); break; case 3: judge_text<float>(x); break;
	case 4: judge_foreign<double, wchar_t>(x); break; case 5: judge_foreign<double, char16_t>(x); break; case 6: judge_foreign<double, char32_t>(x); break; case 7: judge_foreign<float, wchar_t>(x); break; case 8: judge_foreign<float, char16_t>(x); break; default: judge_foreign<float, char32_t>(x); }
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C14"; k.one = one; k.outcome_names = { "printed decimal", "printed exponent", "no number", "parsed", "foreign code unit" };
	k.domains.push_back({ "print-double", "every exponent field x mantissa alphabet, both signs, char/wchar_t/char16_t/char32_t", 2048, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 12 : 10, deep ? 12 : 10, deep ? 14 : 12);
		x.c.kind = 0; for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; one(x); } for (size_t i = s % 16; i < ms.size(); i += 16) { x.c.a = uint64_t(s) << 52 | ms[i] | uint64_t(1) << 63; one(x); }
	} });
	k.domains.push_back({ "print-digit-count-x-power", "doubles nearest to d*10^q, d of every length 1..17, q in [-345,308], both signs", 654, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(2, 17, deep ? 200 : 60); x.c.kind = 0;
		for (auto& d : ds) { std::string t = d + "e" + std::to_string(int(s) - 345); double v = ref::magnitude<double>(t.data(), t.data() + t.size(), true); if (std::isinf(v)) continue; for (int n = 0; n < 2; ++n) { x.c.a = ref::bits<double>(n ? -v : v); one(x); } }
	} });
	k.domains.push_back({ "print-float", "every exponent field x mantissa alphabet (2^16 lattice), both signs", 512, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, deep ? 14 : 11, deep ? 14 : 11, deep ? 18 : 16); x.c.kind = 1; for (uint64_t m : ms) { x.c.a = uint64_t(s) << 23 | m; one(x); }
	} });
	k.domains.push_back({ "parse-all-short", "all strings of up to 6 (thorough 7) characters over {0,1,5,9,.,e,E,+,-,n,a,i,f,(,),N,_}", 289, [deep](mc::Ctx& x, uint32_t s) {
		static const char al[] = "0159.eE+-naif()N_"; const int kk = 17;
		for (int n = 0; n <= (deep ? 7 : 6); ++n) {
			if ((n < 2 && s >= 17) || (n < 1 && s)) continue;
			uint32_t tot = 1; for (int i = 2; i < n; ++i) tot *= kk;
			for (uint32_t v = 0; v < tot; ++v) { char* t = x.c.text; uint32_t y = v; if (n > 0) t[0] = al[s % 17]; if (n > 1) t[1] = al[s / 17]; for (int i = 2; i < n; ++i) { t[i] = al[y % kk]; y /= kk; } t[n] = 0; x.c.len = uint32_t(n); for (uint32_t kd = 2; kd < 4; ++kd) { x.c.kind = kd; one(x); } }
		}
	} });
	k.domains.push_back({ "parse-numbers", "digit strings of every length 1..60 x powers in [-420,420], with and without fraction and sign", 841, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(2, 60, deep ? 80 : 30); const int q = int(s) - 420;
		for (size_t i = 0; i < ds.size(); ++i) { x.c.kind = 2; put(x.c, ds[i], q); one(x); put(x.c, (i % 2 ? "-0." : "+") + ds[i], q); one(x); if ((q > -110 && q < 60) || i % 16 == 0) { x.c.kind = 3; put(x.c, ds[i], q); one(x); put(x.c, ds[i].substr(0, 1) + "." + ds[i].substr(1), q); one(x); } }
	} });
	k.domains.push_back({ "parse-ties", "17..24 digit neighbours of midpoints and exact midpoints (fallback), every exponent field", 2047, [](mc::Ctx& x, uint32_t s) {
		std::string d; long e10; static const auto ms = gen::mantissas(52, 2, 2, 3);
		for (size_t i = s % 61; i < ms.size(); i += 61) { uint64_t mm; long me; exact::midpoint<double>(uint64_t(s) << 52 | ms[i], mm, me); exact::exact_decimal(mm, me, d, e10); for (size_t n : { 17, 19, 20, 24 }) if (n < d.size()) { put(x.c, d.substr(0, n), int(e10 + long(d.size() - n))); x.c.kind = 2; one(x); } put(x.c, d, int(e10)); x.c.kind = 2; one(x); }
	} });
	k.domains.push_back({ "foreign-code-units", "every non-ASCII code unit (all 16-bit ones; 32-bit: those congruent to an ASCII character modulo 2^8, 2^16 and 2^24 and a grid) at every position of 10 numbers", 256, [](mc::Ctx& x, uint32_t s) {
		for (const char* g : { "1.5e10", "-25", "nan(ab)", "infinity", "0.25", "1e5", "00", "+.5", "12345678901234567890123", "9007199254740993.00" }) for (uint32_t at = 0; at < std::strlen(g); ++at) {
			x.c.set(std::string(g)); x.c.b = at;
			for (uint32_t hi = 0; hi < 256; ++hi) { const uint32_t u = hi << 8 | s; if (u < 128) continue; x.c.a = u; for (uint32_t kd = 4; kd < 10; ++kd) { x.c.kind = kd; one(x); } }
			for (uint32_t up : { 1u, 2u, 0x10u, 0x7fu, 0x80u, 0xffu, 0x100u, 0x101u, 0x1000u, 0x8000u, 0xffffu, 0x7fffu, 0xfffeu }) for (uint32_t lo : { s, s << 8 }) { x.c.a = up << 16 | lo; for (uint32_t kd : { 4, 6, 7, 9 }) { x.c.kind = kd; one(x); } }
		}
	} });
	k.domains.push_back({ "foreign-behind-tail", "digit strings (4 leading patterns x low 3 digits 000..999, of 9..23 digits) followed by code units congruent to digits modulo 2^8, 2^16, 2^24 (or their neighbours) and two digits more, compared with the string alone (value, end, whether the fallback is asked)", 1000, [deep](mc::Ctx& x, uint32_t s) {
		char low[8]; snprintf(low, sizeof low, "%03u", s);
		for (const char* g : { "1234567890123456789", "9007199254740993000", "1844674407370955161", "4503599627370497500" }) for (size_t n = 6; n <= 20; ++n) {
			std::string d = std::string(g) + "5"; d = d.substr(0, n) + low; const uint32_t at = uint32_t(d.size());
			x.c.set(d + "x99"); x.c.b = at;
			for (uint32_t dig = 0; dig < 10; dig += deep ? 1 : 3) for (uint32_t up : { 0x100u, 0x6000u, 0x10000u, 0x1000000u, 0xff00u, 0x80000000u, 0xffffff00u }) { x.c.a = up + '0' + dig; for (uint32_t kd = 10; kd < 16; ++kd) { if (up > 0xffff && (kd == 11 || kd == 14)) continue; x.c.kind = kd; one(x); } }
		}
		x.c.b = 0;
	} });
	k.assumptions = { "C locale", "char16_t and char32_t parsing uses a caller supplied fallback, as the C library has no functions for them" };
	lit::printing(k.domains, one, 0, 1);
	k.domains.push_back(lit::parsing(one, { 2, 3 }));
	return k.main(argc, argv);
}

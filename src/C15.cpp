// String wrappers agree with the buffer functions.
#include <floaxie/ftoa.h>
#include "parse.h"
#include "lit.h"

template<typename C> static bool eq(const std::basic_string<C>& s, const C* b, size_t n) { return s.size() == n && !std::memcmp(s.data(), b, n * sizeof(C)) && s.c_str()[n] == C(0); }

template<typename F> static void judge_print(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const F v = ref::from_bits<F>(U(x.c.a));
	char a[128]; wchar_t w[128]; char16_t h[128]; char32_t q[128];
	x.beat(); x.state();
	const size_t n = floaxie::ftoa(v, a), nw = floaxie::ftoa(v, w), nh = floaxie::ftoa(v, h), nq = floaxie::ftoa(v, q);
	if (n > 60 || nw > 60 || nh > 60 || nq > 60) x.fail("length");
	const std::string s = floaxie::to_string(v); const std::wstring ws = floaxie::to_wstring(v); const std::u16string hs = floaxie::to_u16string(v); const std::u32string qs = floaxie::to_u32string(v);
	x.step(8); x.state(4); x.trace();
	if (!eq(s, a, n)) x.fail("to_string yields \"%s\" (%zu) and ftoa \"%s\" (%zu)", mc::escape(s).c_str(), s.size(), mc::escape(std::string(a, n)).c_str(), n);
	if (!eq(ws, w, nw)) x.fail("to_wstring differs from ftoa"); if (!eq(hs, h, nh)) x.fail("to_u16string differs from ftoa"); if (!eq(qs, q, nq)) x.fail("to_u32string differs from ftoa");
	if ((x.c.a & 15) == 0) {
		const F cv = v; const F& rv = v;
		if (!eq(floaxie::to_basic_string<F, char>(cv), a, n) || !eq(floaxie::to_basic_string<F, wchar_t>(rv), w, nw) || !eq(floaxie::to_basic_string<F, char16_t>(cv), h, nh) || !eq(floaxie::to_basic_string<F, char32_t>(cv), q, nq)) x.fail("to_basic_string differs from ftoa");
	}
	x.outcome(0);
	if (x.want_sample()) x.sample(s);
}
template<typename F, typename C> static F alien(const C*, C** e) { (void)e; return F(123456789); }

template<typename F, typename C> static void judge_from(mc::Ctx& x)
{
	std::basic_string<C> s;
	if (x.c.kind & mc::long_text) { const std::string t = mc::expand(x.c); s.assign(t.begin(), t.end()); }
	else for (uint32_t i = 0; i < x.c.len; ++i) s += C((unsigned char)x.c.text[i]);
	x.beat(); x.state();
	if constexpr (!std::is_same<C, char>::value && !std::is_same<C, wchar_t>::value) {
		C* e = nullptr; const auto c = floaxie::atof<F>(s.c_str(), &e, alien<F, C>); const auto d = floaxie::from_string<F>(s, alien<F, C>); const F conv = d;
		x.step(2); x.trace();
		if (!ref::same<F>(c.value, d.value) || c.status != d.status || !ref::same<F>(conv, d.value)) x.fail("from_string %s status %d, as a number %s, atof %s status %d", num<F>(d.value).c_str(), int(d.status), num<F>(conv).c_str(), num<F>(c.value).c_str(), int(c.status));
		x.outcome(1 + (c.value == F(123456789))); return;
	} else {
	const auto a = floaxie::atof<F>(s.c_str(), nullptr); const auto b = floaxie::from_string<F>(s);
	const auto c = floaxie::atof<F>(s.c_str(), nullptr, alien<F, C>); const auto d = floaxie::from_string<F>(s, alien<F, C>);
	C* e = nullptr; const auto g = floaxie::atof<F>(s.c_str(), &e);
	x.step(5); x.trace();
	if (!ref::same<F>(a.value, b.value) || a.status != b.status) x.fail("from_string: %s status %d, atof: %s status %d", num<F>(b.value).c_str(), int(b.status), num<F>(a.value).c_str(), int(a.status));
	if (!ref::same<F>(c.value, d.value) || c.status != d.status) x.fail("with a custom fallback: from_string %s status %d, atof %s status %d", num<F>(d.value).c_str(), int(d.status), num<F>(c.value).c_str(), int(c.status));
	if (!ref::same<F>(a.value, g.value) || a.status != g.status) x.fail("atof depends on whether the end pointer is null");
	const F conv = floaxie::from_string<F>(s); if (!ref::same<F>(conv, a.value)) x.fail("conversion of the result to the number");
	x.outcome(1 + (c.value == F(123456789)));
	if (x.want_sample()) x.sample("from_string(\"" + mc::escape(std::string(x.c.text, x.c.len)).substr(0, 80) + "\") = " + num<F>(b.value));
	}
}
static void one(mc::Ctx& x) { switch (x.c.kind & ~mc::long_text) { case 0: judge_print<double>(x); break; case 1: judge_print<float>(x); break; case 2: judge_from<double, char>(x); break; case 3: judge_from<float, char>(x); break; case 4: judge_from<double, wchar_t>(x); break; case 5: judge_from<float, wchar_t>(x); break; case 6: judge_from<double, char16_t>(x); break; case 7: judge_from<float, char16_t>(x); break; case 8: judge_from<double, char32_t>(x); break; default: judge_from<float, char32_t>(x); } }

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C15"; k.one = one; k.outcome_names = { "printed", "parsed", "parsed through fallback" };
	k.domains.push_back({ "print-double", "every exponent field x mantissa alphabet, both signs, 4 string types", 2048, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 12 : 10, deep ? 12 : 10, deep ? 14 : 11);
		x.c.kind = 0; for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; one(x); } for (size_t i = s % 8; i < ms.size(); i += 8) { x.c.a = uint64_t(s) << 52 | ms[i] | uint64_t(1) << 63; one(x); }
	} });
	k.domains.push_back({ "print-digit-count-x-power", "doubles nearest to d*10^q, d of every length 1..17, q in [-345,308], both signs", 654, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(2, 17, deep ? 100 : 8); x.c.kind = 0;
		for (auto& d : ds) { std::string t = d + "e" + std::to_string(int(s) - 345); double v = ref::magnitude<double>(t.data(), t.data() + t.size(), true); if (std::isinf(v)) continue; for (int n = 0; n < 2; ++n) { x.c.a = ref::bits<double>(n ? -v : v); one(x); } }
	} });
	k.domains.push_back({ "print-float", "every exponent field x mantissa alphabet, both signs", 512, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, deep ? 12 : 9, deep ? 12 : 9, deep ? 16 : 13); x.c.kind = 1; for (uint64_t m : ms) { x.c.a = uint64_t(s) << 23 | m; one(x); }
	} });
	k.domains.push_back({ "parse-all-short", "all strings of up to 5 (thorough 6) characters over {0,1,9,.,e,+,-,n,a,i,f, space, NUL}, NUL included in the string object", 169, [deep](mc::Ctx& x, uint32_t s) {
		static const char al[] = "019.e+-naif \0"; const int kk = 13;
		for (int n = 0; n <= (deep ? 6 : 5); ++n) {
			if ((n < 2 && s >= 13) || (n < 1 && s)) continue;
			uint32_t tot = 1; for (int i = 2; i < n; ++i) tot *= kk;
			for (uint32_t v = 0; v < tot; ++v) { char* t = x.c.text; uint32_t y = v; if (n > 0) t[0] = al[s % 13]; if (n > 1) t[1] = al[s / 13]; for (int i = 2; i < n; ++i) { t[i] = al[y % kk]; y /= kk; } t[n] = 0; x.c.len = uint32_t(n); for (uint32_t kd = 2; kd < 10; ++kd) { x.c.kind = kd; one(x); } }
		}
	} });
	k.domains.push_back({ "parse-numbers", "digit strings of every length 1..60 x powers in [-420,420], trailing garbage, leading space, sign", 841, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 60, deep ? 80 : 40); const int q = int(s) - 420;
		for (size_t i = 0; i < ds.size(); ++i) { const std::string t = ds[i] + "e" + std::to_string(q); for (uint32_t kd = 2; kd < 10; ++kd) { if (kd >= 4 && i % 4) continue; x.c.kind = kd; x.c.set(t); one(x); x.c.set(" " + t); one(x); x.c.set("-" + t + " tail"); one(x); x.c.set(ds[i].substr(0, 1) + "." + ds[i].substr(1) + "E" + std::to_string(q) + ".5"); one(x); } }
	} });
	k.domains.push_back({ "parse-long", "strings of 1..2040 (step 17) digits: nines, tie plus zeros, zeros; and exact midpoints", 120, [](mc::Ctx& x, uint32_t s) {
		for (int j = 0; j < 17; j += 4) { const size_t n = 1 + s * 17 + size_t(j); for (uint32_t kd = 2; kd < 10; ++kd) { x.c.kind = kd; x.c.set(std::string(n, '9')); one(x); x.c.set("0." + std::string(n, '9')); one(x); x.c.set("9007199254740993" + std::string(n, '0')); one(x); x.c.set("16777217." + std::string(n, '0') + "1"); one(x); } }
	} });
	k.domains.push_back(long_domain(deep, one, { 2, 3, 4, 5 }));
	k.assumptions = { "C locale" };
	k.domains.push_back(lit::parsing(one, { 2, 3, 4, 5, 6, 9 }));
	return k.main(argc, argv);
}

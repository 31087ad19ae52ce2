// Sign symmetry of printing and parsing.
#include <floaxie/ftoa.h>
#include "parse.h"
#include "lit.h"

template<typename F, typename C> static void judge_print(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const U u = U(x.c.a) & ~(U(1) << (sizeof(U) * 8 - 1));
	const F v = ref::from_bits<F>(u);
	C p[128], n[128];
	x.beat(); x.state(2);
	const size_t np = floaxie::ftoa(v, p), nn = floaxie::ftoa(F(-v), n);
	x.step(2); x.trace();
	if (np > 60 || nn > 60) x.fail("lengths %zu %zu", np, nn);
	if (v == 0) { if (np != nn || std::memcmp(p, n, (np + 1) * sizeof(C))) x.fail("zeros of different signs are printed differently"); x.outcome(0); return; }
	bool ok = nn == np + 1 && n[0] == C('-');
	for (size_t i = 0; ok && i <= np; ++i) ok = n[i + 1] == p[i];
	if (!ok) x.fail("the negative isn't '-' and the positive text");
	x.outcome(1);
}
template<typename F, typename C> static void judge_parse_sign(mc::Ctx& x)
{
	static C s[3][mc::text_max];
	s[1][0] = C('-'); s[2][0] = C('+');
	for (uint32_t i = 0; i <= x.c.len; ++i) s[0][i] = s[1][i + 1] = s[2][i + 1] = C((unsigned char)x.c.text[i]);
	x.beat(); x.state(3);
	C* e[3]; floaxie::value_and_status<F> r[3];
	for (int i = 0; i < 3; ++i) { e[i] = nullptr; r[i] = floaxie::atof<F>(static_cast<const C*>(s[i]), &e[i]); }
	x.step(3); x.trace();
	for (int i = 0; i < 3; ++i) if (const F number = r[i]; ref::bits<F>(number) != ref::bits<F>(r[i].value)) x.fail("used as a number, the result is %s, its value is %s", num<F>(number).c_str(), num<F>(r[i].value).c_str());
	const size_t used = size_t(e[0] - s[0]);
	if (!used) { if (e[1] != s[1] || e[2] != s[2]) x.fail("sign alone is consumed"); if (r[0].value != 0 || r[1].value != 0) x.fail("value without a number"); x.outcome(2); return; }
	if (e[1] != s[1] + used + 1 || e[2] != s[2] + used + 1) x.fail("consumed %zu, with minus %td, with plus %td", used, e[1] - s[1], e[2] - s[2]);
	if (r[0].status != r[1].status || r[0].status != r[2].status) x.fail("status %d, with minus %d, with plus %d", int(r[0].status), int(r[1].status), int(r[2].status));
	if (std::isnan(r[0].value)) { if (!std::isnan(r[1].value) || !std::isnan(r[2].value)) x.fail("nan"); x.outcome(3); return; }
	if (ref::bits<F>(r[1].value) != ref::bits<F>(-r[0].value)) x.fail("%s, with minus %s", num<F>(r[0].value).c_str(), num<F>(r[1].value).c_str());
	if (ref::bits<F>(r[2].value) != ref::bits<F>(r[0].value)) x.fail("%s, with plus %s", num<F>(r[0].value).c_str(), num<F>(r[2].value).c_str());
	if (std::signbit(r[0].value)) x.fail("negative value of an unsigned text");
	x.outcome(4);
	if (x.want_sample()) x.sample(std::string(x.c.text) + " -> " + num<F>(r[0].value) + ", -/+ symmetric");
}
static void one(mc::Ctx& x)
{
	switch (x.c.kind) {
	case 0: judge_print<double, char>(x); break; case 1: judge_print<float, char>(x); break; case 2: judge_print<double, wchar_t>(x); break; case 3: judge_print<float, wchar_t>(x); break; case 4: judge_print<double, char16_t>(x); break; case 5: judge_print<float, char32_t>(x); break;
	case 10: judge_parse_sign<double, char>(x); break; case 11: judge_parse_sign<float, char>(x); break; case 12: judge_parse_sign<double, wchar_t>(x); break; default: judge_parse_sign<float, wchar_t>(x);
	}
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C13"; k.one = one; k.outcome_names = { "zeros", "printed pair", "no number", "nan", "parsed triple" };
	k.domains.push_back({ "print-double", "every exponent field below NaN x mantissa alphabet; 3 character types for the small one", 2048, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 15 : 12, deep ? 15 : 12, deep ? 18 : 15), mw = gen::mantissas(52, 2, 2, 4);
		for (uint64_t m : ms) { if (s == 2047 && m) break; x.c.kind = 0; x.c.a = uint64_t(s) << 52 | m; one(x); }
		for (uint64_t m : mw) { if (s == 2047 && m) break; x.c.a = uint64_t(s) << 52 | m; for (uint32_t kd : { 2, 4 }) { x.c.kind = kd; one(x); } }
	} });
	k.domains.push_back({ "print-float", "all floats divisible by 2 (quick) / all floats (thorough)", 2041, [deep](mc::Ctx& x, uint32_t s) {
		const uint32_t b = s << 20;
		for (uint32_t i = 0; i < (s == 2040 ? 1u : 1u << 20); i += deep ? 1 : 2) { x.c.a = b + i; x.c.kind = 1; one(x); if (i % 1024 == 0) { x.c.kind = 3; one(x); x.c.kind = 5; one(x); } }
	} });
	k.domains.push_back({ "print-short-decimals", "doubles nearest to d*10^q, d of up to 3 (thorough 4) digits, q in [-345,308]", 654, [deep](mc::Ctx& x, uint32_t s) {
		char t[32];
		for (int d = 1; d < (deep ? 10000 : 1000); ++d) { int n = snprintf(t, sizeof t, "%de%d", d, int(s) - 345); double v = ref::magnitude<double>(t, t + n, true); if (std::isinf(v)) continue; x.c.kind = 0; x.c.a = ref::bits<double>(v); one(x); }
	} });
	k.domains.push_back({ "parse-numbers", "digit strings of every length 1..30 x powers in [-420,420], double; float in its range; char and wchar_t", 841, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(2, 30, deep ? 60 : 24);
		const int q = int(s) - 420;
		for (size_t i = 0; i < ds.size(); ++i) { put(x.c, ds[i], q); x.c.kind = 10; one(x); if ((q > -90 && q < 60) || i % 16 == 0) { x.c.kind = 11; one(x); } if (i % 8 == 0) { x.c.kind = 12 + (i / 8) % 2; one(x); } }
	} });
	k.domains.push_back({ "parse-near-midpoints", "17..20 digit neighbours of the midpoint after every exponent field x small mantissa alphabet (fallback and near-fallback cases)", 2047, [](mc::Ctx& x, uint32_t s) {
		std::string d; long e10; static const auto ms = gen::mantissas(52, 2, 2, 3);
		for (size_t i = s % 31; i < ms.size(); i += 31) { uint64_t mm; long me; exact::midpoint<double>(uint64_t(s) << 52 | ms[i], mm, me); exact::exact_decimal(mm, me, d, e10);
			for (size_t n : { 17, 18, 19, 20 }) if (n < d.size()) { put(x.c, d.substr(0, n), int(e10 + long(d.size() - n))); for (uint32_t kd = 10; kd < 14; ++kd) { x.c.kind = kd; one(x); } }
			if (d.size() < 700) { put(x.c, d, int(e10)); for (uint32_t kd = 10; kd < 14; ++kd) { x.c.kind = kd; one(x); } } }
	} });
	k.domains.push_back({ "parse-all-short", "all strings of up to 5 (thorough 6) characters over 15 characters which don't begin with a sign", 225, [deep](mc::Ctx& x, uint32_t s) {
		static const char al[] = "0159.eE+-nainf( ";
		const int kk = 15;
		for (int n = 0; n <= (deep ? 6 : 5); ++n) {
			if ((n < 2 && s >= 15) || (n < 1 && s)) continue;
			uint32_t tot = 1; for (int i = 2; i < n; ++i) tot *= kk;
			for (uint32_t v = 0; v < tot; ++v) {
				char* t = x.c.text; uint32_t y = v; if (n > 0) t[0] = al[s % 15]; if (n > 1) t[1] = al[s / 15]; for (int i = 2; i < n; ++i) { t[i] = al[y % kk]; y /= kk; }
				t[n] = 0; x.c.len = uint32_t(n); if (t[0] == '-' || t[0] == '+') break;
				for (uint32_t kd = 10; kd < 14; ++kd) { x.c.kind = kd; one(x); }
			}
		}
	} });
	lit::printing(k.domains, one, 0, 1);
	k.domains.push_back(lit::parsing([](mc::Ctx& x) { if (*x.c.text != '-' && *x.c.text != '+') one(x); }, { 10, 11 }));
	k.domains.push_back(lit::powers([](mc::Ctx& x) { if (*x.c.text != '-') one(x); }, { 10, 11 }));
	return k.main(argc, argv);
}

// Special values.
#include <floaxie/ftoa.h>
#include "parse.h"
#include "lit.h"

template<typename C> static size_t ascii_len(const C* s) { size_t n = 0; while (s[n]) ++n; return n; }

template<typename F, typename C> static void judge_text(mc::Ctx& x, const C* s)
{
	x.beat(); x.state();
	C* e = nullptr;
	const auto r = floaxie::atof<F>(s, &e);
	x.step(); x.state();
	const auto w = ref::parse<F>(s);
	x.trace();
	if (e != s + w.used) x.fail("%td characters consumed, %zu expected", e ? e - s : -1, w.used);
	if (w.kind == ref::nan) { if (!std::isnan(r.value)) x.fail("%s instead of nan", num<F>(r.value).c_str()); if (!(ref::bits<F>(r.value) >> (ref::fmt<F>::mb - 1) & 1)) x.fail("a signaling nan"); }
	else if (!ref::same<F>(r.value, w.value)) x.fail("%s instead of %s", num<F>(r.value).c_str(), num<F>(w.value).c_str());
	if (int(r.status) != int(w.status)) x.fail("status %d", int(r.status));
	x.outcome(unsigned(w.kind));
}

// case: text, wide character a placed at position b (c: 0 none, 1 substituted, 2 inserted)
template<typename F, typename C> static void judge(mc::Ctx& x)
{
	if (x.c.kind & mc::long_text) { const std::string t = mc::expand(x.c); const std::basic_string<C> w(t.begin(), t.end()); judge_text<F, C>(x, w.c_str()); return; }
	static C buf[mc::text_max];
	std::basic_string<C> v; for (uint32_t i = 0; i < x.c.len; ++i) v += C((unsigned char)x.c.text[i]);
	if (x.c.c == 1) v[x.c.b] = C(x.c.a); else if (x.c.c == 2) v.insert(x.c.b, 1, C(x.c.a));
	std::memcpy(buf, v.c_str(), (v.size() + 1) * sizeof(C));
	judge_text<F, C>(x, buf);
	if (x.want_sample()) x.sample(mc::escape(std::string(x.c.text, x.c.len)));
}
template<typename F, typename C> static void judge_print(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const F v = ref::from_bits<F>(U(x.c.a));
	const char* want = std::isnan(v) ? "nan" : v > 0 ? "inf" : "-inf";
	C buf[64]; for (auto& c : buf) c = C('#');
	x.beat(); x.state();
	const size_t n = floaxie::ftoa(v, buf);
	x.step(); x.state(); x.trace();
	bool ok = n == std::strlen(want); for (size_t i = 0; ok && i <= n; ++i) ok = buf[i] == C(want[i]);
	if (!ok) x.fail("isn't printed as \"%s\"", want);
	C* e = nullptr; const auto r = floaxie::atof<F>(static_cast<const C*>(buf), &e, [](const C*, C**) -> F { return F(42); });
	x.step();
	if (e != buf + n || !(std::isnan(v) ? std::isnan(r.value) : r.value == v) || r.status != floaxie::conversion_status::success) x.fail("the printed text isn't parsed back");
	x.outcome(4);
}
static void one(mc::Ctx& x)
{
	switch (x.c.kind & ~mc::long_text) {
	case 0: judge<double, char>(x); break; case 1: judge<float, char>(x); break; case 2: judge<double, wchar_t>(x); break; case 3: judge<float, wchar_t>(x); break;
	case 10: judge_print<double, char>(x); break; case 11: judge_print<float, char>(x); break; case 12: judge_print<double, wchar_t>(x); break; case 13: judge_print<float, wchar_t>(x); break;
	case 14: judge_print<double, char16_t>(x); break; case 15: judge_print<float, char16_t>(x); break; case 16: judge_print<double, char32_t>(x); break; case 17: judge_print<float, char32_t>(x); break;
	}
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C11"; k.one = one; k.outcome_names = { "no number", "number", "infinity", "nan", "printed special" };
	k.describe = [](const mc::Case& c) { char b[200]; snprintf(b, sizeof b, "kind %u \"%s\" a=0x%llx b=%llu c=%llu", c.kind, mc::escape(std::string(c.text, c.len)).substr(0, 100).c_str(), (unsigned long long)c.a, (unsigned long long)c.b, (unsigned long long)c.c); return std::string(b); };
	k.domains.push_back({ "case-variants", "every upper/lower case variant of inf, infinity and nan x sign x 12 suffixes, char and wchar_t, float and double", 256, [](mc::Ctx& x, uint32_t s) {
		x.c.c = 0;
		for (const char* word : { "infinity", "inf", "nan", "infinit", "infini", "infin", "infi", "in", "na", "i", "n" }) {
			std::string w(word); if (s >= 1u << w.size()) continue;
			for (size_t i = 0; i < w.size(); ++i) if (s >> i & 1) w[i] = char(w[i] - 32);
			for (const char* sg : { "", "-", "+", "--", "+-", ".", "-.", "1", "-0" }) for (const char* suf : { "", " ", "x", "0", "1e5", ".", "e5", "()", "(", "y", "inity", "nan" })
				for (uint32_t kd = 0; kd < 4; ++kd) { x.c.kind = kd; x.c.set(sg + w + suf); one(x); }
		}
	} });
	k.domains.push_back({ "nan-sequences", "nan( followed by every sequence of up to 4 (thorough 5) characters over {0,9,a,z,A,Z,_,-,' ',(,),.}", 144, [deep](mc::Ctx& x, uint32_t s) {
		static const char al[] = "09azAZ_- ().";
		x.c.c = 0;
		for (int n = 0; n <= (deep ? 5 : 4); ++n) {
			uint32_t tot = 1; for (int i = 2; i < n; ++i) tot *= 12;
			if ((n < 2 && s >= 12) || (n < 1 && s)) continue;
			for (uint32_t v = 0; v < tot; ++v) {
				std::string t = "nan("; uint32_t y = v; if (n > 0) t += al[s % 12]; if (n > 1) t += al[s / 12]; for (int i = 2; i < n; ++i) { t += al[y % 12]; y /= 12; }
				for (uint32_t kd = 0; kd < 4; ++kd) { x.c.kind = kd; x.c.set(t); one(x); x.c.set("-" + t); one(x); }
			}
		}
	} });
	k.domains.push_back({ "long-nan-sequences", "nan( + n letters/digits + ) for n up to 3000 (step 1 to 64, then 61)", 1, [](mc::Ctx& x, uint32_t) {
		x.c.c = 0;
		for (int n = 0; n < 3000; n += n < 64 ? 1 : 61) for (char c : { 'a', 'Z', '0', '9', '_' }) for (const char* end : { ")", "", "-", "))" }) for (uint32_t kd = 0; kd < 4; ++kd) { x.c.kind = kd; x.c.set("nan(" + std::string(size_t(n), c) + end); one(x); }
	} });
	k.domains.push_back({ "one-character-mutations", "every char 1..255 / every wchar_t 1..0x10ffff (quick: up to 0x3ffff) substituted for and inserted at every position of the special words", 256, [deep](mc::Ctx& x, uint32_t s) {
		for (const char* word : { "inf", "-inf", "infinity", "INFINITY", "nan", "NaN", "nan(a1_)", "-nan", "+inf" }) {
			x.c.set(std::string(word));
			for (uint32_t at = 0; at <= x.c.len; ++at) for (uint64_t m = 1; m <= 2; ++m) {
				if (m == 1 && at == x.c.len) continue;
				x.c.b = at; x.c.c = m;
				for (uint32_t kd = 0; kd < 2; ++kd) if (s) { x.c.kind = kd; x.c.a = s; one(x); }
				for (uint32_t hi = 0; hi < (deep ? 0x1100u : 0x400u); ++hi) { x.c.kind = 2 + (hi & 1); x.c.a = hi << 8 | s; if (x.c.a) one(x); }
				for (uint32_t hi : { 0x7fffffu, 0x800000u, 0xffffffu, 0xffff00u, 0x100000u }) { x.c.kind = 2; x.c.a = hi << 8 | s; one(x); }
			}
		}
	} });
	k.domains.push_back({ "printing", "both infinities and NaNs of every payload bit pattern of weight <= 2, lattice, both signs, 4 character types", 4, [](mc::Ctx& x, uint32_t s) {
		x.c.len = 0; x.c.text[0] = 0;
		for (uint64_t m : gen::mantissas(52, 6, 6, 10)) for (uint64_t neg = 0; neg < 2; ++neg) { x.c.kind = 10 + 2 * s; x.c.a = neg << 63 | uint64_t(2047) << 52 | m; one(x); }
		for (uint64_t m : gen::mantissas(23, 6, 6, 10)) for (uint64_t neg = 0; neg < 2; ++neg) { x.c.kind = 11 + 2 * s; x.c.a = neg << 31 | uint64_t(255) << 23 | m; one(x); }
	} });
	k.domains.push_back(long_domain(deep, one, { 0, 1, 2, 3 }, [](const std::string& t) { return t.find_first_of("nNi") != std::string::npos; }));
	k.assumptions = { "C locale (other locales: C20)" };
	k.domains.push_back(lit::parsing(one, { 0, 1, 2, 3 }));
	return k.main(argc, argv);
}

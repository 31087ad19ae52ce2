// Text following a number, and numbers following one another.
#include <floaxie/ftoa.h>
#include "parse.h"
#include "lit.h"

// case: text = number, a = code unit following it, b = index of the rest
static const char* rests[] = { "", "0", "5", "9e5", ".5", "e-7", "+1", "-1", " 2", "000000000000000000000000000001", "999999999999999999999999999999e400", "nan", "inf", "x(", ",3.5", ".", "e", "E", "E+5" };
constexpr size_t nrests = sizeof rests / sizeof *rests;

template<typename F, typename C> static void judge(mc::Ctx& x)
{
	static C alone[mc::text_max], t[mc::text_max];
	for (uint32_t i = 0; i <= x.c.len; ++i) alone[i] = t[i] = C((unsigned char)x.c.text[i]);
	size_t n = x.c.len; t[n++] = C(x.c.a); for (const char* r = rests[x.c.b]; *r; ++r) t[n++] = C(*r); t[n] = C(0);
	// does the continuation belong to the number by the grammar?
	if (ref::scan(static_cast<const C*>(t)).used != x.c.len) { x.outcome(0); return; }
	x.beat(); x.state(2);
	C *e = nullptr, *g = nullptr;
	const auto a = floaxie::atof<F>(static_cast<const C*>(alone), &e), b = floaxie::atof<F>(static_cast<const C*>(t), &g);
	x.step(2); x.trace();
	if (e != alone + x.c.len) x.fail("alone: %td of %u characters consumed", e - alone, x.c.len);
	if (g != t + x.c.len) x.fail("followed by 0x%llx \"%s\": %td of %u characters consumed", (unsigned long long)x.c.a, rests[x.c.b], g - t, x.c.len);
	if (!ref::same<F>(a.value, b.value) || a.status != b.status) x.fail("followed by 0x%llx \"%s\": %s status %d, alone %s status %d", (unsigned long long)x.c.a, rests[x.c.b], num<F>(b.value).c_str(), int(b.status), num<F>(a.value).c_str(), int(a.status));
	x.outcome(1);
	if (x.want_sample()) x.sample(mc::escape(std::string(x.c.text, x.c.len) + char(x.c.a) + rests[x.c.b]).substr(0, 120));
}

// text = number and continuation, as a whole: only the longest number in front of it counts
template<typename F, typename C> static void judge_prefix(mc::Ctx& x)
{
	static C salone[mc::text_max], st[mc::text_max];
	C *alone = salone, *t = st; std::basic_string<C> la, lw; size_t used;
	if (x.c.kind & mc::long_text) { const std::string lt = mc::expand(x.c); lw.assign(lt.begin(), lt.end()); t = &lw[0]; la.resize(lt.size() + 1); alone = &la[0]; used = ref::scan(lt.c_str()).used; }
	else { used = ref::scan(static_cast<const char*>(x.c.text)).used; for (uint32_t i = 0; i <= x.c.len; ++i) t[i] = C((unsigned char)x.c.text[i]); }
	for (size_t i = 0; i < used; ++i) alone[i] = t[i];
	alone[used] = C(0);
	x.beat(); x.state(2);
	C *e = nullptr, *g = nullptr;
	const auto a = floaxie::atof<F>(static_cast<const C*>(alone), &e), b = floaxie::atof<F>(static_cast<const C*>(t), &g);
	x.step(2); x.trace();
	if (e != alone + used) x.fail("alone: %td of %zu characters consumed", e - alone, used);
	if (g != t + used) x.fail("%td characters consumed, the number has %zu", g - t, used);
	if (!ref::same<F>(a.value, b.value) || a.status != b.status) x.fail("%s status %d, alone %s status %d", num<F>(b.value).c_str(), int(b.status), num<F>(a.value).c_str(), int(a.status));
	x.outcome(1);
}

static const uint64_t stream_values[] = { 0x3ff0000000000000, 0xc059000000000000, 0x3fb999999999999a, 0x0000000000000001, 0x7fefffffffffffff, 0xffefffffffffffff, 0, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x4341c37937e08000, 0x4340000000000001, 0x3e7ad7f29abcaf48, 0x4202a05f20000000, 0xbf2a36e2eb1c432d, 0x41dfffffffc00000 };
constexpr unsigned nsv = 16;

// printing one after another into one buffer and parsing one after another
template<typename F, typename C> static void judge_stream(mc::Ctx& x)
{
	static C buf[4096];
	const unsigned n = unsigned(x.c.b);
	size_t pos = 0; const C del = C(x.c.c);
	F v[8];
	x.beat(); x.state();
	for (unsigned i = 0; i < n; ++i) {
		double d = ref::from_bits<double>(stream_values[x.c.a >> (4 * i) & 15]); v[i] = F(d);
		const size_t len = floaxie::ftoa(v[i], buf + pos); x.step(); x.state();
		if (len == 0 || len > 40) x.fail("length %zu", len);
		pos += len; buf[pos++] = del;
	}
	buf[pos] = C(0);
	const C* p = buf;
	for (unsigned i = 0; i < n; ++i) {
		C* e = nullptr; const auto r = floaxie::atof<F>(p, &e); x.step(); x.state();
		const F want = v[i] == 0 ? F(0) : v[i];
		if (!ref::same<F>(r.value, want) || r.status != floaxie::conversion_status::success) x.fail("value %u of the sequence: %s instead of %s", i + 1, num<F>(r.value).c_str(), num<F>(want).c_str());
		if (e <= p || *e != del) x.fail("value %u of the sequence: parsing stops at a wrong place", i + 1);
		p = e + 1;
	}
	if (p != buf + pos) x.fail("the sequence isn't consumed completely");
	x.trace(); x.outcome(2);
}
static void one(mc::Ctx& x)
{
	switch (x.c.kind & ~mc::long_text) { case 0: judge<double, char>(x); break; case 1: judge<float, char>(x); break; case 2: judge<double, wchar_t>(x); break; case 3: judge<float, wchar_t>(x); break; case 4: judge_prefix<double, char>(x); break; case 5: judge_prefix<float, char>(x); break; case 6: judge_prefix<double, wchar_t>(x); break; case 7: judge_prefix<float, wchar_t>(x); break; case 10: judge_stream<double, char>(x); break; case 11: judge_stream<float, char>(x); break; case 12: judge_stream<double, wchar_t>(x); break; default: judge_stream<float, wchar_t>(x); }
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C23"; k.one = one; k.outcome_names = { "continuation belongs to the number", "foreign continuation", "sequence" };
	static const char* numbers[] = { "0", "-0", "1", "12", "-7", "+5", "0.5", "1.25", "123.", ".5", "1e5", "1E-5", "-1.5e+10", "0e0", "0.000", "inf", "-infinity", "nan", "nan(a)", "1e999", "1e-999", "9007199254740993", "9007199254740993.0", "9007199254740993e0", "16777217", "16777217.0e0", "1234567890123456789", "12345678901234567890", "0.1234567890123456789", "1234567890123456789012345678901234567890", "123456789.123456789123456789", "2.4703282292062328e-324", "1.7976931348623158e308", "7.0064923216240854e-46", "3.4028235677973366e38", "99999999999999999999", "1000000000000000000000000000000", "0.00000000000000000000000000001", "1e00005", "5e-324", "123456789012345678", "99999999.5", "0.999999999999999999999", "4503599627370496.5", "4503599627370497.5" };
	constexpr uint32_t nn = sizeof numbers / sizeof *numbers;
	k.domains.push_back({ "followed-by-anything", "45 numbers x every following char 1..255 (wchar_t: 16-bit grid) x 19 continuations, float and double", nn * 8, [deep](mc::Ctx& x, uint32_t s) {
		x.c.set(std::string(numbers[s / 8]));
		for (uint64_t b = 0; b < nrests; ++b) { x.c.b = b;
			for (uint32_t ch = 1 + s % 8; ch < 256; ch += 8) for (uint32_t kd = 0; kd < 4; ++kd) { x.c.kind = kd; x.c.a = ch; one(x); }
			for (uint32_t ch = 256 + s % 8; ch < 0x10000; ch += deep ? 8 : 56) { x.c.kind = 2 + (ch >> 4 & 1); x.c.a = ch; one(x); }
		}
	} });
	k.domains.push_back({ "all-continuations", "45 numbers x every continuation of up to 3 (thorough 4) characters over 18, char and wchar_t, float and double", nn * 18, [deep](mc::Ctx& x, uint32_t s) {
		static const char al[] = "eE+-.05( )n,aix_9f"; const uint32_t kk = 18;
		const std::string num(numbers[s / 18]);
		for (int n = 1; n <= (deep ? 4 : 3); ++n) { uint32_t tot = 1; for (int i = 1; i < n; ++i) tot *= kk;
			for (uint32_t v = 0; v < tot; ++v) { std::string t = num + al[s % kk]; uint32_t y = v; for (int i = 1; i < n; ++i) { t += al[y % kk]; y /= kk; } x.c.set(t); for (uint32_t kd = 4; kd < 8; ++kd) { x.c.kind = kd; one(x); } } }
	} });
	k.domains.push_back({ "digit-strings-followed", "digit strings of every length 1..40 as integers, fractions and with exponents, followed by 16 delimiters x 19 continuations", 40, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 40, deep ? 40 : 6);
		for (size_t i = s; i < ds.size(); i += 40) for (const char* form : { "%", "0.%", "%.", "%e-20", "-%e5", "%.5" }) {
			std::string t; for (const char* f = form; *f; ++f) if (*f == '%') t += ds[i]; else t += *f;
			for (char ch : { ' ', ',', ';', '\t', '\n', ':', '/', ')', ']', '-', '+', 'x', '_', 'e', '.', '\xff' }) for (uint64_t b = 0; b < nrests; ++b) for (uint32_t kd = 0; kd < 4; ++kd) { if (kd > 1 && b % 5) continue; x.c.set(t); x.c.a = (unsigned char)ch; if (kd > 1 && ch < 0) x.c.a = 0xff; x.c.b = b; x.c.kind = kd; one(x); }
		}
	} });
	k.domains.push_back({ "sequences", "every sequence of up to 4 (thorough 5) printed values of 16 (special, extreme, short, long) with each of 10 delimiters, printed into one buffer and parsed back one after another", 10 * 16, [deep](mc::Ctx& x, uint32_t s) {
		static const char del[] = " ,;\t\n:|/x_";
		x.c.set(std::string());
		for (unsigned n = 1; n <= (deep ? 5u : 4u); ++n) for (uint64_t v = s / 10; v < uint64_t(1) << (4 * n); v += 16) for (uint32_t kd = 10; kd < 14; ++kd) { x.c.kind = kd; x.c.a = v; x.c.b = n; x.c.c = (unsigned char)del[s % 10]; one(x); }
	} });
	k.domains.push_back(long_domain(deep, one, { 4, 5, 6, 7 }));
	k.assumptions = { "C locale" };
	k.domains.push_back(lit::parsing(one, { 4, 5, 6, 7 }));
	k.domains.push_back(lit::powers(one, { 4, 5, 6, 7 }));
	return k.main(argc, argv);
}

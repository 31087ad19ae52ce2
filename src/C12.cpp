// Range status.
#include "parse.h"
#include "lit.h"

static const int errnos[] = { 0, ERANGE, EINVAL, ENOMEM };

template<typename F, typename C> static void judge(mc::Ctx& x)
{
	static C wide[mc::text_max];
	const C* s; const char* narrow = x.c.text;
	std::string lt; std::basic_string<C> lw;
	if (x.c.kind & mc::long_text) { lt = mc::expand(x.c); narrow = lt.c_str(); lw.assign(lt.begin(), lt.end()); s = lw.c_str(); }
	else if constexpr (sizeof(C) == 1) s = x.c.text;
	else { for (uint32_t i = 0; i <= x.c.len; ++i) wide[i] = C((unsigned char)x.c.text[i]); s = wide; }
	const ref::Value<F> w = ref::parse<F>(narrow);
	x.beat();
	for (unsigned i = 0; i < ((x.c.kind & 4) ? 4u : 1u); ++i) {
		x.state();
		errno = errnos[i];
		C* end = nullptr;
		const auto r = floaxie::atof<F>(s, &end);
		x.step(); x.trace();
		if (const F number = r; ref::bits<F>(number) != ref::bits<F>(r.value)) x.fail("used as a number, the result is %s, its value is %s", num<F>(number).c_str(), num<F>(r.value).c_str());
		if (int(r.status) != int(w.status)) x.fail("status %d, %d expected (value %s, errno before %d)", int(r.status), int(w.status), num<F>(r.value).c_str(), errnos[i]);
		if (w.status == ref::overflow && !(std::isinf(r.value) && std::signbit(r.value) == w.neg)) x.fail("overflow yields %s", num<F>(r.value).c_str());
		if (w.status == ref::underflow && !(r.value == 0)) x.fail("underflow yields %s", num<F>(r.value).c_str());
		if (w.status == ref::success && w.kind == ref::number && (std::isinf(r.value) || (r.value == 0) != (w.value == 0))) x.fail("%s with success", num<F>(r.value).c_str());
		if (end != s + w.used) x.fail("%td of %zu characters consumed", end - s, w.used);
	}
	x.outcome(unsigned(w.kind) * 3 + unsigned(w.status));
	if (x.want_sample()) x.sample(std::string(x.c.text).substr(0, 100) + ": status " + std::to_string(int(w.status)));
}
static void one(mc::Ctx& x) { switch (x.c.kind & 3) { case 0: judge<double, char>(x); break; case 1: judge<float, char>(x); break; case 2: judge<double, wchar_t>(x); break; default: judge<float, wchar_t>(x); } }

// spellings of D*10^q
static void spell(mc::Ctx& x, const std::string& d, int q, uint32_t kd)
{
	static const char* sg[] = { "", "-", "+" };
	for (int sign = 0; sign < 3; ++sign) {
		const std::string p(sg[sign]);
		x.c.kind = kd; put(x.c, p + d, q); one(x);
		put(x.c, p + "0." + d, q + int(d.size())); one(x);
		put(x.c, p + "000" + d.substr(0, 1) + "." + d.substr(1) + "0", q + int(d.size()) - 1); one(x);
		if (q > 0 && q < 1000) { x.c.set(p + d + std::string(size_t(q), '0')); one(x); x.c.set(p + d + std::string(size_t(q), '0') + ".0"); one(x); }
		if (q < 0 && q > -1000) { const int dot = int(d.size()) + q; x.c.set(dot > 0 ? p + d.substr(0, size_t(dot)) + "." + d.substr(size_t(dot)) : p + "." + std::string(size_t(-dot), '0') + d); one(x); }
	}
}

// neighbours of an exact threshold m*2^e, n leading digits, truncated and plus one
static void threshold(mc::Ctx& x, uint64_t m, long e, uint32_t kd)
{
	std::string d; long e10; exact::exact_decimal(m, e, d, e10);
	for (size_t n = 1; n <= std::min<size_t>(d.size(), 40); ++n) { std::string t = d.substr(0, n); int q = int(e10 + long(d.size() - n)); spell(x, t, q, kd); spell(x, bump(t), q, kd); }
	spell(x, d, int(e10), kd);
	if (d.size() < 900) { spell(x, d + "1", int(e10) - 1, kd); std::string l = d; for (size_t i = l.size(); i--;) { if (l[i] == '0') l[i] = '9'; else { --l[i]; break; } } spell(x, l + "9", int(e10) - 1, kd); }
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C12"; k.one = one; k.describe = describe_parse; k.outcome_names = parse_outcomes();
	k.domains.push_back({ "thresholds", "decimal neighbours (1..40 digits and exact) of: largest finite value, its midpoint to infinity, least subnormal and its half, least normal and its neighbours; 5 spellings, 3 signs, char and wchar_t, 4 values of errno before", 16, [](mc::Ctx& x, uint32_t s) {
		const uint32_t kd = (s & 3) | 4; const bool fl = s & 1;
		auto go = [&](uint64_t u, bool mid) { uint64_t m; long e; if (fl) { if (mid) exact::midpoint<float>(uint32_t(u), m, e); else exact::split<float>(uint32_t(u), m, e); } else { if (mid) exact::midpoint<double>(u, m, e); else exact::split<double>(u, m, e); } threshold(x, m, e, kd); };
		const uint64_t inf = fl ? uint64_t(255) << 23 : uint64_t(2047) << 52, mn = fl ? uint64_t(1) << 23 : uint64_t(1) << 52;
		switch (s >> 2) {
		case 0: go(inf - 1, false); go(inf - 1, true); break;
		case 1: go(inf, false); go(inf - 2, true); go(inf - 2, false); break;
		case 2: go(0, true); go(1, false); go(1, true); go(2, false); break;
		case 3: go(mn, false); go(mn - 1, false); go(mn - 1, true); go(mn, true); go(mn - 2, true); break;
		}
	} });
	k.domains.push_back({ "digits-x-power", "every digit string of up to 2 digits and a lattice of longer ones (up to 24) x every power in [-420,420], spellings and signs, double and float", 841, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(deep ? 3 : 2, 24, deep ? 120 : 60);
		const int q = int(s) - 420;
		for (size_t i = 0; i < ds.size(); ++i) { spell(x, ds[i], q, 0); if (q > -90 && q < 60) spell(x, ds[i], q, 1); else if (i % 8 == 0) spell(x, ds[i], q, 1); if (i % 16 == 0) { spell(x, ds[i], q, 2 | 4); spell(x, ds[i], q, 3 | 4); } }
	} });
	k.domains.push_back({ "subnormals", "doubles and floats with exponent field 0..2: mantissa alphabet printed with 17 / 9 and with fewer digits, 4 values of errno before", 6, [](mc::Ctx& x, uint32_t s) {
		char t[64]; const bool fl = s & 1; const uint64_t ex = s / 2;
		for (uint64_t m : gen::mantissas(fl ? 23 : 52, 8, 12, 8)) for (int p : { 0, 1, 3, fl ? 8 : 16 }) {
			std::to_chars_result r = fl ? std::to_chars(t, t + 60, ref::from_bits<float>(uint32_t(ex << 23 | m)), std::chars_format::scientific, p) : std::to_chars(t, t + 60, ref::from_bits<double>(ex << 52 | m), std::chars_format::scientific, p);
			for (uint32_t wd = 0; wd < 4; wd += 2) { x.c.kind = uint32_t(fl) | 4 | wd; x.c.set(t, size_t(r.ptr - t)); one(x); x.c.set("-" + std::string(t, r.ptr)); one(x); }
		}
	} });
	k.domains.push_back({ "huge-exponents", "powers of every number of digits up to 40 and around the powers of two up to 2^64 (overflow of the exponent accumulator), zero and nonzero mantissas, mantissas compensating with up to 2000 zeros", 64, [](mc::Ctx& x, uint32_t s) {
		std::vector<std::string> es;
		for (int d = -3; d <= 3; ++d) { unsigned __int128 v = (unsigned __int128)(1) << s; if (d < 0 && v < (unsigned)(-d)) continue; v += (unsigned __int128)(__int128)d; std::string t; do { t.insert(t.begin(), char('0' + int(v % 10))); v /= 10; } while (v); es.push_back(t); }
		for (const char* lead : { "1", "9", "99", "2147483648", "4294967296", "18446744073709551616", "0000000" }) es.push_back(lead + std::string(s % 40, '0') + "7");
		for (auto& e : es) for (const char* m : { "0", "0.0", "1", "9.99", "0.001", "123456789012345678901234567890", "-1", "-0", "00000" }) for (const char* sg : { "e", "e-", "E+" }) for (uint32_t kd = 0; kd < 4; ++kd) {
			x.c.kind = kd | 4; x.c.set(std::string(m) + sg + e); one(x);
		}
		for (int z : { 300, 320, 1000, 1999 }) for (int d = -400; d <= 400; d += 5) for (uint32_t kd = 0; kd < 2; ++kd) {
			if (((d + 400) / 5) % 64 != int(s)) continue;
			x.c.kind = kd; x.c.set("0." + std::string(size_t(z), '0') + "15e" + std::to_string(z + d)); one(x); x.c.set("15" + std::string(size_t(z), '0') + "e" + std::to_string(d - z)); one(x); x.c.set("0." + std::string(size_t(z), '0') + "e" + std::to_string(z + d)); one(x);
		}
	} });
	k.domains.push_back({ "float-exhaustive-limits", "every float of the first 2^20 subnormals and of the last 2^20 finite ones, 9 digits, both signs", 64, [](mc::Ctx& x, uint32_t s) {
		char t[64];
		for (uint32_t i = s; i < 1u << 20; i += 64) for (uint32_t u : { i, 0x7f800000u - 1 - i }) { auto r = std::to_chars(t, t + 60, ref::from_bits<float>(u), std::chars_format::scientific, 8); x.c.kind = 1; x.c.set(t, size_t(r.ptr - t)); one(x); x.c.set("-" + std::string(t, r.ptr)); one(x); }
	} });
	k.domains.push_back(long_domain(deep, one, { 4, 5, 2, 3 }));
	k.assumptions = { "C locale" };
	k.domains.push_back(lit::parsing(one, { 4, 5, 2, 3 }));
	return k.main(argc, argv);
}

// Printed text follows the documented format and notation rule.
#include <floaxie/ftoa.h>
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include "lit.h"

// rebuilds the only allowed spelling of the digits and the power found in the text
static bool canonical(const char* t, size_t n)
{
	const char* p = t; const char* const e = t + n;
	char out[128]; size_t o = 0;
	if (*p == '-') { out[o++] = '-'; ++p; }
	char d[64]; int nd = 0, k = 0; bool dot = false, lead = true; int mant = 0;
	for (; p != e; ++p) {
		if (*p == '.') { if (dot) return false; dot = true; continue; }
		if (*p < '0' || *p > '9') break;
		if (++mant > 50) return false;
		if (dot) --k;
		if (lead && *p == '0') continue;
		lead = false; d[nd++] = *p;
	}
	if (p != e) {
		if (*p++ != 'e') return false;
		bool neg = false; if (p != e && *p == '-') { neg = true; ++p; }
		int x = 0, c = 0; for (; p != e && *p >= '0' && *p <= '9'; ++p, ++c) { x = x * 10 + (*p - '0'); if (c > 4) return false; }
		if (!c || p != e) return false;
		k += neg ? -x : x;
	}
	if (!nd) return n == 1 && t[0] == '0';
	while (d[nd - 1] == '0') { --nd; ++k; }
	const int pos = nd + k;
	if (std::max(pos, -k) <= 16) {
		if (k >= 0) { for (int i = 0; i < nd; ++i) out[o++] = d[i]; for (int i = 0; i < k; ++i) out[o++] = '0'; }
		else if (pos > 0) { for (int i = 0; i < nd; ++i) { if (i == pos) out[o++] = '.'; out[o++] = d[i]; } }
		else { out[o++] = '0'; out[o++] = '.'; for (int i = pos; i < 0; ++i) out[o++] = '0'; for (int i = 0; i < nd; ++i) out[o++] = d[i]; }
	} else {
		out[o++] = d[0]; if (nd > 1) { out[o++] = '.'; for (int i = 1; i < nd; ++i) out[o++] = d[i]; }
		int x = pos - 1; out[o++] = 'e'; if (x < 0) { out[o++] = '-'; x = -x; }
		if (x >= 100) out[o++] = char('0' + x / 100);
		out[o++] = char('0' + x / 10 % 10); out[o++] = char('0' + x % 10);
	}
	return o == n && !std::memcmp(out, t, n);
}

template<typename F, typename C> static void judge(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const F v = ref::from_bits<F>(U(x.c.a));
	C buf[128]; char nb[128]; const char* t = nb;
	x.beat(); x.state();
	const std::size_t n = floaxie::ftoa(v, buf);
	x.step();
	if (n == 0 || n > 60) x.fail("returned length %zu", n);
	if (sizeof(C) == 1) t = reinterpret_cast<const char*>(buf);
	else { for (size_t i = 0; i <= n; ++i) nb[i] = uint32_t(buf[i]) < 128 ? char(buf[i]) : '?'; }
	if (t[n]) x.fail("no terminator at the returned length");
	x.state(); x.trace();
	if (std::isnan(v)) { x.outcome(3); if (std::strcmp(t, "nan")) x.fail("nan printed as \"%s\"", t); return; }
	if (std::isinf(v)) { x.outcome(3); if (std::strcmp(t, v > 0 ? "inf" : "-inf")) x.fail("infinity printed as \"%s\"", t); return; }
	if (v == 0) { x.outcome(2); if (std::strcmp(t, "0")) x.fail("zero printed as \"%s\"", t); return; }
	if ((t[0] == '-') != (v < 0)) x.fail("sign of \"%s\"", t);
	if (!canonical(t, n)) x.fail("\"%s\" isn't of the documented format or notation", mc::escape(t).c_str());
	x.outcome(std::strchr(t, 'e') ? 1 : 0);
	if (x.want_sample()) x.sample(std::string(t, n));
}

static void one(mc::Ctx& x) { switch (x.c.kind) { case 0: judge<double, char>(x); break; case 1: judge<float, char>(x); break; case 2: judge<double, wchar_t>(x); break; case 3: judge<float, wchar_t>(x); break; case 4: judge<double, char16_t>(x); break; case 5: judge<float, char16_t>(x); break; case 6: judge<double, char32_t>(x); break; default: judge<float, char32_t>(x); } }

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C03"; k.one = one;
	k.outcome_names = { "decimal notation", "exponent notation", "zero", "special" };
	k.describe = [](const mc::Case& c) { char b[200]; const char* ct[] = { "char", "wchar_t", "char16_t", "char32_t" }; if (c.kind % 2 == 0) snprintf(b, sizeof b, "%s double 0x%016llx (%.17g)", ct[c.kind / 2], (unsigned long long)c.a, ref::from_bits<double>(c.a)); else snprintf(b, sizeof b, "%s float 0x%08x (%.9g)", ct[c.kind / 2], unsigned(c.a), double(ref::from_bits<float>(uint32_t(c.a)))); return std::string(b); };
	k.domains.push_back({ "double-structured", "every exponent field x every mantissa of the alphabet; all 4 character types and both signs for the small alphabet", 2048, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 15 : 11, deep ? 15 : 11, deep ? 18 : 14);
		static const auto mw = gen::mantissas(52, 5, 5, 6);
		x.c.kind = 0;
		for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; one(x); }
		for (uint64_t m : mw) for (int kd = 0; kd < 8; kd += 2) for (int neg = 0; neg < 2; ++neg) { x.c.kind = kd; x.c.a = uint64_t(s) << 52 | m | uint64_t(neg) << 63; one(x); }
	} });
	k.domains.push_back({ "digit-count-x-power", "the double nearest to d*10^q for a set of digit strings of every length 1..17, q in [-345,308], both signs: every (digit count, power) pair of the notation rule", 654, [deep](mc::Ctx& x, uint32_t s) {
		int q = int(s) - 345; x.c.kind = 0;
		static const auto ds = gen::digit_strings(3, 17, deep ? 400 : 60);
		for (auto& d : ds) {
			std::string t = d + "e" + std::to_string(q); double v = ref::magnitude<double>(t.data(), t.data() + t.size(), true);
			if (std::isinf(v)) continue;
			for (int neg = 0; neg < 2; ++neg) { x.c.a = ref::bits<double>(neg ? -v : v); one(x); }
		}
	} });
	k.domains.push_back({ "float-chartypes", "all exponent fields x mantissa alphabet, both signs, 4 character types", 256, [](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, 10, 10, 12);
		for (uint64_t m : ms) for (int neg = 0; neg < 2; ++neg) for (int kd = 1; kd < 8; kd += 2) { x.c.kind = kd; x.c.a = uint64_t(neg) << 31 | uint64_t(s) << 23 | m; one(x); }
	} });
	k.domains.push_back({ "float-exhaustive", "all non-negative float bit patterns", 2048, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = 1; uint32_t b = s << 20;
		for (uint32_t i = 0; i < 1u << 20; ++i) { x.c.a = b + i; one(x); }
	} });
	k.domains.push_back({ "float-negative", "all negative float bit patterns", 2048, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = 1; uint32_t b = s << 20 | 0x80000000u;
		for (uint32_t i = 0; i < 1u << 20; ++i) { x.c.a = b + i; one(x); }
	}, true });
	lit::printing(k.domains, one, 0, 1);
	return k.main(argc, argv);
}

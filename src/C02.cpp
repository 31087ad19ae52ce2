// The library's own parser recovers every printed value.
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include "lit.h"

template<typename F, typename C> static void judge(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const U u = U(x.c.a);
	const F v = ref::from_bits<F>(u);
	C buf[128];
	x.beat(); x.state();
	const std::size_t n = floaxie::ftoa(v, buf);
	x.step();
	if (n == 0 || n > 60) x.fail("returned length %zu", n);
	x.state();
	C* end = nullptr;
	const auto r = floaxie::atof<F>(static_cast<const C*>(buf), &end);
	x.step(); x.trace();
	if (const F number = r; ref::bits<F>(number) != ref::bits<F>(r.value)) x.fail("used as a number, the result isn't its value");
	if (end != buf + n) x.fail("%td of %zu printed characters consumed", end ? end - buf : -1, n);
	if (r.status != floaxie::conversion_status::success) x.fail("status %d of the printed text", int(r.status));
	if (std::isnan(v)) { x.outcome(2); if (!std::isnan(r.value)) x.fail("nan isn't recovered"); }
	else {
		const U want = v == 0 ? U(0) : u;   // both zeros are printed alike
		if (ref::bits<F>(r.value) != want) x.fail("recovered as %.17g", double(r.value));
		x.outcome(std::isinf(v) ? 1 : 0);
	}
	if (x.want_sample()) { std::string s; for (size_t i = 0; i < n; ++i) s += char(buf[i]); x.sample((sizeof(F) == 8 ? "double " : "float ") + std::to_string(u) + " -> " + s + " -> same bits"); }
}

static void one(mc::Ctx& x) { switch (x.c.kind) { case 0: judge<double, char>(x); break; case 1: judge<float, char>(x); break; case 2: judge<double, wchar_t>(x); break; default: judge<float, wchar_t>(x); } }

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C02"; k.one = one;
	k.outcome_names = { "finite", "infinite", "nan" };
	k.describe = [](const mc::Case& c) { char b[200]; if (c.kind % 2 == 0) snprintf(b, sizeof b, "%s double 0x%016llx (%.17g)", c.kind ? "wchar_t" : "char", (unsigned long long)c.a, ref::from_bits<double>(c.a)); else snprintf(b, sizeof b, "%s float 0x%08x (%.9g)", c.kind == 3 ? "wchar_t" : "char", unsigned(c.a), double(ref::from_bits<float>(uint32_t(c.a)))); return std::string(b); };
	k.domains.push_back({ "double-structured", "every exponent field (incl. infinity and NaN) x every mantissa of the alphabet, both signs for the weights <= 2 part", 2048, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 15 : 11, deep ? 15 : 11, deep ? 18 : 15);
		static const auto mw = gen::mantissas(52, 5, 5, 6);
		x.c.kind = 0;
		for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; one(x); }
		for (uint64_t m : mw) { x.c.kind = 0; x.c.a = uint64_t(s) << 52 | m | uint64_t(1) << 63; one(x); x.c.kind = 2; one(x); x.c.a &= ~(uint64_t(1) << 63); one(x); }
	} });
	k.domains.push_back({ "double-short-decimals", "the double nearest to d*10^q, d of up to 4 (thorough 5) digits, q in [-345,308]", 654, [deep](mc::Ctx& x, uint32_t s) {
		int q = int(s) - 345; x.c.kind = 0; char t[32];
		for (int d = 1; d < (deep ? 100000 : 10000); ++d) {
			if (d % 10 == 0) continue;
			int n = snprintf(t, sizeof t, "%de%d", d, q); double v = ref::magnitude<double>(t, t + n, true);
			if (std::isinf(v)) continue;
			x.c.a = ref::bits<double>(v); one(x);
		}
	} });
	k.domains.push_back({ "float-wchar", "all exponent fields x mantissa alphabet, both signs, wchar_t and char", 256, [](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, 10, 10, 12);
		for (uint64_t m : ms) for (int neg = 0; neg < 2; ++neg) for (int kd : { 1, 3 }) { x.c.kind = kd; x.c.a = uint64_t(neg) << 31 | uint64_t(s) << 23 | m; one(x); }
	} });
	k.domains.push_back({ "float-exhaustive", "all non-negative float bit patterns including infinity and every NaN", 2048, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = 1; uint32_t b = s << 20;
		for (uint32_t i = 0; i < 1u << 20; ++i) { x.c.a = b + i; one(x); }
	} });
	k.domains.push_back({ "float-negative", "all negative float bit patterns", 2048, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = 1; uint32_t b = s << 20 | 0x80000000u;
		for (uint32_t i = 0; i < 1u << 20; ++i) { x.c.a = b + i; one(x); }
	}, true });
	k.assumptions = { "IEEE-754 binary32/binary64", "C locale" };
	lit::printing(k.domains, one, 0, 1);
	return k.main(argc, argv);
}

// Compactness of the printed text.
#include <floaxie/ftoa.h>
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include "lit.h"

// significant digits of a decimal text
static int significant(const char* t)
{
	int n = 0, zeros = 0; bool lead = true;
	for (; *t; ++t) {
		if (*t == 'e') break;
		if (*t < '0' || *t > '9') continue;
		if (lead && *t == '0') continue;
		lead = false;
		if (*t == '0') ++zeros; else { n += zeros + 1; zeros = 0; }
	}
	return n;
}

template<typename F> static void judge(mc::Ctx& x, bool count)
{
	typedef typename ref::fmt<F>::U U;
	const F v = ref::from_bits<F>(U(x.c.a));
	char buf[128], sb[64];
	x.beat(); x.state();
	const std::size_t n = floaxie::ftoa(v, buf);
	x.step();
	if (n == 0 || n > 60) x.fail("returned length %zu", n);
	buf[n] = 0;
	const int d = significant(buf);
	if (d > std::numeric_limits<F>::max_digits10) x.fail("%d significant digits in \"%s\"", d, buf);
	x.state(); x.trace();
	if (!count) return;
	auto r = std::to_chars(sb, sb + sizeof sb, v, std::chars_format::scientific); *r.ptr = 0;
	const int s = significant(sb);
	if (d < s) x.fail("\"%s\" is shorter than any text which identifies the value", buf);
	x.outcome((sizeof(F) == 4 ? 0 : 2) + (d > s));
	if (x.want_sample()) x.sample(std::string(buf) + ": " + std::to_string(d) + " digits, shortest possible " + std::to_string(s));
}
static void one(mc::Ctx& x) { if (x.c.kind & 1) judge<float>(x, x.c.kind & 2); else judge<double>(x, x.c.kind & 2); }

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C05"; k.one = one;
	k.outcome_names = { "float shortest", "float longer", "double shortest", "double longer" };
	k.describe = [](const mc::Case& c) { char b[200]; if (!(c.kind & 1)) snprintf(b, sizeof b, "double 0x%016llx (%.17g)", (unsigned long long)c.a, ref::from_bits<double>(c.a)); else snprintf(b, sizeof b, "float 0x%08x (%.9g)", unsigned(c.a), double(ref::from_bits<float>(uint32_t(c.a)))); return std::string(b); };
	k.domains.push_back({ "double-lattice", "every exponent field x a lattice of 2^14 (thorough 2^18) mantissas; counted for the share", 2047, [deep](mc::Ctx& x, uint32_t s) {
		const int lb = deep ? 18 : 14; x.c.kind = 2;
		for (uint64_t t = 0; t < uint64_t(1) << lb; ++t) { x.c.a = uint64_t(s) << 52 | ((t * 0x9E3779B97F4A7C15ull) >> 12); one(x); }
	} });
	k.domains.push_back({ "double-structured", "every exponent field x every mantissa of the alphabet; digit bound only", 2047, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(52, deep ? 14 : 11, deep ? 14 : 11, 0);
		x.c.kind = 0;
		for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; one(x); }
	} });
	k.domains.push_back({ "float-exhaustive", "all positive finite floats", 255 * 8, [](mc::Ctx& x, uint32_t s) {
		x.c.kind = 3; uint32_t b = s << 20;
		for (uint32_t i = s == 0; i < 1u << 20; ++i) { x.c.a = b + i; one(x); }
	} });
	lit::printing(k.domains, one, 0, 1);
	k.finish = [](const uint64_t* o, bool complete) -> std::string {
		char b[200];
		if (!complete) return "";
		if (o[1] * 100 > o[0] + o[1]) { snprintf(b, sizeof b, "only %.3f%% of all positive floats are printed shortest", 100.0 * double(o[0]) / double(o[0] + o[1])); return b; }
		if (o[3] * 100 > o[2] + o[3]) { snprintf(b, sizeof b, "only %.3f%% of the doubles are printed shortest", 100.0 * double(o[2]) / double(o[2] + o[3])); return b; }
		return "";
	};
	k.assumptions = { "libstdc++ std::to_chars yields the shortest digits" };
	return k.main(argc, argv);
}

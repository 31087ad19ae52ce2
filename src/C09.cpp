// Different spellings of one number yield one value.
#include "parse.h"
#include "lit.h"

// a: base digits index, b: power, text: spelling; judged against the canonical
// spelling "<digits>e<power>" parsed by the same function
static std::vector<std::string> bases;

template<typename F, typename C> static void judge(mc::Ctx& x)
{
	// text = canonical '\n' spelling
	const char* nl = static_cast<const char*>(memchr(x.c.text, '\n', x.c.len));
	if (!nl) return;
	static C sa[mc::text_max], sb[mc::text_max];
	C *a = sa, *b = sb; std::basic_string<C> lb;
	const size_t na = size_t(nl - x.c.text); size_t nb = x.c.len - na - 1;
	for (size_t i = 0; i < na; ++i) a[i] = C(x.c.text[i]); a[na] = C(0);
	if (x.c.kind & mc::long_text) { const std::string t = mc::expand(x.c).substr(na + 1); lb.assign(t.begin(), t.end()); b = &lb[0]; nb = t.size(); }
	else { for (size_t i = 0; i < nb; ++i) b[i] = C(nl[1 + i]); b[nb] = C(0); }
	x.beat(); x.state(2);
	C *ea = nullptr, *eb = nullptr;
	const auto ra = floaxie::atof<F>(static_cast<const C*>(a), &ea); const auto rb = floaxie::atof<F>(static_cast<const C*>(b), &eb);
	x.step(2); x.trace();
	if (const F number = ra; ref::bits<F>(number) != ref::bits<F>(ra.value)) x.fail("used as a number, the result is %s, its value is %s", num<F>(number).c_str(), num<F>(ra.value).c_str());
	if (ref::bits<F>(ra.value) != ref::bits<F>(rb.value)) x.fail("values differ: %s and %s", num<F>(ra.value).c_str(), num<F>(rb.value).c_str());
	if (ra.status != rb.status) x.fail("statuses differ: %d and %d", int(ra.status), int(rb.status));
	if (ea != a + na || eb != b + nb) x.fail("consumed %td of %zu and %td of %zu characters", ea - a, na, eb - b, nb);
	x.outcome(int(ra.status));
	if (x.want_sample()) x.sample(mc::escape(std::string(x.c.text, x.c.len)).substr(0, 200) + " -> " + num<F>(ra.value));
}
static void one(mc::Ctx& x) { switch (x.c.kind & 3) { case 0: judge<double, char>(x); break; case 1: judge<float, char>(x); break; case 2: judge<double, wchar_t>(x); break; default: judge<float, wchar_t>(x); } }

static void respell(mc::Ctx& x, const std::string& d, int q, bool rich)
{
	const std::string can = d + "e" + std::to_string(q) + "\n";
	auto emit = [&](const std::string& m, int e, int style) {
		// exponent styles
		std::string t = m;
		if (style == 0) { if (e) t += "e" + std::to_string(e); }
		else {
			static const char* st[] = { "", "e", "E", "e+", "E0", "e00", "e+000", "E+0000000000000000000000" };
			const char* p = st[style]; t += *p; if (e < 0) t += '-'; else if (std::strchr(p, '+')) t += '+';
			const char* zeros = std::strchr(p, '0'); if (zeros) t += zeros;
			t += std::to_string(std::abs(e));
		}
		if (can.size() + t.size() >= mc::text_max - 8) return;
		x.c.set(can + t); one(x);
		x.c.set(can + "+" + t); if (rich) one(x);
	};
	const int zs[] = { 0, 1, 2, 3, 5, 19, 20, 40, 320, 1000 };
	const int nz = rich ? 10 : 5;
	// decimal point everywhere, from inside of the digits
	for (size_t at = 0; at <= d.size(); ++at)
		for (int st = 0; st < (rich ? 8 : 3); ++st) emit(d.substr(0, at) + "." + d.substr(at), q + int(d.size() - at), st);
	for (int i = 0; i < nz; ++i) {
		const std::string z(size_t(zs[i]), '0');
		emit(z + d, q, i % 8);                                              // leading zeros
		emit(z + "." + d, q + int(d.size()), (i + 1) % 8);
		emit(d + z, q - zs[i], (i + 2) % 8);                                // trailing zeros
		emit(d + "." + z, q, (i + 3) % 8);                                  // trailing fraction zeros
		emit("0." + z + d, q + int(d.size()) + zs[i], (i + 4) % 8);          // zeros after the point
		for (size_t at = 1; at < d.size(); at += rich ? 1 : 3) for (int j = 0; j < nz; j += 2) emit(z + d.substr(0, at) + "." + d.substr(at) + std::string(size_t(zs[j]), '0'), q + int(d.size() - at), (i + j) % 8);
	}
	// without any exponent
	const long dot = long(d.size()) + q;
	if (q >= 0 && dot < 2000) emit(d + std::string(size_t(q), '0'), 0, 0);
	else if (dot > 0 && q < 0) emit(d.substr(0, size_t(dot)) + "." + d.substr(size_t(dot)), 0, 0);
	else if (q < 0 && long(d.size()) - dot < 2000) { emit("0." + std::string(size_t(-dot), '0') + d, 0, 0); emit("." + std::string(size_t(-dot), '0') + d, 0, 0); emit("000." + std::string(size_t(-dot), '0') + d + "00", 0, 0); }
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C09"; k.one = one; k.outcome_names = { "success", "underflow", "overflow" };
	k.describe = [](const mc::Case& c) { std::string t(c.text, c.len); size_t nl = t.find('\n'); if (nl == std::string::npos) return t; return std::string(c.kind & 1 ? "float" : "double") + (c.kind & 2 ? " wchar_t" : "") + " \"" + t.substr(0, nl) + "\" and \"" + t.substr(nl + 1).substr(0, 600) + "\""; };
	k.domains.push_back({ "respellings", "digit strings of every length 1..24 (constant, nines, sparse, lattice) x every power over the whole range x decimal point at every position x leading/trailing zero runs x exponent spellings (case, sign, padding), float and double", 115, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 24, deep ? 12 : 6);
		for (int top = int(s) * 7 - 400; top < int(s) * 7 - 393; ++top)
			for (size_t i = 0; i < ds.size(); i += deep ? 1 : 2) {
				const std::string& d = ds[(i + s) % ds.size()];
				x.c.kind = 0; respell(x, d, top - int(d.size()), i % 24 == 0);
				if (top > -60 && top < 50) { x.c.kind = 1; respell(x, d, top - int(d.size()), i % 8 == 0); }
				if (i % 12 == 0) { x.c.kind = 2 + (top > -60 && top < 50 && i % 24 == 0); respell(x, d, top - int(d.size()), false); }
			}
	} });
	k.domains.push_back({ "near-range-of-float", "the same for every power in float's range", 110, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 18, deep ? 8 : 2);
		for (size_t i = 0; i < ds.size(); i += deep ? 1 : 2) { const std::string& d = ds[(i + s) % ds.size()]; x.c.kind = 1; respell(x, d, int(s) - 60 - int(d.size()), i % 3 == 0); }
	} });
	k.domains.push_back({ "near-limits-of-double", "the same for every power next to the overflow and underflow limits", 60, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ds = gen::digit_strings(1, 18, deep ? 8 : 2);
		for (size_t i = 0; i < ds.size(); i += deep ? 1 : 2) { const std::string& d = ds[(i + s) % ds.size()]; const int top = s < 30 ? 295 + int(s) : -335 + int(s) - 30; x.c.kind = 0; respell(x, d, top - int(d.size()), i % 3 == 0); }
	} });
	k.domains.push_back({ "very-long-padding", "exponents padded with n zeros, n around 2048, 2^15, 2^16, 2^17, 2^20 (thorough up to 2^24), 12 mantissas x 13 exponents x 3 spellings", 12, [deep](mc::Ctx& x, uint32_t s) {
		static const char* ms[] = { "1", "0", "-2.5", "123456789", "9007199254740993", "16777217", "1234567890123456789012345", "+7", ".5", "-0.0", "1.7976931348623158", "4.9406564584124654" };
		for (uint64_t n : mc::long_lengths(deep)) for (const char* e : { "0", "1", "-1", "5", "22", "-23", "38", "-45", "308", "309", "-324", "400", "-999" }) {
			const std::string m(ms[s]), d(*e == '-' ? e + 1 : e), sg(*e == '-' ? "-" : "");
			for (int up = 0; up < 3; ++up) { if (n > 40000 && up) continue; const std::string t = m + "e" + e + "\n" + m + (up ? "E" : "e") + (up == 2 && sg.empty() ? "+" : sg) + "\1" "0" + d; x.c.a = n; for (uint32_t kd = 0; kd < 4; ++kd) { x.c.set(t); x.c.kind = kd | mc::long_text; one(x); } }
		}
	} });
	k.domains.push_back({ "numbers-of-the-source", "runs of zeros as long as every number named in the headers and its neighbours: in front, behind, after the point, in the exponent, compensated by the power; points at such places", 64, [](mc::Ctx& x, uint32_t s) {
		const auto& ns = lit::numbers();
		for (size_t i = s; i < ns.size(); i += 64) for (const char* m : { "1", "37", "123456789", "9007199254740993", "12345678901234567", "12345678901234567891", "987654321987654321987654321" }) {
			const std::string d(m); const int l = int(d.size());
			for (int q : { 0, 1, -1, 5, -7, 22, -23, -40, 290, -310 }) for (uint32_t kd = 0; kd < 2; ++kd) {
				x.c.kind = kd; const std::string can = d + "e" + std::to_string(q) + "\n";
				auto put = [&](const std::string& t) { if (can.size() + t.size() >= mc::text_max - 8) return; x.c.set(can + t); one(x); };
				if (ns[i] <= 2040) {
					const int n = int(ns[i]); const std::string z(size_t(n), '0'); auto e = [](int v) { return "e" + std::to_string(v); };
					if (n + l <= 2040) { put(z + d + e(q)); put(d + z + e(q - n)); put("0." + z + d + e(q + l + n)); put(d + "." + z + e(q)); put(z + "." + d + e(q + l)); put(d.substr(0, 1) + "." + d.substr(1) + z + e(q + l - 1)); put("." + z + d + e(q + l + n)); }
					put(d + "e" + (q < 0 ? "-" : "") + z + std::to_string(std::abs(q))); put(d + "E" + (q < 0 ? "-" : "+") + z + std::to_string(std::abs(q)));
				}
				// the number itself followed by zeros
				const std::string v = std::to_string((unsigned long long)ns[i]); x.c.set(v + "e" + std::to_string(q) + "\n" + v + "0e" + std::to_string(q - 1)); one(x); x.c.set(v + "e" + std::to_string(q) + "\n" + v.substr(0, 1) + "." + v.substr(1) + "e" + std::to_string(q + int(v.size()) - 1)); one(x);
			}
		}
	} });
	k.assumptions = { "mantissa of at most 2048 characters" };
	return k.main(argc, argv);
}

// Digit strings longer than any integer register.
#include "parse.h"
#include "lit.h"
#include "carry.h"

static void one(mc::Ctx& x) { one_parse(x, J_VALUE | J_USED | J_STATUS | (x.c.kind & 4 ? J_EXACT : 0)); }

// D * 10^e10 written without an exponent part, if its mantissa fits `maxlen`
static bool plain(const std::string& d, long e10, size_t maxlen, std::string& t)
{
	long dot = long(d.size()) + e10;
	if (e10 >= 0) { if (size_t(dot) > maxlen) return false; t = d + std::string(size_t(e10), '0'); }
	else if (dot > 0) t = d.substr(0, size_t(dot)) + "." + d.substr(size_t(dot));
	else { if (2 - dot + long(d.size()) > long(maxlen)) return false; t = "0." + std::string(size_t(-dot), '0') + d; }
	return t.size() <= maxlen;
}

template<typename F> static void ties(mc::Ctx& x, typename ref::fmt<F>::U u, bool heavy)
{
	std::string d, t; long e10; uint64_t mm; long me;
	exact::midpoint<F>(u, mm, me); exact::exact_decimal(mm, me, d, e10);
	const uint32_t kd = sizeof(F) == 4;
	auto go = [&](const std::string& dd, long ee, bool ex) {
		if (dd.size() > 2040) return;
		x.c.kind = kd | (ex ? 4 : 0); put(x.c, dd, int(ee)); one(x);
		if (plain(dd, ee, 2048, t)) { x.c.set(t); x.c.kind = kd; one(x); }
		// dot inside of the digits
		if (dd.size() > 20) { size_t at = 19; std::string w = dd.substr(0, at) + "." + dd.substr(at); x.c.kind = kd; put(x.c, w, int(ee + long(dd.size() - at))); one(x); }
	};
	std::string low = d; for (size_t i = low.size(); i--;) { if (low[i] == '0') low[i] = '9'; else { --low[i]; break; } }
	go(d, e10, true);
	for (size_t len : { size_t(30), size_t(100), size_t(700), size_t(1200), size_t(2040) }) {
		if (!heavy && len > 100) break;
		if (len <= d.size() + 1) continue;
		size_t z = len - d.size() - 1;
		go(d + std::string(z, '0') + "1", e10 - long(z) - 1, heavy && len < 800);
		go(low + std::string(z + 1, '9'), e10 - long(z) - 1, heavy && len < 800);
	}
	for (size_t n = 17; n < std::min<size_t>(d.size(), heavy ? 60 : 28); ++n) { go(d.substr(0, n), e10 + long(d.size() - n), false); go(bump(d.substr(0, n)), e10 + long(d.size() - n), false); }
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C08"; k.one = one; k.describe = describe_parse; k.outcome_names = parse_outcomes();
	k.domains.push_back({ "ties-double", "for every exponent field x mantissas {0, 1, max, alternating, lattice}: the exact midpoint to the next double (up to 770 digits), truncated at every length 17.., with a sticky digit after zeros up to 2040 digits, and just below with nines; exponent, plain and mid-dot spellings", 2047, [deep](mc::Ctx& x, uint32_t s) {
		static const uint64_t mask = (uint64_t(1) << 52) - 1;
		std::vector<uint64_t> ms{ 0, 1, mask, mask - 1, 0x5555555555555, 0x8000000000000, (s * 0x9E3779B97F4A7C15ull) >> 12 };
		for (int j = 0; j < (deep ? 150 : 40); ++j) ms.push_back(((s * 64 + j) * 0xD1B54A32D192ED03ull) >> 12);
		size_t i = 0; for (uint64_t m : ms) ties<double>(x, uint64_t(s) << 52 | m, (s % 8) == (i++ % 8));
	} });
	k.domains.push_back({ "ties-float", "the same for every float exponent field x mantissa alphabet", 255, [deep](mc::Ctx& x, uint32_t s) {
		static const auto ms = gen::mantissas(23, 3, 3, deep ? 9 : 5);
		size_t i = 0; for (uint64_t m : ms) if (s < 255) ties<float>(x, uint32_t(s << 23 | m), (i++ % 16) == 0);
	} });
	k.domains.push_back({ "zero-runs", "prefix of 1..21 digits, run of 0..24, 100, 1000 or 2000 zeros, a digit, another run, a last digit; decimal point at every position up to 24 and at the end; powers {0, -5, 300, -320}", 21 * 28, [deep](mc::Ctx& x, uint32_t s) {
		static const int runs[] = { 0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,100,1000,2000 };
		const int n = 1 + int(s / 28), z = runs[s % 28];
		for (const char* pre : { "123456789123456789123", "999999999999999999999", "100000000000000000001", "179769313486231570815" })
		for (char mid : { '1', '5', '9' }) for (int z2 : { 0, 1, 4, 19 }) for (char last : { '0', '1', '9' }) {
			if (z >= 100 && !deep && (z2 % 4 || *pre != '1' || mid == '9')) continue;
			std::string d = std::string(pre, size_t(n)) + std::string(size_t(z), '0') + mid + std::string(size_t(z2), '0') + last;
			for (size_t dot = 0; dot <= std::min<size_t>(d.size(), 24) + 1; dot += z >= 100 && !deep ? 6 : deep ? 1 : 2) {
				const bool none = dot > std::min<size_t>(d.size(), 24); std::string w = none ? d : d.substr(0, dot) + "." + d.substr(dot);
				for (int q : { 0, -5, 300, -320 }) if (z < 100 || deep || q <= 0) for (int fl = 0; fl < 2; ++fl) { if (fl && (q > 30 || q < -60)) q /= 8; x.c.kind = fl; if (q) put(x.c, w, q); else x.c.set(w); one(x); }
			}
		}
	} });
	k.domains.push_back({ "tails", "prefixes of 14..20 digits followed by every tail of 8 (thorough 9) digits over {0,4,5,9}; integer, fraction and exponent spellings", 7 * 4, [deep](mc::Ctx& x, uint32_t s) {
		const int tl = deep ? 9 : 8; const int n = 14 + int(s / 4);
		static const char* pres[] = { "18446744073709551615", "90071992547409920000", "12345678901234567890", "99999999999999999999" };
		std::string p = std::string(pres[s % 4], size_t(n));
		for (uint32_t v = 0; v < 1u << (2 * tl); ++v) {
			std::string d = p; for (int i = 0; i < tl; ++i) d += "0459"[v >> (2 * i) & 3];
			for (int fl = 0; fl < 2; ++fl) { x.c.kind = fl; x.c.set(d); one(x); x.c.set("0." + d); one(x); x.c.set("0.00" + d); one(x); x.c.set(d.substr(0, 3) + "." + d.substr(3)); one(x); x.c.set(d.substr(0, size_t(n)) + "." + d.substr(size_t(n))); one(x); put(x.c, d, fl ? -40 : -310); one(x); }
		}
	} });
	k.domains.push_back({ "leading-zeros", "0..2020 leading zeros (steps of 7) before and after the decimal point, followed by one of the tie or short digit strings, compensated and plain", 290, [](mc::Ctx& x, uint32_t s) {
		const int z = int(s) * 7;
		for (const char* d : { "1", "9", "123456789", "9007199254740993", "17976931348623157", "16777217", "340282356779733661637539395458" }) {
			const std::string D(d);
			if (z + int(D.size()) > 2040) continue;
			for (int fl = 0; fl < 2; ++fl) for (int wd = 0; wd < 4; wd += 2) {
				x.c.kind = fl | wd;
				x.c.set(std::string(size_t(z), '0') + D); one(x);
				x.c.set("0." + std::string(size_t(z), '0') + D); one(x);
				put(x.c, "0." + std::string(size_t(z), '0') + D, z + int(D.size())); one(x);
				x.c.set(D + std::string(size_t(z), '0')); one(x);
				put(x.c, D + std::string(size_t(z), '0'), -z); one(x);
				x.c.set(D + "." + std::string(size_t(z), '0')); one(x);
				put(x.c, D + "." + std::string(size_t(z), '0') + "1", 0); one(x);
			}
		}
	} });
	k.domains.push_back(lit::parsing(one, { 0, 1 }));
	k.domains.push_back(lit::powers(one, { 0, 1 }));
	k.domains.push_back(carry::parsing(one, { 0, 2 }, false, deep));
	k.domains.push_back(carry::parsing(one, { 1, 3 }, true, deep));
	k.assumptions = { "mantissa of at most 2048 characters, the documented limit" };
	return k.main(argc, argv);
}

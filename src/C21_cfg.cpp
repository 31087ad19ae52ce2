// Executed in every build configuration: prints a digest of each shard of the
// inputs, or (with a shard number) every input of it with its result.
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "gen.h"

static bool dump; static uint64_t digest, cases;
static void mix(const void* p, size_t n) { const unsigned char* b = static_cast<const unsigned char*>(p); for (size_t i = 0; i < n; ++i) digest = (digest ^ b[i]) * 0x100000001b3ull; digest ^= digest >> 29; }
template<typename F> uint64_t fb(F v) { if (v != v) return ~uint64_t(0); uint64_t u = 0; std::memcpy(&u, &v, sizeof v); return u; }

template<typename F, typename C> void print(uint64_t u)
{
	F v; std::memcpy(&v, &u, sizeof v);
	C b[64]; std::memset(b, 0x55, sizeof b);
	const size_t n = floaxie::ftoa(v, b);
	char t[66]; size_t k = 0; for (; k < n && k < 63; ++k) t[k] = b[k] > C(0) && b[k] < C(127) ? char(b[k]) : '?';
	t[k] = b[n] == C(0) ? '\0' : '!'; t[k + 1] = 0;
	mix(t, k + 1); mix(&n, sizeof n); ++cases;
	if (dump) printf("print %zu/%zu 0x%llx -> \"%s\" length %zu\n", sizeof(F), sizeof(C), (unsigned long long)u, t, n);
}
template<typename F, typename C> void parse(const std::string& s)
{
	static C b[5000]; for (size_t i = 0; i <= s.size(); ++i) b[i] = C((unsigned char)s.c_str()[i]);
	const C* p = b; C* e = nullptr;
	const auto r = floaxie::atof<F>(p, &e);
	uint64_t x[3] = { fb<F>(r.value), uint64_t(r.status), uint64_t(e - b) };
	mix(x, sizeof x); ++cases;
	if (dump) { std::string t; for (unsigned char c : s) { char h[8]; if (c > 32 && c < 127) t += char(c); else { snprintf(h, sizeof h, "\\x%02x", c); t += h; } } printf("parse %zu/%zu \"%s\" -> 0x%llx status %d consumed %td\n", sizeof(F), sizeof(C), t.size() > 300 ? (t.substr(0, 300) + "...").c_str() : t.c_str(), (unsigned long long)x[0], int(r.status), e - b); }
}
static void all(const std::string& s) { parse<double, char>(s); parse<float, char>(s); parse<double, wchar_t>(s); parse<float, wchar_t>(s); }

int main(int argc, char** argv)
{
	const bool deep = argc > 1 && !std::strcmp(argv[1], "deep");
	const int from = argc > 2 ? atoi(argv[2]) : 0, to = argc > 3 ? atoi(argv[3]) : 48;
	dump = argc > 4;
	const auto md = deep ? gen::mantissas(52, 5, 5, 7) : gen::mantissas(52, 2, 2, 3), mf = deep ? gen::mantissas(23, 5, 5, 8) : gen::mantissas(23, 3, 3, 4);
	const auto ds = gen::digit_strings(deep ? 3 : 2, 30, deep ? 8 : 2);
	for (int s = from; s < to; ++s) {
		digest = 0xcbf29ce484222325ull;
		if (s < 16) {       // doubles
			size_t k = 0;
			for (uint64_t e = uint64_t(s); e < 2048; e += 16) for (size_t i = size_t(deep ? 0 : e / 16 % 24); i < md.size(); i += deep ? 1 : 24, ++k) { const uint64_t u = e << 52 | md[i]; print<double, char>(u); switch (k & 3) { case 0: print<double, wchar_t>(u); break; case 1: print<double, char16_t>(u | uint64_t(1) << 63); break; case 2: print<double, char32_t>(u); break; default: print<double, char>(u | uint64_t(1) << 63); } }
		} else if (s < 20) { // floats
			size_t k = 0;
			for (uint32_t e = uint32_t(s - 16); e < 256; e += 4) for (size_t i = 0; i < mf.size(); i += deep ? 1 : 4, ++k) { const uint32_t u = e << 23 | uint32_t(mf[i]); print<float, char>(u); switch (k & 3) { case 0: print<float, wchar_t>(u); break; case 1: print<float, char16_t>(u | 0x80000000u); break; case 2: print<float, char32_t>(u); break; default: print<float, char>(u | 0x80000000u); } }
		} else if (s < 36) { // digits x powers
			for (size_t i = size_t(s - 20); i < ds.size(); i += 16) for (int q = -345 + int(deep ? 0 : i % 7); q < 312; q += deep ? 3 : 7) { const std::string e = "e" + std::to_string(q); parse<double, char>(ds[i] + e); if (q > -70 && q < 45) { parse<float, char>("-" + ds[i] + e); const size_t p = i % (ds[i].size() + 1); parse<float, wchar_t>(ds[i].substr(0, p) + "." + ds[i].substr(p) + e); parse<double, wchar_t>(ds[i].substr(0, p) + "." + ds[i].substr(p) + e); } }
		} else if (s < 44) { // all short strings
			const char a[] = "019.+-eEniNfaI(x"; const size_t na = sizeof a - 1; size_t total = 1; const int L = deep ? 5 : 4; for (int l = 1; l <= L; ++l) { total *= na; for (size_t v = size_t(s - 36); v < total; v += 8) { std::string t; size_t x = v; for (int i = 0; i < l; ++i) { t += a[x % na]; x /= na; } parse<double, char>(t); parse<float, wchar_t>(t); } }
		} else if (s < 46) { // every code unit of plain char
			for (int c = 0; c < 256; ++c) for (const char* t : { "", "1", "1.", "1.5", "1e", "1e5", "nan(", "nan(1", "in", "-", "0", "123456789012345678901234" }) for (const char* u : { "", "1", ")" }) { if (s == 44 ? c < 128 : c >= 128) continue; parse<double, char>(std::string(t) + char(c) + u); parse<float, char>(std::string(t) + char(c) + u); }
		} else {            // long texts, truncated digits next to midpoints
			for (int n = s - 46 + 1; n < 1500; n += deep ? 2 : 26) for (char d = '1'; d <= '9'; d = char(d + 4)) { all(std::string(size_t(n), d)); all("0." + std::string(size_t(n), '0') + d); all(std::string(1, d) + std::string(size_t(n), '0') + "1e-" + std::to_string(n)); all("9007199254740993." + std::string(size_t(n), '0') + d); all("16777217." + std::string(size_t(n), '0') + d); }
		}
		if (!dump) printf("%d %016llx\n", s, (unsigned long long)digest);
	}
	if (!dump) printf("cases %llu\n", (unsigned long long)cases);
}

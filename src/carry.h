// Texts whose leading digits, as many as an integer register holds, are next to a power of two, so that rounding them
// up by what follows may carry out of the register; and all tails of four digits after digits of every bit length.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include "mc.h"

namespace carry {
inline mc::Domain parsing(void (*one)(mc::Ctx&), std::vector<uint32_t> kinds, bool is_float, bool deep)
{
	return { is_float ? "carries-of-9-digits" : "carries-of-19-digits", std::string("leading ") + (is_float ? "9 or 19" : "19 or 9") + " digits within 3 of every power of two (and of a half, three halves and five fourths of it) x 26 tails x every power; all tails of 4 digits x 9 powers; points at 6 places", 655, [=](mc::Ctx& x, uint32_t s) {
		static const char* tails[] = { "", "0", "1", "4", "5", "6", "9", "49", "50", "51", "99", "499", "4999", "49999", "5000", "50001", "5001", "9921", "9922", "9999", "99999", "9999999999", "0001", "00001", "0078", "0079" };
		auto put = [&](const std::string& d, size_t lead, int q, int form) {
			std::string t = d; int e = q;
			if (form == 1) { t = d.substr(0, 1) + "." + d.substr(1); e += int(d.size()) - 1; }
			else if (form == 2) { t = "0." + d; e += int(d.size()); }
			else if (form == 3) { t = d.substr(0, lead) + "." + d.substr(lead); e += int(d.size() - lead); }
			else if (form == 4 && d.size() > lead) { t = d.substr(0, lead + 1) + "." + d.substr(lead + 1); e += int(d.size() - lead) - 1; }
			else if (form == 5) { t = d.substr(0, lead - 1) + "." + d.substr(lead - 1); e += int(d.size() - lead) + 1; }
			if (e) t += "e" + std::to_string(e);
			for (uint32_t k : kinds) { x.c.set(t); x.c.kind = k; one(x); }
		};
		for (int reg = 0; reg < 2; ++reg) {
			const uint64_t least = reg ? 100000000u : 1000000000000000000u, most = reg ? 999999999u : 9999999999999999999u; const size_t lead = reg ? 9 : 19;
			std::vector<uint64_t> ps;
			for (int k = reg ? 24 : 57; k < (reg ? 31 : 64); ++k) for (int m : { 4, 6, 5 }) { const unsigned __int128 p = (unsigned __int128)(m) << (k - 2); for (int d = -3; d <= 3; ++d) { const unsigned __int128 v = p + unsigned(d + 8) - 8; if (v >= least && v <= most) ps.push_back(uint64_t(v)); } }
			for (int d = 0; d < 4; ++d) { ps.push_back(least + unsigned(d)); ps.push_back(most - unsigned(d)); }
			const bool own = (reg != 0) == is_float;
			if (own || deep || s % 8 == 0) {
				const int q = int(s) - 365; if (is_float && (q < -75 || q > 45) && s % 8) continue;
				size_t i = 0; for (uint64_t p : ps) for (const char* t : tails) put(std::to_string((unsigned long long)p) + t, lead, q, deep ? int(i++ % 6) : int(i++ % 5 + s) % 6);
			}
			// all tails of four digits
			if (own) for (int v = int(s); v < 10000; v += 655) { char t[8]; snprintf(t, sizeof t, "%04d", v); size_t i = 0; for (uint64_t p : ps) { static const int qs[] = { -9, 0, 1, -27, 10, -50, 30, -2, -20 }; for (int j = 0; j < (deep ? 9 : 3); ++j) put(std::to_string((unsigned long long)p) + t, lead, qs[deep ? j : int((i + size_t(j) * 3) % 9)], int((i + size_t(j)) % 6)); ++i; } }
		}
	} };
}
} // namespace carry

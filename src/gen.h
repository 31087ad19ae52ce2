// Alphabets of mantissas and digit strings used by the enumerations.  All are
// finite sets given by a formula.
#pragma once
#include <algorithm>
#include <cstdint>
#include <string>
#include <vector>

namespace gen {

typedef unsigned __int128 u128;

// mantissa field patterns of `w` bits: weights <= 2 and their complements, runs
// of ones, `tb` arbitrary top bits / `bb` arbitrary bottom bits with constant
// rest, and a 2^lb points lattice over the whole field
inline std::vector<uint64_t> mantissas(int w, int tb, int bb, int lb)
{
	const uint64_t mask = (uint64_t(1) << w) - 1;
	std::vector<uint64_t> r{0, mask};
	for (int i = 0; i < w; ++i) {
		uint64_t x = uint64_t(1) << i; r.push_back(x); r.push_back(~x & mask);
		for (int j = 0; j < i; ++j) { uint64_t y = x | uint64_t(1) << j; r.push_back(y); r.push_back(~y & mask); r.push_back(x - (uint64_t(1) << j)); r.push_back(~(x - (uint64_t(1) << j)) & mask); }
	}
	for (uint64_t t = 0; t < (uint64_t(1) << std::min(tb, w)); ++t) {
		uint64_t x = t << (w - std::min(tb, w)), rest = (uint64_t(1) << (w - std::min(tb, w))) - 1;
		r.push_back(x); r.push_back(x | rest); r.push_back((x | (rest ^ rest >> 1)) & mask); r.push_back(x | (rest & 0x5555555555555555ull));
	}
	for (uint64_t t = 0; t < (uint64_t(1) << std::min(bb, w)); ++t) {
		uint64_t hi = mask & ~((uint64_t(1) << std::min(bb, w)) - 1);
		r.push_back(t); r.push_back(t | hi); r.push_back((t | (hi & 0x5555555555555555ull)) & mask);
	}
	for (uint64_t t = 0; lb && t < (uint64_t(1) << lb); ++t) r.push_back((t * 0x9E3779B97F4A7C15ull) >> (64 - w));
	std::sort(r.begin(), r.end());
	r.erase(std::unique(r.begin(), r.end()), r.end());
	return r;
}

// digit strings: all short ones, repeated nines, one followed by zeros and one,
// lattice points of every length
inline std::vector<std::string> digit_strings(int all_upto, int maxlen, int lattice)
{
	std::vector<std::string> r;
	uint64_t lim = 1; for (int i = 0; i < all_upto; ++i) lim *= 10;
	for (uint64_t v = 1; v < lim; ++v) if (v % 10) r.push_back(std::to_string(v));
	for (int n = all_upto + 1; n <= maxlen; ++n) {
		for (char d = '1'; d <= '9'; ++d) r.push_back(std::string(size_t(n), d));
		for (char d = '1'; d <= '9'; ++d) r.push_back(std::string(1, d) + std::string(size_t(n - 2), '0') + "1");
		for (char d = '1'; d <= '9'; ++d) r.push_back(std::string(1, d) + std::string(size_t(n - 1), '9'));
		for (char d = '0'; d < '9'; ++d) r.push_back(std::string(size_t(n - 1), '9') + std::string(1, char(d + (d == '0'))));
		for (int j = 1; j <= lattice; ++j) {
			std::string s; uint64_t x = uint64_t(j) * 0x9E3779B97F4A7C15ull + uint64_t(n) * 0xD1B54A32D192ED03ull;
			for (int i = 0; i < n; ++i) { u128 p = u128(x) * 10; int d = int(p >> 64); x = uint64_t(p) + 0x632BE59BD9B4E019ull * uint64_t(i == 9 || i == 18 || i == 27); if (i == 0 && !d) d = 1 + j % 9; if (i == n - 1 && !d) d = 1 + j % 9; s += char('0' + d); }
			r.push_back(s);
		}
	}
	return r;
}

} // namespace gen

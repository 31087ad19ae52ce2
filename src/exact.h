// Exact big-integer reference for correct rounding.  Independent of the library
// under test and of the C/C++ runtime conversions.  Slow and boring on purpose.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

namespace exact {

struct Big {
	std::vector<uint32_t> w; // little endian
	void trim() { while (!w.empty() && !w.back()) w.pop_back(); }
	void mul(uint32_t m) { uint64_t c = 0; for (auto& x : w) { c += uint64_t(x) * m; x = uint32_t(c); c >>= 32; } if (c) w.push_back(uint32_t(c)); }
	void add(uint32_t a) { uint64_t c = a; for (auto& x : w) { c += x; x = uint32_t(c); c >>= 32; if (!c) break; } if (c) w.push_back(uint32_t(c)); }
	void shl(unsigned n) {
		unsigned q = n / 32, r = n % 32;
		if (w.empty()) return;
		if (r) { uint32_t c = 0; for (auto& x : w) { uint32_t y = x; x = (y << r) | c; c = uint32_t(uint64_t(y) >> (32 - r)); } if (c) w.push_back(c); }
		if (q) w.insert(w.begin(), q, 0);
	}
	static Big of(uint64_t v) { Big b; b.w = { uint32_t(v), uint32_t(v >> 32) }; b.trim(); return b; }
	static int cmp(const Big& a, const Big& b) {
		if (a.w.size() != b.w.size()) return a.w.size() < b.w.size() ? -1 : 1;
		for (size_t i = a.w.size(); i--;) if (a.w[i] != b.w[i]) return a.w[i] < b.w[i] ? -1 : 1;
		return 0;
	}
	// divides by small, returns remainder
	uint32_t divmod(uint32_t d) { uint64_t r = 0; for (size_t i = w.size(); i--;) { r = (r << 32) | w[i]; w[i] = uint32_t(r / d); r %= d; } trim(); return uint32_t(r); }
	std::string dec() const { Big b = *this; std::string s; if (b.w.empty()) return "0"; while (!b.w.empty()) { uint32_t r = b.divmod(1000000000u); for (int i = 0; i < 9; ++i) { s.push_back(char('0' + r % 10)); r /= 10; } } while (s.size() > 1 && s.back() == '0') s.pop_back(); return std::string(s.rbegin(), s.rend()); }
};

// compares digits*10^e10 with m*2^e2
inline int cmp_dec_bin(const std::string& digits, long e10, uint64_t m, long e2)
{
	Big a, b = Big::of(m);
	for (char c : digits) { a.mul(10); a.add(uint32_t(c - '0')); }
	a.trim();
	if (e10 >= 0) for (long i = 0; i < e10; ++i) a.mul(10); else for (long i = 0; i < -e10; ++i) b.mul(10);
	if (e2 >= 0) b.shl(unsigned(e2)); else a.shl(unsigned(-e2));
	return Big::cmp(a, b);
}

template<typename F> struct fmt;
template<> struct fmt<float> { typedef uint32_t U; static constexpr int mb = 23, bias = 127 + 23, emax = 255; };
template<> struct fmt<double> { typedef uint64_t U; static constexpr int mb = 52, bias = 1023 + 52, emax = 2047; };

template<typename F> typename fmt<F>::U bits(F f) { typename fmt<F>::U u; std::memcpy(&u, &f, sizeof u); return u; }
template<typename F> F from_bits(typename fmt<F>::U u) { F f; std::memcpy(&f, &u, sizeof f); return f; }

// value of non-negative bit pattern u as m*2^e (the pattern of infinity yields 2^(emax))
template<typename F> void split(typename fmt<F>::U u, uint64_t& m, long& e)
{
	typedef fmt<F> T;
	uint64_t ex = uint64_t(u) >> T::mb;
	m = uint64_t(u) & ((uint64_t(1) << T::mb) - 1);
	if (ex) m |= uint64_t(1) << T::mb; else ex = 1;
	e = long(ex) - T::bias;
}

// midpoint between patterns u and u+1
template<typename F> void midpoint(typename fmt<F>::U u, uint64_t& m, long& e)
{
	uint64_t m1, m2; long e1, e2;
	split<F>(u, m1, e1); split<F>(u + 1, m2, e2);
	if (e2 > e1) { m2 <<= (e2 - e1); }
	m = m1 + m2; e = e1 - 1;
}

// is non-negative pattern u the correct (nearest, ties to even) rounding of digits*10^e10?
template<typename F> bool correctly_rounded(const std::string& digits, long e10, typename fmt<F>::U u)
{
	typedef fmt<F> T;
	std::string d = digits;
	size_t z = d.find_first_not_of('0');
	d = z == std::string::npos ? "" : d.substr(z);
	while (!d.empty() && d.back() == '0') { d.pop_back(); ++e10; }
	const typename T::U inf = typename T::U(T::emax) << T::mb;
	if (d.empty()) return u == 0;
	if (long(d.size()) + e10 > 400) return u == inf;
	if (long(d.size()) + e10 < -400) return u == 0;
	uint64_t m; long e;
	if (u > inf) return false;
	if (u > 0) { midpoint<F>(u - 1, m, e); int c = cmp_dec_bin(d, e10, m, e); if (c < 0 || (c == 0 && (u & 1))) return false; }
	if (u < inf) { midpoint<F>(u, m, e); int c = cmp_dec_bin(d, e10, m, e); if (c > 0 || (c == 0 && (u & 1))) return false; }
	return true;
}

// exact decimal expansion of m*2^e: digits and exponent of the last digit
inline void exact_decimal(uint64_t m, long e, std::string& digits, long& e10)
{
	Big b = Big::of(m);
	e10 = 0;
	if (e >= 0) b.shl(unsigned(e));
	else { for (long i = 0; i < -e; ++i) b.mul(5); e10 = e; }
	digits = b.dec();
	while (digits.size() > 1 && digits.back() == '0') { digits.pop_back(); ++e10; }
	if (digits == "0") e10 = 0;
}

} // namespace exact

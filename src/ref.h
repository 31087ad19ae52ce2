// Reference model: documented grammar, exact value, documented output format.
// Built on the independent conversions of the C++ runtime (std::from_chars),
// which are themselves cross-validated by big-integer arithmetic (exact.h).
#pragma once
#include <charconv>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>

#include "exact.h"

namespace ref {

using exact::bits;
using exact::from_bits;
using exact::fmt;

enum Kind { none, number, inf, nan };

struct Syntax {
	Kind kind = none;
	bool neg = false;
	size_t used = 0;        // consumed characters
	size_t first = 0;       // first character after the sign
	size_t mant_end = 0;    // end of the mantissa
	bool nonzero = false;
};

inline bool dig(uint32_t c) { return c >= '0' && c <= '9'; }
inline uint32_t low(uint32_t c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }

template<typename C> uint32_t cu(C c) { return uint32_t(typename std::make_unsigned<C>::type(c)); }
inline uint32_t cu(char16_t c) { return c; }
inline uint32_t cu(char32_t c) { return c; }
inline uint32_t cu(wchar_t c) { return uint32_t(c); }

// [+-] ( nan [ '(' [0-9A-Za-z_]* ')' ] | inf [inity] | digits [. digits] | . digits ) [ e [+-] digits ]
template<typename C> Syntax scan(const C* s)
{
	Syntax r; size_t i = 0;
	auto at = [&](size_t k) { return cu(s[k]); };
	if (at(0) == '-' || at(0) == '+') { r.neg = at(0) == '-'; i = 1; }
	r.first = i;
	if (low(at(i)) == 'n' && low(at(i + 1)) == 'a' && low(at(i + 2)) == 'n') {
		r.kind = nan; r.used = i + 3;
		if (at(i + 3) == '(') {
			size_t j = i + 4;
			while (dig(at(j)) || (low(at(j)) >= 'a' && low(at(j)) <= 'z') || at(j) == '_') ++j;
			if (at(j) == ')') r.used = j + 1;
		}
		return r;
	}
	if (low(at(i)) == 'i' && low(at(i + 1)) == 'n' && low(at(i + 2)) == 'f') {
		r.kind = inf; r.used = i + 3;
		const char* t = "inity"; size_t j = 0;
		while (j < 5 && low(at(i + 3 + j)) == uint32_t(t[j])) ++j;
		if (j == 5) r.used = i + 8;
		return r;
	}
	bool any = false; size_t j = i;
	while (dig(at(j))) { any = true; r.nonzero |= at(j) != '0'; ++j; }
	if (at(j) == '.') { ++j; while (dig(at(j))) { any = true; r.nonzero |= at(j) != '0'; ++j; } }
	if (!any) { r.neg = false; return r; }
	r.kind = number; r.used = r.mant_end = j;
	if (low(at(j)) == 'e') {
		size_t k = j + 1;
		if (at(k) == '+' || at(k) == '-') ++k;
		if (dig(at(k))) { while (dig(at(k))) ++k; r.used = k; }
	}
	return r;
}

// decimal digits and exponent (of the last digit) of a scanned number
template<typename C> void decompose(const C* s, const Syntax& y, std::string& digits, long& e10)
{
	digits.clear(); e10 = 0; bool dot = false;
	for (size_t i = y.first; i < y.mant_end; ++i) { if (s[i] == C('.')) { dot = true; continue; } digits += char('0' + (s[i] - C('0'))); if (dot) --e10; }
	if (y.used > y.mant_end) {
		size_t i = y.mant_end + 1; bool neg = s[i] == C('-'); if (s[i] == C('-') || s[i] == C('+')) ++i;
		long e = 0; for (; i < y.used; ++i) if (e < 1000000) e = e * 10 + long(s[i] - C('0'));
		e10 += neg ? -e : e;
	}
	size_t z = digits.find_first_not_of('0');
	digits = z == std::string::npos ? "" : digits.substr(z);
	while (!digits.empty() && digits.back() == '0') { digits.pop_back(); ++e10; }
}

// magnitude of a number, [b, e) in char, syntax already known to be right
template<typename F> F magnitude(const char* b, const char* e, bool nonzero)
{
	if (!nonzero) return F(0);
	F v; auto r = std::from_chars(b, e, v, std::chars_format::general);
	if (r.ec == std::errc() && r.ptr == e) return v;
	// out of range: decide by the position of the leading digit
	Syntax y; std::string t(b, e); y = scan(t.c_str());
	std::string d; long e10; decompose(t.c_str(), y, d, e10);
	if (d.empty()) return F(0);
	long top = long(d.size()) + e10;
	if (top > std::numeric_limits<F>::max_exponent10 + 1) return std::numeric_limits<F>::infinity();                          // >= 10^(max10+1)
	if (top < std::numeric_limits<F>::min_exponent10 - std::numeric_limits<F>::max_digits10) return F(0);   // < 10^-325 / 10^-47
	// exact, by bisection over bit patterns
	typedef typename fmt<F>::U U;
	U lo = 0, hi = U(fmt<F>::emax) << fmt<F>::mb;   // largest u with midpoint(u-1,u) <= value
	while (lo < hi) {
		U m = U(lo + (hi - lo + 1) / 2); uint64_t mm; long me; exact::midpoint<F>(U(m - 1), mm, me);
		int c = exact::cmp_dec_bin(d, e10, mm, me);
		if (c > 0 || (c == 0 && !(m & 1))) lo = m; else hi = U(m - 1);
	}
	return from_bits<F>(lo);
}

enum Status { success = 0, underflow = 1, overflow = 2 };

template<typename F> struct Value { Kind kind; F value; Status status; size_t used; bool neg; };

template<typename F, typename C> Value<F> parse(const C* s)
{
	Value<F> r; Syntax y = scan(s);
	r.kind = y.kind; r.used = y.used; r.status = success; r.value = F(0); r.neg = y.neg;
	switch (y.kind) {
	case none: return r;
	case nan: r.value = std::numeric_limits<F>::quiet_NaN(); return r;
	case inf: r.value = std::numeric_limits<F>::infinity(); break;
	case number:
		if constexpr (sizeof(C) == 1) r.value = magnitude<F>((const char*)s + y.first, (const char*)s + y.used, y.nonzero);
		else { std::string t; for (size_t i = y.first; i < y.used; ++i) t += char(s[i]); r.value = magnitude<F>(t.data(), t.data() + t.size(), y.nonzero); }
		if (std::isinf(r.value)) r.status = overflow; else if (r.value == 0 && y.nonzero) r.status = underflow;
		break;
	}
	if (y.neg) r.value = -r.value;
	return r;
}

// independent of from_chars: is `v` the correctly rounded value of the scanned number?
template<typename F, typename C> bool exactly_right(const C* s, F v)
{
	Syntax y = scan(s); std::string d; long e10; decompose(s, y, d, e10);
	auto u = bits<F>(std::fabs(v));
	return exact::correctly_rounded<F>(d, e10, u) && std::signbit(v) == y.neg;
}

template<typename F> bool same(F a, F b) { return bits<F>(a) == bits<F>(b) || (a != a && b != b); }

// printed text of the given digits (no leading/trailing zeros) times 10^k
inline std::string render(bool neg, const std::string& d, int k)
{
	const int len = int(d.size()), dot = len + k;
	std::string r = neg ? "-" : "";
	if (std::max(dot, -k) <= 16) {
		if (k >= 0) return r + d + std::string(size_t(k), '0');
		if (dot > 0) return r + d.substr(0, size_t(dot)) + "." + d.substr(size_t(dot));
		return r + "0." + std::string(size_t(-dot), '0') + d;
	}
	r += d[0]; if (len > 1) r += "." + d.substr(1);
	int e = dot - 1; r += 'e'; if (e < 0) { r += '-'; e = -e; }
	if (e < 10) r += '0';
	return r + std::to_string(e);
}

} // namespace ref

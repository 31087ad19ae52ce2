// Alphabet of public operations used by the history and interleaving checks.
#pragma once
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include "ref.h"

namespace ops {

struct Result {
	uint64_t bits = 0; int status = 0; long used = 0; uint32_t len = 0; char text[104] = {};
	bool operator==(const Result& o) const { return bits == o.bits && status == o.status && used == o.used && len == o.len && !std::memcmp(text, o.text, sizeof text); }
	std::string show() const { char b[300]; snprintf(b, sizeof b, "bits=0x%llx status=%d used=%ld text=\"%s\"", (unsigned long long)bits, status, used, text); return b; }
};

struct Op { int fn; uint64_t bits; std::string text; int err; };

// input and output buffers are the same memory in every call, on purpose
struct Bufs { char in8[4200]; wchar_t in32[4200]; char16_t in16[4200]; char out8[64]; wchar_t out32[64]; char16_t out16[64]; char32_t outq[64]; };

template<typename F> uint64_t fbits(F v) { return v != v ? ~uint64_t(0) >> std::signbit(v) : uint64_t(ref::bits<F>(v)); }
template<typename C> void narrow(Result& r, const C* s, size_t n) { r.len = uint32_t(n); for (size_t i = 0; i < n && i < sizeof r.text - 1; ++i) r.text[i] = uint32_t(s[i]) < 128 ? char(s[i]) : '?'; if (s[n] != C(0)) r.status = 77; }

template<typename F> F fb_fixed(const char* s, char** e) { if (e) *e = const_cast<char*>(s) + 1; errno = ERANGE; return F(0); }
template<typename F> F fb_c16(const char16_t* s, char16_t** e) { if (e) *e = const_cast<char16_t*>(s) + 2; return F(77); }

template<typename F, typename C, typename R> void fill(Result& r, const R& v, const C* b, C* e) { r.bits = fbits<F>(v.value); r.status = int(v.status); r.used = e ? e - b : -1; }

inline Result run(const Op& o, Bufs& b)
{
	Result r;
	const double d = ref::from_bits<double>(o.bits); const float f = ref::from_bits<float>(uint32_t(o.bits));
	if (o.fn >= 20) { for (size_t i = 0; i <= o.text.size(); ++i) { b.in8[i] = o.text.c_str()[i]; b.in32[i] = wchar_t((unsigned char)o.text.c_str()[i]); b.in16[i] = char16_t((unsigned char)o.text.c_str()[i]); } }
	errno = o.err;
	char* e = nullptr; wchar_t* we = nullptr; char16_t* he = nullptr;
	switch (o.fn) {
	case 0: narrow(r, b.out8, floaxie::ftoa(d, b.out8)); break;
	case 1: narrow(r, b.out8, floaxie::ftoa(f, b.out8)); break;
	case 2: narrow(r, b.out32, floaxie::ftoa(d, b.out32)); break;
	case 3: narrow(r, b.out32, floaxie::ftoa(f, b.out32)); break;
	case 4: narrow(r, b.out16, floaxie::ftoa(d, b.out16)); break;
	case 5: narrow(r, b.outq, floaxie::ftoa(f, b.outq)); break;
	case 6: { std::string s = floaxie::to_string(d); narrow(r, s.c_str(), s.size()); break; }
	case 7: { std::wstring s = floaxie::to_wstring(f); narrow(r, s.c_str(), s.size()); break; }
	case 8: { std::u32string s = floaxie::to_u32string(d); narrow(r, s.c_str(), s.size()); break; }
	case 20: { auto v = floaxie::atof<double>(static_cast<const char*>(b.in8), &e); fill<double>(r, v, b.in8, e); break; }
	case 21: { auto v = floaxie::atof<float>(static_cast<const char*>(b.in8), &e); fill<float>(r, v, b.in8, e); break; }
	case 22: { auto v = floaxie::atof<double>(static_cast<const wchar_t*>(b.in32), &we); fill<double>(r, v, b.in32, we); break; }
	case 23: { auto v = floaxie::atof<float>(static_cast<const wchar_t*>(b.in32), &we); fill<float>(r, v, b.in32, we); break; }
	case 24: { auto v = floaxie::atof<double>(static_cast<const char*>(b.in8), nullptr); fill<double>(r, v, b.in8, e); break; }
	case 25: { auto v = floaxie::atof<double>(static_cast<const char*>(b.in8), &e, fb_fixed<double>); fill<double>(r, v, b.in8, e); break; }
	case 26: { auto v = floaxie::atof<float>(static_cast<const char16_t*>(b.in16), &he, fb_c16<float>); fill<float>(r, v, b.in16, he); break; }
	case 27: { auto v = floaxie::from_string<double>(std::string(o.text)); fill<double>(r, v, b.in8, e); break; }
	case 28: { auto v = floaxie::from_string<float>(std::wstring(o.text.begin(), o.text.end())); fill<float>(r, v, b.in8, e); break; }
	}
	return r;
}
inline std::string show(const Op& o) { char b[160]; static const char* n[] = { "ftoa<double,char>", "ftoa<float,char>", "ftoa<double,wchar_t>", "ftoa<float,wchar_t>", "ftoa<double,char16_t>", "ftoa<float,char32_t>", "to_string<double>", "to_wstring<float>", "to_u32string<double>" }; static const char* p[] = { "atof<double,char>", "atof<float,char>", "atof<double,wchar_t>", "atof<float,wchar_t>", "atof<double,char>(null end)", "atof<double,char>(custom fallback)", "atof<float,char16_t>(custom fallback)", "from_string<double>", "from_string<float,wchar_t>" };
	if (o.fn < 20) { snprintf(b, sizeof b, "%s(0x%llx)", n[o.fn], (unsigned long long)o.bits); return b; }
	return std::string(p[o.fn - 20]) + "(\"" + (o.text.size() > 60 ? o.text.substr(0, 30) + "...(" + std::to_string(o.text.size()) + ")" : o.text) + "\")" + (o.err ? " errno=" + std::to_string(o.err) : ""); }

inline std::string tie_text() { return "9007199254740993"; }

// small alphabet: one operation per path of the library visible from outside
inline std::vector<Op> small()
{
	auto D = [](double v) { return ref::bits<double>(v); }; auto F = [](float v) { return uint64_t(ref::bits<float>(v)); };
	return {
		{ 0, D(0.1), "", 0 }, { 0, D(-1.7976931348623157e308), "", 0 }, { 0, D(5e-324), "", 0 }, { 0, D(1e16), "", 0 }, { 0, D(0), "", 0 }, { 0, uint64_t(0x7ff8) << 48, "", 0 },
		{ 1, F(0.1f), "", 0 }, { 1, F(-3.4028235e38f), "", 0 }, { 2, D(123456.789), "", 0 }, { 3, F(1e-45f), "", 0 }, { 4, D(0.1), "", 0 }, { 5, F(7.25f), "", 0 }, { 6, D(-2.5e-7), "", 0 }, { 7, F(0.1f), "", 0 }, { 8, D(1e300), "", 0 },
		{ 20, 0, "0.1", 0 }, { 20, 0, "-123.456e-7", 0 }, { 20, 0, tie_text(), 0 }, { 20, 0, tie_text(), ERANGE }, { 20, 0, "1e999", 0 }, { 20, 0, "1e-999", 0 }, { 20, 0, "0", ERANGE }, { 20, 0, "x", 0 }, { 20, 0, "inf", 0 }, { 20, 0, "nan(1)", 0 },
		{ 20, 0, "1234567890123456789012345678901234567890", 0 }, { 20, 0, std::string("0.") + std::string(1500, '0') + "1e1500", 0 }, { 20, 0, "2.4703282292062328e-324", 0 },
		{ 21, 0, "0.1", 0 }, { 21, 0, "16777217", 0 }, { 21, 0, "1e39", 0 }, { 22, 0, "0.1", 0 }, { 22, 0, tie_text(), 0 }, { 23, 0, "16777217", ERANGE }, { 24, 0, "2.5", 0 }, { 25, 0, tie_text(), 0 }, { 25, 0, "3.5", 0 }, { 26, 0, "16777217", 0 }, { 26, 0, "8.25", 0 }, { 27, 0, "6.02e23", 0 }, { 28, 0, "-1e-40", 0 },
	};
}
// large alphabet: colliding arguments (same digits with other powers, same powers with other digits, same text for other types)
inline std::vector<Op> large()
{
	std::vector<Op> r = small();
	for (const char* d : { "1", "123456", "9007199254740993", "16777217", "1234567890123456789012345" }) for (int q : { -330, -324, -320, -308, -46, -44, -23, -1, 0, 1, 22, 37, 38, 100, 292, 308 }) for (const char* s : { "", "-" }) {
		const std::string t = s + std::string(d) + "e" + std::to_string(q);
		for (int fn = 20; fn <= 23; ++fn) r.push_back({ fn, 0, t, fn == 22 ? ERANGE : 0 });
	}
	for (uint64_t e : { 0, 1, 2, 500, 1022, 1023, 1024, 1075, 1100, 2000, 2046 }) for (uint64_t m : { uint64_t(0), uint64_t(1), uint64_t(0x5555555555555), (uint64_t(1) << 52) - 1, uint64_t(0x999999999999a) }) { r.push_back({ 0, e << 52 | m, "", 0 }); r.push_back({ 2, e << 52 | m | uint64_t(1) << 63, "", 0 }); r.push_back({ 6, e << 52 | m, "", 0 }); }
	for (uint32_t e : { 0, 1, 100, 126, 127, 128, 150, 200, 254 }) for (uint32_t m : { 0u, 1u, 0x2aaaaau, 0x7fffffu, 0x4ccccdu }) { r.push_back({ 1, e << 23 | m, "", 0 }); r.push_back({ 3, e << 23 | m | 0x80000000u, "", 0 }); }
	for (const char* t : { "", "+", ".", "1.", "1.5x", "-inf", "infinity", "-nan", "0e5", "00000.5", "1e", "1e+", "e5", "7", "70", "700", "7000000000000000000000" }) for (int fn = 20; fn <= 28; ++fn) r.push_back({ fn, 0, t, 0 });
	for (int n : { 17, 18, 19, 20, 21, 24, 40, 100, 800, 2000 }) for (int fn : { 20, 21, 22 }) { r.push_back({ fn, 0, std::string(size_t(n), '1'), 0 }); r.push_back({ fn, 0, "0." + std::string(size_t(n), '0') + "1", 0 }); }
	return r;
}

} // namespace ops

// A translation unit using the library for one value type and one character
// type.  -DC22_T= -DC22_C= -DC22_PRINT=0/1 -DC22_NAME=use_...
#if C22_PRINT
#include <floaxie/ftoa.h>
#else
#include <floaxie/atof.h>
#endif
#include <cmath>
#include <cerrno>
#include <cstring>
#include <string>

namespace {
typedef C22_T T; typedef C22_C C;
template<typename Ch> std::basic_string<Ch> widen(const char* s) { return std::basic_string<Ch>(s, s + std::strlen(s)); }
#if C22_PRINT
struct Sample { double v; const char* text; };
const Sample samples[] = { { 0.5, "0.5" }, { -1.25, "-1.25" }, { 3., "3" }, { 1048576., "1048576" }, { 0.0009765625, "0.0009765625" }, { 1e22, "1e22" }, { HUGE_VAL, "inf" }, { -HUGE_VAL, "-inf" }, { 0., "0" } };
std::basic_string<char> str(T v, char) { return floaxie::to_string(v); }
std::basic_string<wchar_t> str(T v, wchar_t) { return floaxie::to_wstring(v); }
std::basic_string<char16_t> str(T v, char16_t) { return floaxie::to_u16string(v); }
std::basic_string<char32_t> str(T v, char32_t) { return floaxie::to_u32string(v); }
#else
struct Sample { const char* text; double v; long used; };
const Sample samples[] = { { "0.5", 0.5, 3 }, { "-1.25x", -1.25, 5 }, { "+3", 3, 2 }, { "1048576", 1048576, 7 }, { "9.765625e-4", 0.0009765625, 11 }, { "1E22", 1e22, 4 }, { "-inf", -HUGE_VAL, 4 }, { "", 0, 0 }, { "x", 0, 0 },
	// needs the fallback, as it's exactly between of two values
	{ "1.000000000000000111022302462515654042363166809082031250", 1, 56 }, { "1.000000059604644775390625", sizeof(T) == 4 ? 1 : 1.000000059604644775390625, 26 } };
template<typename Ch> struct Fallback {
	static T call(const Ch* s, Ch** e) { std::string n; while (s[n.size()] && s[n.size()] != 'x') n += char(s[n.size()]); if (e) *e = const_cast<Ch*>(s) + n.size(); return sizeof(T) == 4 ? T(std::strtof(n.c_str(), nullptr)) : T(std::strtod(n.c_str(), nullptr)); }
};
struct Parsed { T v; floaxie::conversion_status st; };
Parsed parse(const char* s, char** e) { auto r = e ? floaxie::atof<T>(s, e) : floaxie::atof<T>(s, nullptr); return { r.value, r.status }; }
Parsed parse(const wchar_t* s, wchar_t** e) { auto r = e ? floaxie::atof<T>(s, e) : floaxie::atof<T>(s, nullptr); return { r.value, r.status }; }
template<typename Ch> Parsed parse(const Ch* s, Ch** e) { auto r = e ? floaxie::atof<T>(s, e, Fallback<Ch>::call) : floaxie::atof<T>(s, nullptr, Fallback<Ch>::call); return { r.value, r.status }; }
Parsed parse_string(const std::string& s) { auto r = floaxie::from_string<T>(s); return { r.value, r.status }; }
Parsed parse_string(const std::wstring& s) { auto r = floaxie::from_string<T>(s); return { r.value, r.status }; }
template<typename Ch> Parsed parse_string(const std::basic_string<Ch>& s) { auto r = floaxie::from_string<T>(s, Fallback<Ch>::call); return { r.value, r.status }; }
#endif
}

int C22_NAME()
{
	int bad = 0;
#if C22_PRINT
	static_assert(floaxie::max_buffer_size<T>() == floaxie::max_buffer_size<const T&>(), "size of buffer of the same type");
	for (const Sample& s : samples) {
		C buffer[floaxie::max_buffer_size<T>()]; const T v = T(s.v);
		const std::size_t n = floaxie::ftoa(v, buffer);
		bad += std::basic_string<C>(buffer, n) != widen<C>(s.text) || buffer[n] != C();
		bad += str(v, C()) != widen<C>(s.text);
		bad += floaxie::to_basic_string<T, C>(v) != widen<C>(s.text);
	}
#else
	for (const Sample& s : samples) {
		const std::basic_string<C> text = widen<C>(s.text); C* end = nullptr;
		const Parsed a = parse(text.c_str(), &end), b = parse(text.c_str(), static_cast<C**>(nullptr)), c = parse_string(text);
		bad += a.v != T(s.v) || b.v != T(s.v) || c.v != T(s.v) || end - text.c_str() != s.used;
		bad += a.st != floaxie::conversion_status::success || b.st != a.st || c.st != a.st;
		const T implicitly = floaxie::from_string<T>(std::string(s.text)); bad += implicitly != T(s.v);
	}
#endif
	return bad;
}

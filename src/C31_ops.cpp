// The part of C31 compiled with instrumentation of every access to memory.
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
#include <cstring>
#include "C31.h"
extern "C" void steps_begin(); extern "C" void steps_end();

template<typename F, typename U> static F from(uint64_t b) { U u = U(b); F f; std::memcpy(&f, &u, sizeof f); return f; }
template<typename C> static void print(int type, uint64_t bits, C* out)
{
	if (type) { const float f = from<float, uint32_t>(bits); steps_begin(); floaxie::ftoa(f, out); steps_end(); }
	else { const double d = from<double, uint64_t>(bits); steps_begin(); floaxie::ftoa(d, out); steps_end(); }
}
void step_print(int type, int ch, uint64_t bits, void* out)
{
	switch (ch) { case 0: print(type, bits, static_cast<char*>(out)); break; case 1: print(type, bits, static_cast<wchar_t*>(out)); break; case 2: print(type, bits, static_cast<char16_t*>(out)); break; default: print(type, bits, static_cast<char32_t*>(out)); }
}
template<typename F, typename C> static F fixed(const C* s, C** e) { if (e) *e = const_cast<C*>(s) + 1; return F(1); }
template<typename F, typename C> static long parse(const C* s, size_t n, int how)
{
	C* e = nullptr;
	if (how) { const std::basic_string<C> t(s, n); steps_begin(); floaxie::from_string<F>(t, fixed<F, C>); steps_end(); return 0; }
	steps_begin(); floaxie::atof<F>(s, &e, fixed<F, C>); steps_end();
	return long(e - s);
}
template<typename C> static long parse(int type, const C* s, size_t n, int how) { return type ? parse<float>(s, n, how) : parse<double>(s, n, how); }
long step_parse(int type, int ch, const void* s, size_t n, int how)
{
	switch (ch) { case 0: return parse(type, static_cast<const char*>(s), n, how); case 1: return parse(type, static_cast<const wchar_t*>(s), n, how); case 2: return parse(type, static_cast<const char16_t*>(s), n, how); default: return parse(type, static_cast<const char32_t*>(s), n, how); }
}

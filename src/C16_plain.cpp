// The library as compiled without optimization (nothing is inlined, no tail calls), in a namespace of its own
// (-Dfloaxie=...): called on a small stack by C16.
#include <floaxie/ftoa.h>
#include <floaxie/atof.h>
template<typename F, typename C> static F nothing(const C* s, C** e) { if (e) *e = const_cast<C*>(s); return F(0); }
template<typename F, typename C> static std::size_t parse(const void* t) { const C* s = static_cast<const C*>(t); C* e = nullptr; floaxie::atof<F>(s, &e, nothing<F, C>); return std::size_t(e - s); }
extern "C" std::size_t plain_parse(unsigned kind, const void* t)
{
	switch (kind) { case 0: return parse<double, char>(t); case 1: return parse<float, char>(t); case 2: return parse<double, wchar_t>(t); case 3: return parse<float, wchar_t>(t); case 4: return parse<double, char16_t>(t); default: return parse<float, char32_t>(t); }
}

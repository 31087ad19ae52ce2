// Binary dump of values.
#include <floaxie/print.h>
#include <floaxie/diy_fp.h>
#include <sstream>
#include "mc.h"
#include "gen.h"

template<typename N> static std::string plain(N v) { std::string r; typedef typename std::make_unsigned<N>::type U; for (int i = int(sizeof(N) * 8) - 1; i >= 0; --i) r += char('0' + int(U(v) >> i & 1)); return r; }
template<typename N> static void integer(mc::Ctx& x) { const N v = N(x.c.a); x.beat(); x.state(); const std::string s = floaxie::print_binary(v); x.step(); x.state(); x.trace(); if (s != plain(v)) x.fail("dumped as \"%s\"", mc::escape(s).c_str()); x.outcome(1); if (x.want_sample()) x.sample(s); }

// the extended number: "(f = bits, e = exponent)"; any text with the bits and the exponent in this order is accepted
template<typename F> static void extended(mc::Ctx& x)
{
	typedef typename floaxie::diy_fp<F>::mantissa_storage_type M; const M m = M(x.c.a); const int e = int(int64_t(x.c.b));
	x.beat(); x.state();
	std::ostringstream o; o << floaxie::diy_fp<F>(m, e); const std::string s = o.str();
	x.step(); x.state(); x.trace();
	const std::string bits = plain(m), number = std::to_string(e);
	const size_t p = s.find(bits);
	const size_t q = p == std::string::npos ? p : s.find(number, p + bits.size());
	if (q == std::string::npos) x.fail("dumped as \"%s\"", mc::escape(s).c_str());
	x.outcome(2); if (x.want_sample()) x.sample(s);
}
template<typename N> static void presentation(mc::Ctx& x)
{
	const N v = N(x.c.a);
	x.beat(); x.state();
	std::string s = floaxie::print_double_presentation(v);
	x.step(); x.state(); x.trace();
	std::string w = plain(uint64_t(int64_t(v))); w = w.substr(0, 1) + " " + w.substr(1, 52) + " " + w.substr(53, 1) + " " + w.substr(54);
	if (s != w) x.fail("dumped as \"%s\"", mc::escape(s).c_str());
	x.outcome(3);
}
static void one(mc::Ctx& x)
{
	switch (x.c.kind) {
	case 0: { double d; std::memcpy(&d, &x.c.a, 8); x.beat(); x.state(); const std::string s = floaxie::print_binary(d); x.step(); x.state(); x.trace(); std::string w = plain(uint64_t(x.c.a)); w = w.substr(0, 1) + " " + w.substr(1, 11) + " " + w.substr(12); if (s != w) x.fail("dumped as \"%s\"", mc::escape(s).c_str()); x.outcome(0); if (x.want_sample()) x.sample(s); break; }
	case 1: integer<unsigned char>(x); break; case 2: integer<uint16_t>(x); break; case 3: integer<uint32_t>(x); break; case 4: integer<uint64_t>(x); break; case 5: integer<signed char>(x); break; case 6: integer<int16_t>(x); break; case 7: integer<int32_t>(x); break; case 8: integer<int64_t>(x); break;
	case 9: extended<double>(x); break; case 10: extended<float>(x); break; case 11: presentation<uint64_t>(x); break; case 12: presentation<int64_t>(x); break; case 13: presentation<uint32_t>(x); break; case 14: presentation<int32_t>(x); break; case 15: presentation<uint16_t>(x); break; case 16: presentation<int16_t>(x); break; case 17: presentation<unsigned char>(x); break; case 18: presentation<signed char>(x); break; 
	}
}
int main(int argc, char** argv)
{
	mc::Check k; k.id = "C25"; k.one = one; k.outcome_names = { "double", "integer", "extended number", "as if it were double" };
	k.describe = [](const mc::Case& c) { char b[80]; snprintf(b, sizeof b, "kind %u 0x%llx", c.kind, (unsigned long long)c.a); return std::string(b); };
	k.domains.push_back({ "double", "every sign and exponent field x mantissa alphabet", 4096, [](mc::Ctx& x, uint32_t s) { static const auto ms = gen::mantissas(52, 4, 4, 6); x.c.kind = 0; for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; one(x); } } });
	k.domains.push_back({ "integers", "all 8 and 16 bit values, alphabets of 32 and 64 bit values", 16, [](mc::Ctx& x, uint32_t s) {
		for (uint32_t i = s; i < 65536; i += 16) { x.c.a = i; if (i < 256) { x.c.kind = 1; one(x); } x.c.kind = 2; one(x); }
		static const auto a = gen::mantissas(32, 10, 10, 12), b = gen::mantissas(63, 8, 8, 10);
		for (size_t i = s; i < a.size(); i += 16) { x.c.kind = 3; x.c.a = a[i]; one(x); } for (size_t i = s; i < b.size(); i += 16) { x.c.kind = 4; x.c.a = b[i]; one(x); x.c.a |= uint64_t(1) << 63; one(x); }
	} });
	k.domains.push_back({ "signed", "all 8 and 16 bit values, alphabets of 32 and 64 bit values, as signed types", 16, [](mc::Ctx& x, uint32_t s) {
		for (uint32_t i = s; i < 65536; i += 16) { x.c.a = i; if (i < 256) { x.c.kind = 5; one(x); } x.c.kind = 6; one(x); }
		static const auto a = gen::mantissas(32, 10, 10, 12), b = gen::mantissas(63, 8, 8, 10);
		for (size_t i = s; i < a.size(); i += 16) { x.c.kind = 7; x.c.a = a[i]; one(x); } for (size_t i = s; i < b.size(); i += 16) { x.c.kind = 8; x.c.a = b[i]; one(x); x.c.a |= uint64_t(1) << 63; one(x); }
	} });
	k.domains.push_back({ "extended", "every exponent in [-1100,1100] x bits of the mantissa alone, all of them, none", 2201, [](mc::Ctx& x, uint32_t s) { x.c.b = uint64_t(int64_t(s) - 1100); for (int w : { 64, 32 }) { x.c.kind = w == 64 ? 9 : 10; for (int i = 0; i < w; ++i) { x.c.a = uint64_t(1) << i; one(x); x.c.a = ~x.c.a; one(x); } x.c.a = 0; one(x); x.c.a = ~uint64_t(0); one(x); } } });
	k.domains.push_back({ "presentation", "alphabet of 64 bit values", 16, [](mc::Ctx& x, uint32_t s) { static const auto b = gen::mantissas(63, 8, 8, 10); x.c.kind = 11; for (size_t i = s; i < b.size(); i += 16) for (uint64_t top = 0; top < 2; ++top) { x.c.a = b[i] | top << 63; one(x); } } });
	k.domains.push_back({ "presentation-of-types", "every signed and unsigned type: all 8 and 16 bit values, alphabets of wider ones, as the 64 bits of the value", 16, [](mc::Ctx& x, uint32_t s) {
		for (uint32_t i = s; i < 65536; i += 16) { x.c.a = i; for (uint32_t kd : { 15u, 16u, 17u, 18u }) { if (kd > 16 && i > 255) continue; x.c.kind = kd; one(x); } }
		static const auto a = gen::mantissas(32, 8, 8, 10), b = gen::mantissas(63, 6, 6, 8);
		for (size_t i = s; i < a.size(); i += 16) for (uint32_t kd : { 13u, 14u }) { x.c.kind = kd; x.c.a = a[i]; one(x); }
		for (size_t i = s; i < b.size(); i += 16) for (uint64_t top = 0; top < 2; ++top) { x.c.kind = 12; x.c.a = b[i] | top << 63; one(x); }
	} });
	return k.main(argc, argv);
}

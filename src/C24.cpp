// Extended-precision number: splitting, narrowing, increment and multiplication.
#include <floaxie/diy_fp.h>
#include "mc.h"
#include "ref.h"
#include "gen.h"
#include "lit.h"
#include <mutex>

typedef unsigned __int128 u128;

template<typename F> struct T;
template<> struct T<float> { typedef uint32_t M; static constexpr int W = 32, P = 24, EMIN = -149, EMAX = 128; };
template<> struct T<double> { typedef uint64_t M; static constexpr int W = 64, P = 53, EMIN = -1074, EMAX = 1024; };

// nearest (ties to even) pattern of m*2^e, and the distance to the nearest tie in units of m
template<typename F> static void nearest(typename T<F>::M m, int e, typename ref::fmt<F>::U& u, bool& tie, bool& zero, bool& inf)
{
	typedef typename ref::fmt<F>::U U;
	constexpr int W = T<F>::W;
	tie = zero = inf = false; u = 0;
	if (e + W > T<F>::EMAX) { inf = true; u = U(ref::fmt<F>::emax) << ref::fmt<F>::mb; return; }
	int lsb = std::max(e + W - T<F>::P, int(T<F>::EMIN));     // exponent of the least significant bit of the result
	int sh = lsb - e;                                          // bits to drop, > 0
	if (sh > W) { zero = true; return; }                       // below a half of the least value
	u128 x = m, half = u128(1) << (sh - 1), q = x >> sh, r = x & ((u128(1) << sh) - 1);
	tie = r == half;
	if (r > half || (tie && (q & 1))) ++q;
	// q * 2^lsb
	if (q == 0) { zero = true; return; }
	const u128 hidden = u128(1) << (T<F>::P - 1);
	if (q < hidden) { u = U(q); return; }
	if (q == hidden * 2) { q = hidden; ++lsb; }
	const int be = lsb - int(T<F>::EMIN) + 1;
	if (be >= ref::fmt<F>::emax) { inf = true; u = U(ref::fmt<F>::emax) << ref::fmt<F>::mb; return; }
	u = U(be) << ref::fmt<F>::mb | U(q - hidden);
}

template<typename F> static void split(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U;
	const U u = U(x.c.a); const F v = ref::from_bits<F>(u);
	x.beat(); x.state();
	floaxie::diy_fp<F> d(v);
	x.step(); x.state();
	uint64_t m; long e; ref::bits<F>(v); exact::split<F>(u, m, e);
	if (uint64_t(d.mantissa()) != m || d.exponent() != e) x.fail("split as %llu * 2^%d", (unsigned long long)d.mantissa(), int(d.exponent()));
	if (!u) return;
	d.normalize();
	x.step(); x.state();
	const auto r = d.downsample();
	x.step(); x.trace();
	if (ref::bits<F>(r.value) != u || r.status != floaxie::conversion_status::success || !r.is_accurate) x.fail("narrowed back to 0x%llx, status %d, accurate %d", (unsigned long long)ref::bits<F>(r.value), int(r.status), r.is_accurate);
	x.outcome(0);
}
template<typename F> static void narrow(mc::Ctx& x)
{
	typedef typename T<F>::M M; typedef typename ref::fmt<F>::U U;
	const M m = M(x.c.a); const int e = int(int64_t(x.c.b));
	x.beat(); x.state();
	floaxie::diy_fp<F> d(m, e);
	const auto r = d.downsample();
	x.step(); x.state(); x.trace();
	U u; bool tie, zero, inf; nearest<F>(m, e, u, tie, zero, inf);
	if (!r.is_accurate) { x.outcome(2); return; }
	if (ref::bits<F>(r.value) != u) x.fail("narrowed to 0x%llx, nearest is 0x%llx", (unsigned long long)ref::bits<F>(r.value), (unsigned long long)u);
	const int want = inf ? 2 : zero ? 1 : 0;
	if (int(r.status) != want) x.fail("status %d, %d expected", int(r.status), want);
	x.outcome(1);
	if (x.want_sample()) { char b[120]; snprintf(b, sizeof b, "%llu * 2^%d -> 0x%llx", (unsigned long long)m, e, (unsigned long long)u); x.sample(b); }
}
template<typename F> static void incdec(mc::Ctx& x)
{
	typedef typename T<F>::M M; const M m = M(x.c.a); const int e = int(int64_t(x.c.b));
	x.beat(); x.state();
	floaxie::diy_fp<F> d(m, e), p(m, e); const auto post = p++; ++d; x.step(2);
	if (post.mantissa() != m || post.exponent() != e || p != d) x.fail("postfix increment");
	if (m != std::numeric_limits<M>::max()) { if (d.mantissa() != M(m + 1) || d.exponent() != e) x.fail("increment"); --d; x.step(); if (m && (d.mantissa() != m || d.exponent() != e)) x.fail("decrement isn't inverse"); }
	else if (d.mantissa() != M(m / 2 + 1) || d.exponent() != e + 1) x.fail("increment of the largest mantissa");
	floaxie::diy_fp<F> less(m, e), q(m, e); const auto before = q--; --less; x.step(2);
	if (before.mantissa() != m || before.exponent() != e || q != less) x.fail("postfix decrement");
	if (m > 1 ? less.mantissa() != M(m - 1) || less.exponent() != e : m == 1 && (less.mantissa() != 1 || less.exponent() != e - 1)) x.fail("decrement yields %llu * 2^%d", (unsigned long long)less.mantissa(), int(less.exponent()));
	x.trace(); x.outcome(3);
}
template<typename F> static void product(mc::Ctx& x)
{
	typedef typename T<F>::M M; const M a = M(x.c.a), b = M(x.c.b);
	x.beat(); x.state();
	floaxie::diy_fp<F> p(a, 3); p *= floaxie::diy_fp<F>(b, -5); const auto q = floaxie::diy_fp<F>(a, 3) * floaxie::diy_fp<F>(b, -5);
	x.step(2); x.state(); x.trace();
	if (p != q) x.fail("*= and * differ");
	if (p.exponent() != T<F>::W - 2) x.fail("exponent %d of the product", int(p.exponent()));
	// |p * 2^W - a*b| <= 2^W: at most a unit of the least significant bit
	const u128 exact = u128(a) * b, got = u128(p.mantissa()) << T<F>::W; const u128 diff = exact > got ? exact - got : got - exact;
	if (diff > (u128(1) << T<F>::W)) x.fail("error of the product exceeds a unit: %llu", (unsigned long long)(diff >> T<F>::W));
	x.outcome(4);
}
// the value m*2^e as a number: equal iff the pairs agree after removing trailing zeros
static void reduce(u128& m, long& e) { if (!m) { e = 0; return; } while (!(m & 1)) { m >>= 1; ++e; } }
static bool same(u128 m, long e, u128 n, long f) { reduce(m, e); reduce(n, f); return m == n && e == f; }
// nearest pattern of any m*2^e, m of up to 100 bits
template<typename F> static typename ref::fmt<F>::U nearest_any(u128 m, int e)
{
	if (!m) return 0;
	bool low = false; int bits = 0; for (u128 t = m; t; t >>= 1) ++bits;
	while (bits < T<F>::W) { m <<= 1; --e; ++bits; }
	while (bits > T<F>::W) { low = low || (m & 1); m >>= 1; ++e; --bits; }
	if (low) m |= 1;   // W > P + 2, so the lost bits only matter as being there
	typename ref::fmt<F>::U u; bool a, b, c; nearest<F>(typename T<F>::M(m), e, u, a, b, c); return u;
}
// halfway points to both neighbours, brought to one exponent
template<typename F, typename D = floaxie::diy_fp<F>> static auto limits_of(F v, std::pair<D, D>& out, int) -> decltype(D::boundaries(v), bool()) { out = D::boundaries(v); return true; }
template<typename F, typename D = floaxie::diy_fp<F>> static bool limits_of(F, std::pair<D, D>&, long) { return false; }
template<typename F> static void halfway(mc::Ctx& x)
{
	typedef typename ref::fmt<F>::U U; const U u = U(x.c.a); const F v = ref::from_bits<F>(u);
	x.beat(); x.state();
	std::pair<floaxie::diy_fp<F>, floaxie::diy_fp<F>> r(floaxie::diy_fp<F>(0, 0), floaxie::diy_fp<F>(0, 0));
	if (!limits_of<F>(v, r, 0)) return;
	x.step(); x.state(); x.trace();
	uint64_t m; long e; exact::split<F>(u, m, e);
	const bool lower_binade = !(u & ((U(1) << ref::fmt<F>::mb) - 1)) && (u >> ref::fmt<F>::mb) > 1;
	if (r.first.exponent() != r.second.exponent()) x.fail("exponents %d and %d of the boundaries differ", int(r.first.exponent()), int(r.second.exponent()));
	if (!(r.second.mantissa() >> (T<F>::W - 1))) x.fail("upper boundary isn't normalized");
	if (!same(r.second.mantissa(), r.second.exponent(), u128(m) * 2 + 1, e - 1)) x.fail("upper boundary %llu * 2^%d", (unsigned long long)r.second.mantissa(), int(r.second.exponent()));
	// the documentation only asks for the values between the boundaries to be rounded to the value: the least
	// normalized one may be treated as the other powers of two
	const bool least = u == U(1) << ref::fmt<F>::mb;
	if (least && same(r.first.mantissa(), r.first.exponent(), u128(m) * 4 - 1, e - 2)) { x.outcome(5); return; }
	if (!(lower_binade ? same(r.first.mantissa(), r.first.exponent(), u128(m) * 4 - 1, e - 2) : same(r.first.mantissa(), r.first.exponent(), u128(m) * 2 - 1, e - 1))) x.fail("lower boundary %llu * 2^%d", (unsigned long long)r.first.mantissa(), int(r.first.exponent()));
	x.outcome(5);
}
template<typename F> static void shifts(mc::Ctx& x)
{
	typedef typename T<F>::M M; const M m = M(x.c.a), n = M(x.c.b);
	x.beat(); x.state();
	floaxie::diy_fp<F> d(m, -7); d.normalize(); x.step(); x.state();
	if (!(d.mantissa() >> (T<F>::W - 1)) || !d.is_normalized()) x.fail("isn't normalized: %llu", (unsigned long long)d.mantissa());
	if (!same(d.mantissa(), d.exponent(), m, -7)) x.fail("normalization changed the value to %llu * 2^%d", (unsigned long long)d.mantissa(), int(d.exponent()));
	const M big = std::max(m, n), little = std::min(m, n);
	floaxie::diy_fp<F> p(big, -7); p -= floaxie::diy_fp<F>(little, -7); const auto q = floaxie::diy_fp<F>(big, -7) - floaxie::diy_fp<F>(little, -7);
	x.step(2); x.state(); x.trace();
	if (p.mantissa() != M(big - little) || p.exponent() != -7 || q != p || !(q == p)) x.fail("difference");
	if (m != n && (floaxie::diy_fp<F>(m, 1) == floaxie::diy_fp<F>(n, 1) || !(floaxie::diy_fp<F>(m, 1) != floaxie::diy_fp<F>(n, 1)))) x.fail("different mantissas are equal");
	if (floaxie::diy_fp<F>(m, 1) == floaxie::diy_fp<F>(m, 2) || !(floaxie::diy_fp<F>(m, 1) != floaxie::diy_fp<F>(m, 2))) x.fail("different exponents are equal");
	x.outcome(6);
}
// narrowing of a number known up to an error: if it's reported accurate, every number within the error narrows to the same
template<typename D> static auto narrow_within(D d, typename D::mantissa_storage_type error, typename D::downsample_result& r, int) -> decltype(d.downsample(error), bool()) { r = d.downsample(error); return true; }
template<typename D> static bool narrow_within(D, typename D::mantissa_storage_type, typename D::downsample_result&, long) { return false; }
template<typename F> static void uncertain(mc::Ctx& x)
{
	typedef typename T<F>::M M; const M m = M(x.c.a), error = M(x.c.b >> 32); const int e = int(int32_t(uint32_t(x.c.b)));
	x.beat(); x.state();
	typename floaxie::diy_fp<F>::downsample_result r;
	if (!narrow_within(floaxie::diy_fp<F>(m, e), error, r, 0)) return;
	x.step(); x.state(); x.trace();
	if (!r.is_accurate) { x.outcome(8); return; }
	const auto low = nearest_any<F>(u128(m) - error, e), high = nearest_any<F>(u128(m) + error, e);
	if (low != high || ref::bits<F>(r.value) != low) x.fail("narrowed to 0x%llx as certain, but the error allows for 0x%llx to 0x%llx", (unsigned long long)ref::bits<F>(r.value), (unsigned long long)low, (unsigned long long)high);
	x.outcome(7);
}
static void one(mc::Ctx& x) { switch (x.c.kind) { case 8: return halfway<double>(x); case 9: return halfway<float>(x); case 10: return shifts<double>(x); case 11: return shifts<float>(x); case 12: return uncertain<double>(x); case 13: return uncertain<float>(x); default: break; } switch (x.c.kind) { case 0: split<double>(x); break; case 1: split<float>(x); break; case 2: narrow<double>(x); break; case 3: narrow<float>(x); break; case 4: incdec<double>(x); break; case 5: incdec<float>(x); break; case 6: product<double>(x); break; default: product<float>(x); } }

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C24"; k.one = one; k.outcome_names = { "split and joined", "narrowed exactly or to nearest", "reported inaccurate", "increment and decrement", "product", "boundaries", "normalized and subtracted", "narrowed within the error", "reported uncertain within the error" };
	k.describe = [](const mc::Case& c) { char b[200]; snprintf(b, sizeof b, "kind %u (%s) a=0x%llx b=%lld", c.kind, c.kind & 1 ? "float" : "double", (unsigned long long)c.a, (long long)c.b); return std::string(b); };
	k.domains.push_back({ "split-double", "every exponent field x mantissa alphabet", 2047, [deep](mc::Ctx& x, uint32_t s) { static const auto ms = gen::mantissas(52, deep ? 14 : 11, deep ? 14 : 11, deep ? 16 : 13); x.c.kind = 0; for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; one(x); } } });
	k.domains.push_back({ "split-float", "all finite non-negative floats", 2040, [](mc::Ctx& x, uint32_t s) { x.c.kind = 1; for (uint32_t i = 0; i < 1u << 20; ++i) { x.c.a = (uint32_t(s) << 20) + i; one(x); } } });
	k.domains.push_back({ "narrow-double", "every exponent in [-1210,980] x normalized 64-bit mantissas (alphabet of 63 lower bits: weights, runs, 12 top, 14 bottom bits, lattice)", 2191, [deep](mc::Ctx& x, uint32_t s) { static const auto ms = gen::mantissas(63, deep ? 13 : 9, deep ? 16 : 12, deep ? 14 : 10); x.c.kind = 2; x.c.b = uint64_t(int64_t(s) - 1210); for (uint64_t m : ms) { x.c.a = m | uint64_t(1) << 63; one(x); } } });
	k.domains.push_back({ "narrow-double-around-ties", "every exponent with subnormal or boundary result x mantissas at distance 0..3 from every tie position for all 2^8 leading patterns", 80, [](mc::Ctx& x, uint32_t s) { x.c.kind = 2; x.c.b = uint64_t(int64_t(s) - 1142); for (uint64_t hi = 128; hi < 256; ++hi) for (int p = 1; p < 60; ++p) for (int64_t d = -3; d <= 3; ++d) for (uint64_t fill = 0; fill < 2; ++fill) { uint64_t m = hi << 56 | uint64_t(1) << (p - 1); if (fill && p < 56) m |= ((uint64_t(1) << 56) - 1) & ~((uint64_t(1) << p) - 1); m += uint64_t(d); if (m >> 63) { x.c.a = m; one(x); } } } });
	k.domains.push_back({ "narrow-float", "every exponent in [-190,110] x all normalized 32-bit mantissas with 2^16 arbitrary bottom bits and 2^16 lattice, for every (thorough) / 64 (quick) top patterns", 301, [deep](mc::Ctx& x, uint32_t s) { static const auto ms = gen::mantissas(31, deep ? 15 : 12, deep ? 18 : 15, deep ? 20 : 16); x.c.kind = 3; x.c.b = uint64_t(int64_t(s) - 190); for (uint64_t m : ms) { x.c.a = m | 0x80000000u; one(x); } } });
	k.domains.push_back({ "increment", "mantissa alphabets incl. 1 and the largest, exponents {-1100, -1, 0, 2, 1000}", 5, [](mc::Ctx& x, uint32_t s) { static const int es[] = { -1100, -1, 0, 2, 1000 }; x.c.b = uint64_t(int64_t(es[s])); for (uint64_t m : gen::mantissas(63, 8, 8, 10)) for (uint64_t top = 0; top < 2; ++top) { x.c.a = m | top << 63; if (x.c.a) { x.c.kind = 4; one(x); } } x.c.a = ~uint64_t(0); x.c.kind = 4; one(x); for (uint64_t m : gen::mantissas(32, 8, 8, 10)) if (m) { x.c.a = m; x.c.kind = 5; one(x); } } });
	k.domains.push_back({ "product", "all pairs of normalized mantissas of an alphabet (weights, runs, top and bottom bits, lattice), 64 and 32 bits", 64, [deep](mc::Ctx& x, uint32_t s) { static const auto a = gen::mantissas(63, 4, 4, deep ? 11 : 7), b = gen::mantissas(31, 6, 6, deep ? 12 : 9); x.c.kind = 6; for (size_t i = s; i < a.size(); i += 64) for (uint64_t m : a) { x.c.a = a[i] | uint64_t(1) << 63; x.c.b = m | uint64_t(1) << 63; one(x); } x.c.kind = 7; for (size_t i = s; i < b.size(); i += 64) for (uint64_t m : b) { x.c.a = b[i] | 0x80000000u; x.c.b = m | 0x80000000u; one(x); } } });
	k.domains.push_back({ "boundaries-double", "every positive finite exponent field x mantissa alphabet", 2047, [](mc::Ctx& x, uint32_t s) { static const auto ms = gen::mantissas(52, 9, 9, 11); x.c.kind = 8; for (uint64_t m : ms) { x.c.a = uint64_t(s) << 52 | m; if (x.c.a) one(x); } } });
	k.domains.push_back({ "boundaries-float", "every positive finite float with one of 2^11 (quick), all (thorough) bottom bits", 2040, [deep](mc::Ctx& x, uint32_t s) { x.c.kind = 9; for (uint32_t i = 0; i < 1u << 20; ++i) { if (!deep && (i & 0x1ff) > 3 && (i & 0x1ff) < 0x1fc) continue; x.c.a = (uint32_t(s) << 20) + i; if (x.c.a) one(x); } } });
	k.domains.push_back({ "normalize-subtract", "all pairs of mantissas of an alphabet (every position of the highest bit), 64 and 32 bits", 64, [deep](mc::Ctx& x, uint32_t s) { static std::vector<uint64_t> a, b; static std::once_flag once; std::call_once(once, [deep] { for (int w : { 64, 32 }) { auto& v = w == 64 ? a : b; for (int i = 0; i < w; ++i) for (uint64_t d = 0; d < (deep ? 9u : 3u); ++d) { const uint64_t t = (uint64_t(1) << i) + (d - 1); if (t && (w == 64 || t >> 32 == 0)) v.push_back(t); } v.push_back(w == 64 ? ~uint64_t(0) : 0xffffffffu); } });
		for (int w = 0; w < 2; ++w) { auto& v = w ? b : a; x.c.kind = uint32_t(10 + w); for (size_t i = s; i < v.size(); i += 64) for (uint64_t n : v) { x.c.a = v[i]; x.c.b = n; one(x); } } } });
	k.domains.push_back({ "narrow-within-error", "every exponent whose result is subnormal, the least or the largest, and some others x mantissas at distance 0..error+3 from every tie position x errors 1, 2, 3, 7, 8, 10, 20 x leading patterns", 140, [deep](mc::Ctx& x, uint32_t s) {
		static const int errors[] = { 1, 2, 3, 7, 8, 10, 20 };
		for (int type = 0; type < 2; ++type) {
			const int w = type ? 32 : 64; int e = type ? (s < 60 ? -190 + int(s) : s < 80 ? -20 + int(s) - 60 : 90 + int(s) - 80) : (s < 90 ? -1145 + int(s) : s < 110 ? -70 + int(s) - 90 : 940 + int(s) - 110);
			x.c.kind = uint32_t(12 + type);
			for (uint64_t hi = deep ? 32 : 8; hi < (deep ? 64u : 16u); ++hi) for (int p = 1; p < w - 6; ++p) for (int err : errors) for (int d = -err - 3; d <= err + 3; ++d) {
				
				for (int up = 0; up < 2; ++up) { uint64_t m = hi << (w - (deep ? 6 : 4)); if (up) { if (p < w - 6) m |= uint64_t(1) << p; else continue; } m += (uint64_t(1) << (p - 1)) + uint64_t(int64_t(d)); if (w == 32) { if (m >> 32) continue; } if (!(m >> (w - 1))) continue; x.c.a = m; x.c.b = uint64_t(err) << 32 | uint32_t(e); one(x); }
			}
			for (int err : errors) for (int d = 0; d <= err + 3; ++d) for (int end = 0; end < 2; ++end) { x.c.a = end ? (w == 64 ? ~uint64_t(0) : 0xffffffffu) - uint64_t(d) : (uint64_t(1) << (w - 1)) + uint64_t(d); x.c.b = uint64_t(err) << 32 | uint32_t(e); one(x); }
		}
	} });
	k.domains.push_back({ "numbers-of-the-source", "numbers named in the headers at the ends of the mantissa x every exponent (splitting, narrowing) and all pairs of them (products, differences)", 2191, [](mc::Ctx& x, uint32_t s) {
		static const auto m52 = lit::mantissas(52), m63 = lit::mantissas(63), m23 = lit::mantissas(23), m31 = lit::mantissas(31);
		if (s < 2047) for (uint64_t m : m52) { x.c.a = uint64_t(s) << 52 | m; x.c.kind = 0; one(x); if (x.c.a) { x.c.kind = 8; one(x); } }
		if (s < 255) for (uint64_t m : m23) { x.c.a = uint64_t(s) << 23 | m; x.c.kind = 1; one(x); if (x.c.a) { x.c.kind = 9; one(x); } }
		for (uint64_t m : m63) { x.c.kind = 2; x.c.a = m | uint64_t(1) << 63; x.c.b = uint64_t(int64_t(s) - 1210); one(x); }
		if (s < 301) for (uint64_t m : m31) { x.c.kind = 3; x.c.a = m | 0x80000000u; x.c.b = uint64_t(int64_t(s) - 190); one(x); }
		for (size_t i = s; i < std::min<size_t>(m63.size(), 3000); i += 2191) for (size_t j = 0; j < std::min<size_t>(m63.size(), 3000); ++j) { x.c.a = m63[i] | uint64_t(1) << 63; x.c.b = m63[j] | uint64_t(1) << 63; x.c.kind = 6; one(x); x.c.kind = 10; one(x); }
		for (size_t i = s; i < std::min<size_t>(m31.size(), 3000); i += 2191) for (size_t j = 0; j < std::min<size_t>(m31.size(), 3000); ++j) { x.c.a = m31[i] | 0x80000000u; x.c.b = m31[j] | 0x80000000u; x.c.kind = 7; one(x); x.c.kind = 11; one(x); }
	} });
	k.assumptions = { "128-bit integer arithmetic of the compiler is the oracle" };
	return k.main(argc, argv);
}

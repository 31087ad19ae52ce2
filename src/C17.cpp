// History independence: a call's result doesn't depend on the calls before it.
#include "mc.h"
#include "ops.h"

// the library as compiled with -O0, -O1 and -O2, called over remains of other things in the memory (C17_remains.cpp)
typedef void remains_call(int fn, uint64_t bits, const char* text, size_t n, int err, unsigned fill, void* out);
extern "C" remains_call remains_O0, remains_O1, remains_O2;
static remains_call* const built[3] = { remains_O0, remains_O1, remains_O2 };
static const unsigned char fills[] = { 0, 1, 2, 3, '0', 0x7f, 0x80, 0xff };

static std::vector<ops::Op> S, L;
static ops::Result *RS, *RL;   // results of the first call in a fresh process
static ops::Bufs* B;

static bool same(const ops::Result& a, const ops::Result& b) { return a == b; }

// text of the case: operation indices, 2 bytes each; c: 0 small, 1 large alphabet; b: 1 - all indices are executed in a freshly forked process
static void play(mc::Ctx& x)
{
	const auto& A = x.c.c ? L : S; const ops::Result* R = x.c.c ? RL : RS;
	const uint32_t n = x.c.len / 2;
	x.state();
	for (uint32_t i = 0; i < n; ++i) {
		const unsigned k = (unsigned char)x.c.text[2 * i] | unsigned((unsigned char)x.c.text[2 * i + 1]) << 8;
		const ops::Result r = ops::run(A[k], *B);
		x.step(); x.state();
		if (!same(r, R[k])) x.fail("operation %u of the sequence, %s: %s; as the first call of a process: %s", i + 1, ops::show(A[k]).c_str(), r.show().c_str(), R[k].show().c_str());
	}
	x.trace();
}
// kind: bit 8 set; the operation's number in the low bits; a: bits of the value, text of the case: text
static void remains(mc::Ctx& x)
{
	const int fn = int(x.c.kind & 255); const unsigned err = unsigned(x.c.b);
	for (int l = 0; l < 3; ++l) {
		ops::Result first;
		for (unsigned char f : fills) {
			ops::Result r; built[l](fn, x.c.a, x.c.text, x.c.len, int(err), f, &r);
			x.step(); x.state();
			if (f == fills[0]) first = r;
			else if (!same(r, first)) x.fail("built with -O%d, memory filled with 0x%02x before the call: %s; with 0x%02x: %s", l, f, r.show().c_str(), fills[0], first.show().c_str());
		}
		x.trace();
	}
}
static void one(mc::Ctx& x)
{
	x.beat();
	if (x.c.kind & 256) { remains(x); return; }
	if (!x.c.b) {
		if (x.c.a > 1) { for (uint64_t i = 0; i < x.c.a; ++i) { if (i % 4096 == 0) x.beat(); play(x); } return; }
		play(x); return;
	}
	pid_t p = fork();
	if (!p) { try { play(x); } catch (mc::Stop&) {} _exit(0); }
	int st; waitpid(p, &st, 0);
	if (!WIFEXITED(st)) x.fail("killed by a signal");
	if (x.sl->failed) throw mc::Stop();
}
static void idx(mc::Case& c, std::initializer_list<unsigned> l) { uint32_t n = 0; for (unsigned k : l) { c.text[n++] = char(k & 255); c.text[n++] = char(k >> 8); } c.len = n; }

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	S = ops::small(); L = ops::large();
	RS = (ops::Result*)mc::Check::shmap(sizeof(ops::Result) * S.size()); RL = (ops::Result*)mc::Check::shmap(sizeof(ops::Result) * L.size()); B = new ops::Bufs();
	// reference: every operation as the very first one of its process
	auto first = [](const std::vector<ops::Op>& A, ops::Result* R) { for (size_t i = 0; i < A.size(); ++i) { pid_t p = fork(); if (!p) { R[i] = ops::run(A[i], *B); _exit(0); } int st; waitpid(p, &st, 0); if (st) { R[i].status = 1000 + st; } } };
	first(S, RS); first(L, RL);
	mc::Check k; k.id = "C17"; k.one = one;
	k.describe = [](const mc::Case& c) { if (c.kind & 256) return ops::show(ops::Op{ int(c.kind & 255), c.a, std::string(c.text, c.len), int(c.b) }); std::string s; const auto& A = c.c ? L : S; for (uint32_t i = 0; i + 1 < c.len; i += 2) { unsigned j = (unsigned char)c.text[i] | unsigned((unsigned char)c.text[i + 1]) << 8; if (j < A.size()) s += (i ? "; " : "") + ops::show(A[j]); } return s; };
	const uint32_t n = uint32_t(S.size()), m = uint32_t(L.size());
	k.domains.push_back({ "fresh-process-triples", "every sequence of 3 operations of the small alphabet, each in its own fresh process", n * n, [n](mc::Ctx& x, uint32_t s) {
		x.c.b = 1; x.c.a = 0; x.c.c = 0;
		for (uint32_t j = 0; j < n; ++j) { idx(x.c, { s / n, s % n, j }); one(x); }
	} });
	k.domains.push_back({ "longer-sequences", "every sequence of 4 (thorough 5) operations of the small alphabet, in one process per worker (arbitrary preceding history)", n * n, [n, deep](mc::Ctx& x, uint32_t s) {
		x.c.b = 0; x.c.a = 0; x.c.c = 0;
		for (uint32_t j = 0; j < n; ++j) for (uint32_t q = 0; q < n; ++q) { if (!deep) { idx(x.c, { s / n, s % n, j, q }); one(x); } else for (uint32_t t = 0; t < n; ++t) { idx(x.c, { s / n, s % n, j, q, t }); one(x); } }
		if (x.want_sample()) x.sample(ops::show(S[s / n]) + "; " + ops::show(S[s % n]) + "; *; *");
	} });
	k.domains.push_back({ "pairs-large", "every ordered pair of the large alphabet (" + std::to_string(m) + " operations with colliding digits, powers, types and buffers), as a;b;a;b", m, [m](mc::Ctx& x, uint32_t s) {
		x.c.b = 0; x.c.a = 0; x.c.c = 1;
		for (uint32_t j = 0; j < m; ++j) { idx(x.c, { s, j, s, j }); one(x); }
	} });
	k.domains.push_back({ "repetitions", "every operation of the small alphabet repeated 70000 (thorough 1100000) times in a row in a fresh process", n, [deep](mc::Ctx& x, uint32_t s) {
		x.c.b = 0; x.c.c = 0; x.c.a = S[s].text.size() > 100 ? (deep ? 70000 : 5000) : deep ? 1100000 : 70000; idx(x.c, { s }); one(x);
	} });
	k.domains.push_back({ "remains-in-memory-operations", "every operation of the large alphabet, with the library built at three optimization levels, and the free stack, the new blocks of the heap and the output buffers filled with each of 8 patterns before the call: the same result with all", 64, [m](mc::Ctx& x, uint32_t s) {
		for (uint32_t j = s; j < m; j += 64) { const ops::Op& o = L[j]; x.c.kind = 256u | unsigned(o.fn); x.c.a = o.bits; x.c.b = uint64_t(o.err); x.c.c = 0; x.c.set(o.text); one(x); }
		x.c.kind = 0;
	} });
	const char* sym = "0159.+-eEinfaxI("; const uint32_t q = uint32_t(std::strlen(sym)); const int longest = deep ? 6 : 5;
	k.domains.push_back({ "remains-in-memory-texts", "the same with every text of up to " + std::to_string(longest) + " characters of " + sym, q * q, [=](mc::Ctx& x, uint32_t s) {
		x.c.a = x.c.b = x.c.c = 0;
		auto put = [&](const std::string& t) { for (unsigned fn = 20; fn < 22; ++fn) { x.c.kind = 256u | fn; x.c.set(t); one(x); } };
		if (s == 0) put("");
		if (s < q) put(std::string(1, sym[s]));
		const std::string t{ sym[s / q], sym[s % q] };
		put(t);
		std::vector<std::string> cur{ t };
		for (int l = 3; l <= longest; ++l) { std::vector<std::string> next; for (auto& u : cur) for (uint32_t i = 0; i < q; ++i) { next.push_back(u + sym[i]); put(next.back()); } cur.swap(next); }
		x.c.kind = 0;
	} });
	k.domains.push_back({ "remains-in-memory-numbers", "the same with digits of 1 to 26 places times every power of ten, every binary exponent with 6 mantissas", 656, [=](mc::Ctx& x, uint32_t s) {
		x.c.a = x.c.b = x.c.c = 0;
		const std::string digits = "98765432101234567890123456";
		for (size_t n : { 1, 2, 9, 10, 15, 16, 17, 18, 19, 20, 21, 22, 23, 26 }) for (unsigned fn = 20; fn < 22; ++fn) { x.c.kind = 256u | fn; x.c.set(digits.substr(0, n) + "e" + std::to_string(int(s) - 345)); one(x); x.c.set("-" + digits.substr(0, 1) + "." + digits.substr(1, n) + "e" + std::to_string(int(s) - 345)); one(x); }
		x.c.set("");
		for (uint32_t e = s; e < 2048; e += 656) for (uint64_t mm : { uint64_t(0), uint64_t(1), uint64_t(0x5555555555555), (uint64_t(1) << 52) - 1, uint64_t(0x999999999999a), uint64_t(1) << 51 }) for (unsigned fn : { 0, 2, 6 }) { x.c.kind = 256u | fn; x.c.a = uint64_t(e) << 52 | mm; one(x); }
		for (uint32_t e = s; e < 512; e += 656) for (uint32_t mm : { 0u, 1u, 0x2aaaaau, 0x7fffffu, 0x4ccccdu, 0x400000u }) for (unsigned fn : { 1, 3 }) { x.c.kind = 256u | fn; x.c.a = e << 23 | mm; one(x); }
		x.c.kind = 0;
	} });
	k.extra = { { "small_alphabet", std::to_string(n) }, { "large_alphabet", std::to_string(m) } };
	k.assumptions = { "the result of a call is its returned value, status, end pointer and text" };
	return k.main(argc, argv);
}

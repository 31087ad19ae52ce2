// Accepted syntax and consumed length: every string over the grammar's alphabet.
#include "parse.h"
#include "lit.h"

static void one(mc::Ctx& x) { one_parse(x, J_VALUE | J_USED | J_STATUS); }

// all strings of exactly `n` characters with the first two given by the shard
static void all(mc::Ctx& x, const char* alpha, int k, int n, uint32_t pre, uint32_t kind)
{
	char* t = x.c.text; x.c.len = uint32_t(n); t[n] = 0; x.c.kind = kind;
	int idx[16] = {};
	for (int i = 0; i < n && i < 2; ++i) { idx[i] = int(pre % uint32_t(k)); pre /= uint32_t(k); t[i] = alpha[idx[i]]; }
	if (pre) return;
	for (int i = 2; i < n; ++i) t[i] = alpha[0];
	for (;;) {
		one(x);
		int i = n - 1; while (i >= 2 && ++idx[i] == k) { idx[i] = 0; t[i] = alpha[0]; --i; }
		if (i < 2) break;
		t[i] = alpha[idx[i]];
	}
}

int main(int argc, char** argv)
{
	const bool deep = mc::Check::thorough();
	mc::Check k; k.id = "C10"; k.one = one; k.describe = describe_parse; k.outcome_names = parse_outcomes();
	static const char full[] = "0159.eE+-nNaiIfFty()x _";  // 23
	static const char numb[] = "019.eE+-x";                 // 9
	static const char nume[] = "07.e+-";                    // 6
	static const char lett[] = "nNaAiIfFtyTY-+.e";          // 16
	const int nf = int(sizeof full) - 1, nn = int(sizeof numb) - 1, ne = int(sizeof nume) - 1, nl = int(sizeof lett) - 1;
	k.domains.push_back({ "full-alphabet", "all strings of length 0..4 (thorough 5) over 23 characters, char and wchar_t, float and double", uint32_t(nf * nf), [=](mc::Ctx& x, uint32_t s) {
		for (int n = 0; n <= (deep ? 5 : 4); ++n) for (uint32_t kd = 0; kd < 4; ++kd) all(x, full, nf, n, s, kd);
		for (uint32_t kd = 0; kd < (deep ? 4u : 1u); ++kd) all(x, full, nf, deep ? 6 : 5, s, kd);
	} });
	k.domains.push_back({ "number-alphabet", "all strings of length up to 9 (thorough 10) over 9 characters for double, 6 for the rest", uint32_t(nn * nn), [=](mc::Ctx& x, uint32_t s) {
		for (int n = 5; n <= (deep ? 10 : 9); ++n) all(x, numb, nn, n, s, 0);
		for (uint32_t kd = 1; kd < 4; ++kd) for (int n = 5; n <= (deep ? 8 : 6); ++n) all(x, numb, nn, n, s, kd);
	} });
	k.domains.push_back({ "number-alphabet-longer", "all strings of length 9, 10 (thorough up to 12) over 6 characters for double", uint32_t(ne * ne), [=](mc::Ctx& x, uint32_t s) {
		for (int n = 9; n <= (deep ? 12 : 10); ++n) all(x, nume, ne, n, s, 0);
	} });
	k.domains.push_back({ "letters", "all strings of length 5 (thorough 6) over 16 characters", uint32_t(nl * nl), [=](mc::Ctx& x, uint32_t s) {
		for (int n = 5; n <= (deep ? 6 : 5); ++n) for (uint32_t kd = 0; kd < 4; ++kd) all(x, lett, nl, n, s, kd);
	} });
	k.domains.push_back({ "one-foreign-character", "every char value 1..255 and every wchar_t value 1..0x2ffff inserted at and substituted for every position of 24 well-formed numbers", 256, [](mc::Ctx& x, uint32_t s) {
		static const char* good[] = { "1", "0", "-1", "+1", "12", "1.5", ".5", "1.", "-.5", "1e5", "1E5", "1e+5", "1e-5", "1.5e10", "-1.5e-10", "0e5", "0.0", "00", "inf", "nan", "-inf", "infinity", "nan(a)", "123456789012345678901234567890" };
		for (const char* g : good) {
			std::string t(g);
			for (size_t at = 0; at <= t.size(); ++at) for (int sub = 0; sub < 2; ++sub) {
				if (sub && at == t.size()) continue;
				if (s) for (uint32_t kd = 0; kd < 2; ++kd) { std::string w = t; if (sub) w[at] = char(s); else w.insert(at, 1, char(s)); x.c.kind = kd; x.c.set(w); one(x); }
				// wide: judged by comparison with the reference on wide strings
				std::wstring w(t.begin(), t.end());
				for (uint32_t hi = 0; hi < 0x300; ++hi) {
					const uint32_t ch = hi << 8 | s; if (!ch) continue;
					std::wstring v = w; if (sub) v[at] = wchar_t(ch); else v.insert(at, 1, wchar_t(ch));
					x.c.kind = 8; x.c.a = ch; x.c.b = at; x.c.c = uint64_t(sub); x.c.set(t);
					x.beat(); x.state(); wchar_t* e = nullptr; const auto r = floaxie::atof<double>(v.c_str(), &e); x.step();
					const auto want = ref::parse<double>(v.c_str()); x.trace();
					if (e != v.c_str() + want.used || !ref::same(r.value, want.value) || int(r.status) != int(want.status)) x.fail("wide character 0x%x %s at %zu of \"%s\": %s, %td consumed, expected %s, %zu", ch, sub ? "substituted" : "inserted", at, g, num<double>(r.value).c_str(), e ? e - v.c_str() : -1, num<double>(want.value).c_str(), want.used);
				}
			}
		}
	} });
	k.domains.push_back(long_domain(deep, one, { 0, 1 }));
	auto base = k.one;
	k.one = [base](mc::Ctx& x) {
		if (x.c.kind != 8) return base(x);
		std::wstring v(x.c.text, x.c.text + x.c.len); if (x.c.c) v[x.c.b] = wchar_t(x.c.a); else v.insert(x.c.b, 1, wchar_t(x.c.a));
		wchar_t* e = nullptr; const auto r = floaxie::atof<double>(v.c_str(), &e); const auto want = ref::parse<double>(v.c_str());
		if (e != v.c_str() + want.used || !ref::same(r.value, want.value) || int(r.status) != int(want.status)) x.fail("wide character 0x%x: %s, %td consumed, expected %s, %zu", unsigned(x.c.a), num<double>(r.value).c_str(), e ? e - v.c_str() : -1, num<double>(want.value).c_str(), want.used);
	};
	k.assumptions = { "C locale" };
	k.domains.push_back(lit::parsing(one, { 0, 1 }));
	k.domains.push_back(lit::powers(one, { 0, 1 }));
	return k.main(argc, argv);
}

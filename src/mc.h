// Bounded exhaustive exploration driver.
//
// A check is a set of finite domains, each split into shards.  A shard
// enumerates cases; a case is a small record which fully determines what is
// executed on the real code and is compared with the reference model by one
// function (`one`).  Shards are executed by a pool of forked workers; the
// current case of each worker lives in shared memory, so that crashes,
// assertion failures and hangs are attributed to the exact case.  A failure is
// replayed in a fresh process before it's reported.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <sstream>
#include <string>
#include <algorithm>
#include <vector>

namespace mc {

constexpr size_t text_max = 6000;

struct Case { // NOLINT
	uint32_t dom = 0;
	uint32_t kind = 0;
	uint64_t a = 0, b = 0, c = 0;
	uint32_t len = 0;
	char text[text_max];
	void set(const char* s, size_t n) { if (n >= text_max) n = text_max - 1; std::memcpy(text, s, n); text[n] = 0; len = uint32_t(n); }
	void set(const std::string& s) { set(s.data(), s.size()); }
};

// texts beyond the size of a case: kind has the bit long_text, and "\1x" stands for `a` times 'x'
constexpr uint32_t long_text = 0x10000;
inline std::string expand(const Case& c)
{
	if (!(c.kind & long_text)) return std::string(c.text, c.len);
	std::string r;
	for (uint32_t i = 0; i < c.len; ++i) if (c.text[i] == 1 && i + 1 < c.len) r.append(size_t(c.a), c.text[++i]); else r += c.text[i];
	return r;
}
// lengths around everything a counter could be limited to
inline std::vector<uint64_t> long_lengths(bool deep)
{
	std::vector<uint64_t> r{ 100, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4096, 8192 };
	for (int d = -6; d <= 6; ++d) for (uint64_t b : { 2048ull, 32768ull, 65536ull }) r.push_back(b + uint64_t(int64_t(d)));
	for (int d = -2; d <= 2; ++d) { r.push_back((1u << 17) + uint64_t(int64_t(d))); r.push_back((1u << 20) + uint64_t(int64_t(d))); }
	if (deep) for (uint64_t b : { 1ull << 18, 1ull << 19, 1ull << 21, 1ull << 22, 1ull << 23, 1ull << 24 }) for (int d = -1; d <= 1; ++d) r.push_back(b + uint64_t(int64_t(d)));
	return r;
}

struct Slot {
	volatile uint64_t beat;
	volatile int busy;          // 1 while a shard is in progress
	volatile uint32_t dom, shard;
	uint64_t states, transitions, traces, evals;
	uint64_t outcome[32];
	Case cur;
	volatile int failed;
	Case fail_case;
	char fail_msg[2048];
	uint32_t nknown;
	uint64_t known_bits[4];     // known findings hit
};

struct Shared {
	std::atomic<uint64_t> next;
	std::atomic<int> stop;
	std::atomic<uint32_t> nsamples;
	char samples[48][512];
	std::atomic<uint32_t> dom_samples[256];
	std::atomic<uint64_t> dom_cases[256];
	std::atomic<uint32_t> dom_done[256];
};

struct Stop {};

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + 1e-9 * double(t.tv_nsec); }

inline std::string escape(const std::string& s)
{
	std::string r; char b[8];
	for (unsigned char c : s) if (c < 32 || c > 126 || c == '\\' || c == '"') { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += char(c);
	return r;
}

inline std::string json(const std::string& s)
{
	std::string r = "\""; char b[8];
	for (unsigned char c : s) if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else r += char(c);
	return r + "\"";
}

struct Ctx {
	Shared* sh; Slot* sl; const std::vector<std::string>* known;
	Case& c;
	bool replaying = false;
	uint64_t first_beat = 0;
	Ctx(Shared* sh, Slot* sl, const std::vector<std::string>* k) : sh(sh), sl(sl), known(k), c(sl->cur) {}

	// called once per case, before anything of it is executed
	void beat() { sl->beat = sl->beat + 1; sl->evals++; if ((sl->evals & 255) == 0 && sh->stop.load(std::memory_order_relaxed) && !replaying) throw Stop(); }
	void state(uint64_t n = 1) { sl->states += n; }
	void step(uint64_t n = 1) { sl->transitions += n; }
	void trace(uint64_t n = 1) { sl->traces += n; }
	void outcome(unsigned k) { sl->outcome[k & 31]++; }

	bool want_sample() const { return !replaying && sh->dom_samples[sl->dom & 255].load(std::memory_order_relaxed) < 2; }
	void sample(const std::string& s)
	{
		if (!want_sample()) return;
		if (sh->dom_samples[sl->dom & 255].fetch_add(1) >= 2) return;
		uint32_t i = sh->nsamples.fetch_add(1);
		if (i < 48) snprintf(sh->samples[i], sizeof sh->samples[i], "%s", s.c_str());
	}

	// a violation; `key` identifies the failing input for the known findings
	void fail_key(const std::string& key, const std::string& msg)
	{
		for (size_t i = 0; known && i < known->size(); ++i)
			if ((*known)[i] == key) { sl->known_bits[(i / 64) & 3] |= uint64_t(1) << (i % 64); return; }
		fail_now(msg + (key.empty() ? "" : " [key " + key + "]"));
	}
	void fail_now(const std::string& msg)
	{
		if (!sl->failed) {
			sl->fail_case = sl->cur;
			snprintf(sl->fail_msg, sizeof sl->fail_msg, "%s", msg.c_str());
			__sync_synchronize();
			sl->failed = 1;
		}
		sh->stop.store(1);
		throw Stop();
	}
	void fail(const char* f, ...) __attribute__((format(printf, 2, 3)))
	{
		char b[1800]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
		fail_now(b);
	}
};

struct Domain {
	std::string name;
	std::string bound;    // what exactly is enumerated
	uint32_t shards;
	std::function<void(Ctx&, uint32_t)> run;
	bool thorough_only = false;
};

struct Check {
	std::string id;
	std::string level = "model_checking";
	std::vector<Domain> domains;
	std::function<void(Ctx&)> one;                            // executes and judges the case in ctx.c
	std::function<std::string(const Case&)> describe;          // human readable case
	std::vector<std::string> outcome_names;
	std::vector<std::string> assumptions;
	std::vector<std::pair<std::string, std::string>> extra;    // extra coverage key -> raw json
	std::function<std::string(const uint64_t*, bool)> finish;      // judges totals; returns a message if violated
	double hang_s = 20;
	double quick_cap_s = 780;
	unsigned workers = 8;
	bool quiet_stderr = true;

	static std::string verif() { const char* v = getenv("VERIF_DIR"); return v ? v : "/verif"; }
	static bool thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t, "thorough"); }

	std::vector<std::string> load_known(std::vector<std::string>& what) const
	{
		std::vector<std::string> keys;
		std::ifstream f(verif() + "/known_findings.txt");
		std::string line, pre = "finding: property=" + id + " key=";
		while (std::getline(f, line)) if (line.compare(0, pre.size(), pre) == 0) {
			std::string rest = line.substr(pre.size()); size_t sp = rest.find(' ');
			keys.push_back(rest.substr(0, sp)); what.push_back(sp == std::string::npos ? "" : rest.substr(sp + 1));
		}
		return keys;
	}

	std::string show(const Case& c) const { if (describe) return describe(c); std::ostringstream o; o << "kind=" << c.kind << " a=" << c.a << " b=" << c.b << " c=" << c.c << " text=\"" << escape(std::string(c.text, c.len)) << "\""; return o.str(); }

	void write_replay(const std::string& path, const Case& c, uint32_t shard, const std::string& mode, const std::string& msg) const
	{
		FILE* f = fopen(path.c_str(), "w"); if (!f) return;
		fprintf(f, "property %s\nmode %s\ndomain %u %s\nshard %u\nkind %u\na %llu\nb %llu\nc %llu\nlen %u\ntexthex ", id.c_str(), mode.c_str(), c.dom, domains.size() > c.dom ? domains[c.dom].name.c_str() : "?", shard, c.kind, (unsigned long long)c.a, (unsigned long long)c.b, (unsigned long long)c.c, c.len);
		for (uint32_t i = 0; i < c.len; ++i) fprintf(f, "%02x", (unsigned char)c.text[i]);
		fprintf(f, "\n# %s\n# %s\n# replay: bin/check %s --replay %s\n", escape(show(c)).c_str(), escape(msg).c_str(), id.c_str(), path.c_str());
		fclose(f);
	}

	static bool read_replay(const std::string& path, Case& c, uint32_t& shard, std::string& mode)
	{
		std::ifstream f(path); if (!f) return false; std::string line;
		while (std::getline(f, line)) { std::istringstream is(line); std::string k; is >> k;
			if (k == "mode") is >> mode; else if (k == "domain") is >> c.dom; else if (k == "shard") is >> shard; else if (k == "kind") is >> c.kind; else if (k == "a") is >> c.a; else if (k == "b") is >> c.b; else if (k == "c") is >> c.c;
			else if (k == "len") is >> c.len; else if (k == "texthex") { std::string h; is >> h; for (size_t i = 0; i + 1 < h.size(); i += 2) c.text[i / 2] = char(strtol(h.substr(i, 2).c_str(), nullptr, 16)); c.text[h.size() / 2] = 0; } }
		return true;
	}

	static void* shmap(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(3); } return p; }

	void child_setup() const
	{
		rlimit r{0, 0}; setrlimit(RLIMIT_CORE, &r);
		if (quiet_stderr) { FILE* f = freopen("/dev/null", "w", stderr); (void)f; }
		for (int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL }) signal(s, SIG_DFL);
	}

	void run_shard(Ctx& ctx, uint32_t d, uint32_t s) const
	{
		ctx.sl->dom = d; ctx.sl->shard = s; ctx.sl->cur = Case(); ctx.sl->cur.dom = d; ctx.sl->cur.len = 0; ctx.sl->cur.text[0] = 0;
		try { domains[d].run(ctx, s); } catch (Stop&) {}
	}

	// executes one case (or shard) in a fresh process; returns true if it fails, fills msg
	bool isolated(const Case& c, uint32_t shard, bool whole, double limit, const std::vector<std::string>& known, std::string& msg, Case* failing = nullptr) const
	{
		Shared* sh = (Shared*)shmap(sizeof(Shared)); Slot* sl = (Slot*)shmap(sizeof(Slot));
		pid_t p = fork();
		if (!p) {
			child_setup();
			Ctx ctx(sh, sl, &known); ctx.replaying = true;
			sl->cur = c;
			if (whole) run_shard(ctx, c.dom, shard);
			else { sl->dom = c.dom; try { one(ctx); } catch (Stop&) {} }
			_exit(sl->failed ? 9 : 0);
		}
		double t0 = now(); int st = 0; bool killed = false; uint64_t last = 0; double tb = t0;
		for (;;) {
			pid_t r = waitpid(p, &st, WNOHANG);
			if (r == p) break;
			if (sl->beat != last) { last = sl->beat; tb = now(); }
			if (now() - tb > limit) { kill(p, SIGKILL); killed = true; waitpid(p, &st, 0); break; }
			usleep(2000);
		}
		bool bad = false;
		if (killed) { msg = "doesn't terminate"; bad = true; }
		else if (sl->failed) { msg = sl->fail_msg; bad = true; }
		else if (WIFSIGNALED(st)) { msg = std::string("killed by signal ") + strsignal(WTERMSIG(st)); bad = true; }
		else if (WEXITSTATUS(st)) { msg = "unexpected exit of the process, code " + std::to_string(WEXITSTATUS(st)); bad = true; }
		if (failing) *failing = sl->failed ? sl->fail_case : sl->cur;
		munmap(sh, sizeof(Shared)); munmap(sl, sizeof(Slot));
		return bad;
	}

	int main(int argc, char** argv)
	{
		std::vector<std::string> what; const std::vector<std::string> known = load_known(what);
		setvbuf(stdout, nullptr, _IOLBF, 0);
		if (argc >= 3 && !strcmp(argv[1], "--replay")) {
			Case c; uint32_t shard = 0; std::string mode = "case", msg;
			c.text[0] = 0;
			if (!read_replay(argv[2], c, shard, mode)) { printf("can't read %s\n", argv[2]); return 2; }
			bool bad = isolated(c, shard, mode == "shard", 30, known, msg);
			printf("%s: %s\n", show(c).c_str(), bad ? msg.c_str() : "holds");
			if (bad) printf("VIOLATION property=%s replay=%s\n", id.c_str(), argv[2]);
			return bad;
		}

		const bool deep = thorough();
		const double t0 = now();
		const double cap = getenv("MC_CAP_S") ? atof(getenv("MC_CAP_S")) : deep ? 3 * 3600.0 : quick_cap_s;
		Shared* sh = (Shared*)shmap(sizeof(Shared));
		Slot* slots = (Slot*)shmap(sizeof(Slot) * workers);
		struct Job { uint32_t d, s; };
		std::vector<Job> jobs;
		const char* only = getenv("MC_ONLY");
		for (uint32_t d = 0; d < domains.size(); ++d) {
			if (domains[d].thorough_only && !deep) continue;
			if (only && domains[d].name.find(only) == std::string::npos) continue;
			for (uint32_t s = 0; s < domains[d].shards; ++s) jobs.push_back({d, s});
		}

		std::vector<pid_t> pid(workers, 0);
		fflush(stdout);
		auto spawn = [&](unsigned w) {
			pid_t p = fork();
			if (p) { pid[w] = p; return; }
			child_setup();
			Ctx ctx(sh, &slots[w], &known);
			for (;;) {
				if (sh->stop.load()) break;
				uint64_t j = sh->next.fetch_add(1);
				if (j >= jobs.size()) break;
				uint64_t before = slots[w].evals;
				slots[w].busy = 1;
				run_shard(ctx, jobs[j].d, jobs[j].s);
				slots[w].busy = 0;
				sh->dom_cases[jobs[j].d & 255].fetch_add(slots[w].evals - before);
				if (slots[w].failed) break;
				if (!sh->stop.load()) sh->dom_done[jobs[j].d & 255].fetch_add(1);
			}
			_exit(0);
		};
		struct Fail { uint32_t d, s; Case c; std::string msg; bool hang, infra; };
		std::vector<Fail> fails;
		for (unsigned w = 0; w < workers; ++w) spawn(w);
		std::vector<uint64_t> last(workers, 0); std::vector<double> tb(workers, now());
		std::vector<bool> killed(workers, false);
		unsigned live = workers; bool capped = false; unsigned retried = 0;
		while (live) {
			for (unsigned w = 0; w < workers; ++w) {
				if (!pid[w]) continue;
				int st = 0; pid_t r = waitpid(pid[w], &st, WNOHANG);
				Slot& sl = slots[w];
				if (r == pid[w]) {
					pid[w] = 0;
					bool crashed = WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
					if (sl.failed) fails.push_back({sl.dom, sl.shard, sl.fail_case, sl.fail_msg, false, false});
					else if (killed[w]) fails.push_back({sl.dom, sl.shard, sl.cur, "doesn't terminate", true, false});
					else if (crashed && sl.busy) {
						bool infra = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
						fails.push_back({sl.dom, sl.shard, sl.cur, WIFSIGNALED(st) ? std::string("killed by signal ") + strsignal(WTERMSIG(st)) : "unexpected exit of the process", false, infra});
						if (!infra) sh->stop.store(1);
					}
					--live;
					continue;
				}
				if (sl.beat != last[w] || !sl.busy) { last[w] = sl.beat; tb[w] = now(); }
				else if (now() - tb[w] > hang_s && !killed[w]) { killed[w] = true; kill(pid[w], SIGKILL); }   // the others go on: the shard is run again alone below
			}
			if (!capped && now() - t0 > cap) { capped = true; sh->stop.store(1); }
			usleep(3000);
		}

		// judge failures: smallest (domain, shard) first, every one is confirmed
		std::string vio_path, vio_msg;
		std::sort(fails.begin(), fails.end(), [](const Fail& x, const Fail& y) { return x.d != y.d ? x.d < y.d : x.s < y.s; });
		for (auto& f : fails) {
			std::string msg; Case fc = f.c; std::string mode = "case";
			bool bad = isolated(f.c, f.s, false, f.hang ? 60 : hang_s, known, msg);
			if (!bad) { bad = isolated(f.c, f.s, true, f.hang ? 60 : hang_s, known, msg, &fc); mode = "shard"; if (bad) fc.dom = f.d; else { ++retried; printf("note: %s, shard %u: %s: %s, which didn't recur\n", domains[f.d].name.c_str(), f.s, show(f.c).c_str(), f.msg.c_str()); } }
			if (!bad && !f.hang && !f.infra) { bad = true; fc = f.c; msg = f.msg + " (observed once, depends on something beyond the case and the shard)"; }
			if (!bad) continue;
			vio_path = verif() + "/build/" + id + ".replay";
			vio_msg = domains[f.d].name + ": " + show(fc) + ": " + msg;
			write_replay(vio_path, fc, f.s, mode, msg);
			break;
		}

		// evidence
		uint64_t states = 0, trans = 0, traces = 0, evals = 0, outc[32] = {}, kb[4] = {};
		for (unsigned w = 0; w < workers; ++w) { states += slots[w].states; trans += slots[w].transitions; traces += slots[w].traces; evals += slots[w].evals; for (int i = 0; i < 32; ++i) outc[i] += slots[w].outcome[i]; for (int i = 0; i < 4; ++i) kb[i] |= slots[w].known_bits[i]; }
		bool complete = !capped && !sh->stop.load();
		if (finish && vio_path.empty()) {
			std::string m = finish(outc, complete);
			if (!m.empty()) { vio_path = verif() + "/build/" + id + ".replay"; vio_msg = m; FILE* f = fopen(vio_path.c_str(), "w"); if (f) { fprintf(f, "property %s\nmode totals\n# %s\n# re-run the whole check to reproduce\n", id.c_str(), m.c_str()); fclose(f); } }
		}
		unsigned nknown = 0;
		for (size_t i = 0; i < known.size(); ++i) if (kb[i / 64] >> (i % 64) & 1) { printf("KNOWN-FINDING: property=%s %s %s\n", id.c_str(), known[i].c_str(), what[i].c_str()); ++nknown; }
		std::ostringstream o;
		o << "{\n \"property\": " << json(id) << ",\n \"tier\": \"" << (deep ? "thorough" : "quick") << "\",\n \"seed\": " << (getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1) << ",\n \"level\": " << json(level) << ",\n \"coverage\": {\n";
		if (level == "model_checking") o << "  \"states\": " << states << ",\n  \"transitions\": " << trans << ",\n  \"traces_validated_against_impl\": " << traces << ",\n";
		else o << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << traces << ",\n  \"rule\": " << json(rule) << ",\n";
		o << "  \"cases\": " << evals << ",\n  \"exhaustive\": " << (complete ? "true" : "false") << ",\n  \"capped\": " << (capped ? "true" : "false") << ",\n  \"domains\": [\n";
		bool firstd = true;
		for (uint32_t d = 0; d < domains.size(); ++d) {
			if (domains[d].thorough_only && !deep) continue;
			o << (firstd ? "" : ",\n") << "   {\"name\": " << json(domains[d].name) << ", \"bound\": " << json(domains[d].bound) << ", \"cases\": " << sh->dom_cases[d & 255].load() << ", \"shards\": " << domains[d].shards << ", \"shards_completed\": " << sh->dom_done[d & 255].load() << "}";
			firstd = false;
		}
		o << "\n  ],\n  \"outcomes\": {";
		bool first = true;
		for (size_t i = 0; i < outcome_names.size() && i < 32; ++i) if (outcome_names[i] != "-") { o << (first ? "" : ", ") << json(outcome_names[i]) << ": " << outc[i]; first = false; }
		o << "},\n  \"known_findings_seen\": " << nknown << ",\n";
		for (auto& e : extra) o << "  " << json(e.first) << ": " << e.second << ",\n";
		o << "  \"samples\": [";
		uint32_t ns = std::min<uint32_t>(48, sh->nsamples.load());
		for (uint32_t i = 0; i < ns; ++i) o << (i ? ", " : "") << "\n   " << json(sh->samples[i]);
		o << "\n  ]\n },\n \"assumptions\": [";
		for (size_t i = 0; i < assumptions.size(); ++i) o << (i ? ", " : "") << json(assumptions[i]);
		o << "],\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << (vio_path.empty() ? 0 : 1) << "\n}\n";
		mkdir((verif() + "/evidence").c_str(), 0777);
		{ std::ofstream f(verif() + "/evidence/" + id + ".json"); f << o.str(); }
		printf("%s: cases=%llu states=%llu transitions=%llu traces=%llu complete=%d capped=%d known=%u wall=%.1fs\n", id.c_str(), (unsigned long long)evals, (unsigned long long)states, (unsigned long long)trans, (unsigned long long)traces, complete, capped, nknown, now() - t0);
		for (size_t i = 0; i < outcome_names.size() && i < 32; ++i) if (outc[i]) printf("  outcome %-28s %llu\n", outcome_names[i].c_str(), (unsigned long long)outc[i]);
		if (!vio_path.empty()) { printf("%s\n", vio_msg.c_str()); printf("VIOLATION property=%s replay=%s\n", id.c_str(), vio_path.c_str()); return 1; }
		if (retried) printf("note: %u event(s) didn't recur when re-run alone (time or memory limits)\n", retried);
		return 0;
	}
	std::string rule = "every enumerated case is executed on the real code; a case is non-trivial when it reaches the judged comparison";
};

} // namespace mc

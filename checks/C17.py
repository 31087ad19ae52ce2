import sys, concurrent.futures
from vlib import *
tag = str(os.getpid())
exe = BUILD + "/C17." + tag
base = ["g++", "-std=c++17", "-g0", "-w", "-pthread"] + INC
what = "the public interface the property is about doesn't compile"
objs = []
def compile(l):
    o = BUILD + "/C17.%s.%s.o" % (l, tag)
    if l == "main":
        must(base + ["-O2", "-c", V + "/src/C17.cpp", "-o", o], "C17", what)
    else:
        must(base + ["-" + l, "-Dfloaxie=floaxie_" + l, "-Dops=ops_" + l, "-Dref=ref_" + l, "-DREMAINS=remains_" + l, "-c", V + "/src/C17_remains.cpp", "-o", o], "C17", what)
    return o
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    objs = list(ex.map(compile, ["main", "O0", "O1", "O2"]))
must(["g++", "-pthread"] + objs + ["-o", exe, "-ldl"], "C17", what)
for o in objs: os.unlink(o)
execute(exe, sys.argv[1:])

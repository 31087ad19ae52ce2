import sys
from vlib import *
tag = str(os.getpid())
ops, rt, exe = BUILD + "/C18.ops.%s.o" % tag, BUILD + "/C18.rt.%s.o" % tag, BUILD + "/C18." + tag
must(["clang++", "-std=c++17", "-O1", "-g0", "-w", "-pthread", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + INC + ["-c", V + "/src/C18_ops.cpp", "-o", ops], "C18", "the public interface the property is about doesn't compile")
rc, out = run(["clang++", "-std=c++17", "-O2", "-g0", "-w", "-pthread"] + INC + ["-c", V + "/src/C18_rt.cpp", "-o", rt])
if rc: print(out); sys.exit(3)
wrap = "memcpy memmove memset memcmp memchr wmemcpy wmemmove wmemset wmemcmp strlen wcslen strcpy strcmp strtod strtof strtold wcstod wcstof wcstold".split()
must(["clang++", "-pthread", "-rdynamic", ops, rt, "-o", exe, "-ldl"] + ["-Wl,--wrap=" + w for w in wrap], "C18", "the program using the library from several threads doesn't link")
os.unlink(ops); os.unlink(rt)
execute(exe, sys.argv[1:])

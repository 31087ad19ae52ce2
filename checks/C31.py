import sys
from vlib import *
tag = str(os.getpid())
ops, rt, exe = BUILD + "/C31.ops.%s.o" % tag, BUILD + "/C31.rt.%s.o" % tag, BUILD + "/C31." + tag
must(["clang++", "-std=c++17", "-O0", "-g0", "-w", "-pthread", "-fsanitize=thread", "-fsanitize-coverage=trace-pc", "-D_GLIBCXX_EXTERN_TEMPLATE=0"] + INC + ["-c", V + "/src/C31_ops.cpp", "-o", ops], "C31", "the public interface the property is about doesn't compile")
rc, out = run(["clang++", "-std=c++17", "-O2", "-g0", "-w", "-pthread", "-fno-builtin"] + INC + ["-c", V + "/src/C31.cpp", "-o", rt])
if rc: print(out); sys.exit(3)
wrap = "memcpy memmove memset memcmp memchr wmemcpy wmemmove wmemset strlen wcslen strnlen strspn strcspn strchr strpbrk wcschr".split()
must(["clang++", "-pthread", "-rdynamic", ops, rt, "-o", exe, "-ldl"] + ["-Wl,--wrap=" + w for w in wrap], "C31", "the program using the library doesn't link")
os.unlink(ops); os.unlink(rt)
execute(exe, sys.argv[1:])

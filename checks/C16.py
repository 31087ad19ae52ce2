import sys
from vlib import *
tag = str(os.getpid())
plain, exe = BUILD + "/C16.plain.%s.o" % tag, BUILD + "/C16." + tag
must(["g++", "-std=c++17", "-O0", "-g0", "-w", "-pthread", "-Dfloaxie=floaxie_plain"] + INC + ["-c", V + "/src/C16_plain.cpp", "-o", plain], "C16", "the public interface the property is about doesn't compile")
must(["g++", "-std=c++17", "-O2", "-g0", "-w", "-pthread", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"] + INC + [V + "/src/C16.cpp", plain, "-o", exe, "-ldl"], "C16", "the public interface the property is about doesn't compile")
os.unlink(plain)
execute(exe, sys.argv[1:])

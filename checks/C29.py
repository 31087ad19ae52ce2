import sys
from vlib import *
# which parts of the (internal) scanner does this tree provide under the known names?
probes = {
    "DIGITS": '#include <floaxie/krosh.h>\ntemplate<typename F,typename C> bool g(const C*s){auto r=floaxie::parse_digits<F>(s);return r.str_end!=s&&r.special==floaxie::speciality::no&&r.special!=floaxie::speciality::nan&&r.special!=floaxie::speciality::inf&&bool(r.sign)&&int(r.K)&&(unsigned long long)(r.value);}bool f(){return g<double>("")|g<float>("")|g<double>(L"")|g<float>(U"");}',
    "MANTISSA": '#include <floaxie/krosh.h>\ntemplate<typename F,typename C> bool g(const C*s){auto r=floaxie::parse_mantissa<F>(s);return r.str_end!=s&&r.special==floaxie::speciality::no&&r.special!=floaxie::speciality::nan&&r.special!=floaxie::speciality::inf&&bool(r.sign)&&int(r.K)&&r.value.mantissa()&&r.value.exponent();}bool f(){return g<double>("")|g<float>("")|g<double>(L"")|g<float>(U"");}',
    "EXPONENT": '#include <floaxie/krosh.h>\ntemplate<typename C> bool g(const C*s){auto r=floaxie::parse_exponent(s);return r.str_end!=s&&int(r.value);}bool f(){return g("")|g(L"")|g(u"");}',
}
flags = []
for name, text in probes.items():
    src = BUILD + "/C29.%d.probe.cpp" % os.getpid()
    open(src, "w").write(text + "\n")
    rc, out = run(["g++", "-std=c++17", "-fsyntax-only", "-w"] + INC + [src])
    os.unlink(src)
    if infrastructure(rc, out):
        print(out[-2000:]); sys.exit(3)
    flags.append("-DHAVE_%s=%d" % (name, rc == 0))
    if rc:
        print("note: %s not provided under the known names, left to the other checks" % name.lower())
exe = BUILD + "/C29.%d" % os.getpid()
must(["g++", "-std=c++17", "-O2", "-g0", "-w", "-pthread"] + flags + INC + [V + "/src/C29.cpp", "-o", exe], "C29", "the check doesn't compile")
execute(exe, sys.argv[1:])

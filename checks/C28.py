import sys
from vlib import *
# which of the (internal) building blocks does this tree provide under the known names?
probes = {
    "POWERS": '#include <floaxie/cached_power.h>\nint f(){auto p=floaxie::cached_power<double>(1);auto q=floaxie::cached_power<float>(1);auto b=floaxie::powers_ten<double>::boundaries;auto c=floaxie::powers_ten<float>::boundaries;return int(p.mantissa()+q.mantissa())+p.exponent()+q.exponent()+int(b.first+c.second);}',
    "SCALE": '#include <floaxie/grisu.h>\n#include <floaxie/cached_power.h>\ntemplate<typename F> int g(int e){constexpr auto p=floaxie::grisu_parameters<F>;return floaxie::k_comp_exp<p.alpha,p.gamma>(e)+int(floaxie::powers_ten<F>::boundaries.first)+floaxie::cached_power<F>(1).exponent();}int f(int e){return g<double>(e)+g<float>(e);}',
    "STATIC": '#include <floaxie/static_pow.h>\nint f(){return int(floaxie::seq_pow<unsigned int,10,4>(3)+floaxie::static_pow<10,3>());}',
    "FRACTION": '#include <floaxie/fraction.h>\nunsigned f(unsigned n){return floaxie::convert_numerator<4,7>(n)+floaxie::convert_numerator<3,7>(n)+floaxie::convert_numerator<2,4>(n)+floaxie::convert_numerator<4,10>(n)+floaxie::convert_numerator<1,3>(n);}',
    "BITS": '#include <floaxie/bit_ops.h>\n#include <cstdint>\ntemplate<typename T> int g(T v){return int(floaxie::nth_bit<T>(v,1))+int(floaxie::highest_bit<T>(v))+int(floaxie::mask<T>(3))+int(floaxie::raised_bit<T>(2));}int f(){return g<std::uint8_t>(1)+g<std::uint16_t>(1)+g<std::uint32_t>(1)+g<std::uint64_t>(1);}',
    "ROUND": '#include <floaxie/bit_ops.h>\n#include <cstdint>\ntemplate<typename T> int g(T v){auto r=floaxie::round_up(v,std::size_t(3));return int(bool(r.value))+int(bool(r.is_accurate));}int f(){return g<std::uint8_t>(1)+g<std::uint16_t>(1)+g<std::uint32_t>(1)+g<std::uint64_t>(1);}',
}
flags = []
for name, text in probes.items():
    src = BUILD + "/C28.%d.probe.cpp" % os.getpid()
    open(src, "w").write(text + "\n")
    rc, out = run(["g++", "-std=c++17", "-fsyntax-only", "-w"] + INC + [src])
    os.unlink(src)
    if infrastructure(rc, out):
        print(out[-2000:]); sys.exit(3)
    flags.append("-DHAVE_%s=%d" % (name, rc == 0))
    if rc:
        print("note: %s not provided under the known names, left to the other checks" % name.lower())
exe = BUILD + "/C28.%d" % os.getpid()
must(["g++", "-std=c++17", "-O2", "-g0", "-w", "-pthread"] + flags + INC + [V + "/src/C28.cpp", "-o", exe], "C28", "the check doesn't compile")
execute(exe, sys.argv[1:])

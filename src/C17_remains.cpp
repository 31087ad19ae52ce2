// The library at one optimization level, in namespaces of its own (-Dfloaxie=... -Dops=... -Dref=...), called with the
// stack below the call and the output buffers filled with remains of something else.
#include "ops.h"
#include <malloc.h>

__attribute__((noinline)) static void dirty(unsigned char c) { unsigned char a[12288]; std::memset(a, c, sizeof a); asm volatile("" : : "r"(a) : "memory"); }

extern "C" void REMAINS(int fn, uint64_t bits, const char* text, size_t n, int err, unsigned fill, void* out)
{
	static ops::Bufs* b = new ops::Bufs();
	const ops::Op o{ fn, bits, std::string(text, n), err };
	std::memset(b->out8, int(fill), sizeof b->out8); std::memset(b->out32, int(fill), sizeof b->out32); std::memset(b->out16, int(fill), sizeof b->out16); std::memset(b->outq, int(fill), sizeof b->outq);
	mallopt(M_PERTURB, int(fill ^ 255));
	dirty((unsigned char)fill);
	const ops::Result r = ops::run(o, *b);
	mallopt(M_PERTURB, 0);
	std::memcpy(out, &r, sizeof r);
}

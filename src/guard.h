// Buffers delimited by inaccessible pages.
#pragma once
#include <sys/mman.h>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cstdio>

struct Guarded {
	unsigned char* base; size_t size;   // accessible part
	explicit Guarded(size_t pages = 1)
	{
		size_t pg = 4096; size = pages * pg;
		unsigned char* p = static_cast<unsigned char*>(mmap(nullptr, size + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		if (p == MAP_FAILED) { perror("mmap"); _exit(5); }
		base = p + pg;
		if (mprotect(base, size, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(5); }
	}
	~Guarded() { munmap(base - 4096, size + 8192); }
	template<typename T> T* at_end(size_t n) const { return reinterpret_cast<T*>(base + size - n * sizeof(T)); }
	template<typename T> T* at_start() const { return reinterpret_cast<T*>(base); }
	void protect(bool ro) { if (mprotect(base, size, ro ? PROT_READ : PROT_READ | PROT_WRITE)) _exit(5); }
};

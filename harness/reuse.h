// Operator new that, when asked, gives small objects the address of the object of that size deleted last,
// as an allocator without a quarantine does. For one source file per program.
#ifndef REUSE_H
#define REUSE_H
#include <atomic>
#include <new>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>

namespace reuse {
static const size_t unit = 16, units = 1 << 16;
alignas(16) static char arena[unit * units];
static void* freed[units]; static size_t freeCount = 0, used = 0; static bool on = false;
static std::atomic_flag lock = ATOMIC_FLAG_INIT;
struct Lock { Lock() { while (lock.test_and_set(std::memory_order_acquire)) {} } ~Lock() { lock.clear(std::memory_order_release); } };
static void* take(size_t n)
{
	if (n == unit && on) { Lock l; if (freeCount) return freed[--freeCount]; if (used < units) return arena + unit * used++; }
	void* p = malloc(n ? n : 1); if (!p) abort(); return p;
}
static void give(void* p)
{
	char* c = static_cast<char*>(p);
	if (c >= arena && c < arena + sizeof arena) { Lock l; freed[freeCount++] = p; } else free(p);
}
}
void* operator new(size_t n) { return reuse::take(n); }
void* operator new[](size_t n) { return reuse::take(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return reuse::take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return reuse::take(n); }
void operator delete(void* p) noexcept { reuse::give(p); }
void operator delete[](void* p) noexcept { reuse::give(p); }
void operator delete(void* p, size_t) noexcept { reuse::give(p); }
void operator delete[](void* p, size_t) noexcept { reuse::give(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { reuse::give(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { reuse::give(p); }
#endif

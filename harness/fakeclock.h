// A monotonic clock that can be moved on. For one source file per program.
#ifndef FAKECLOCK_H
#define FAKECLOCK_H
#include <atomic>
#include <time.h>
#include <unistd.h>
#include <sys/syscall.h>

// The monotonic clock Qt sees: the real one and what a case added to it.
static std::atomic<long long> passed(0); // Milliseconds.
static long long realMs() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec * 1000LL + t.tv_nsec / 1000000; }
extern "C" int clock_gettime(clockid_t id, struct timespec* t)
{
	int r = int(syscall(SYS_clock_gettime, id, t));
	if (r == 0 && (id == CLOCK_MONOTONIC || id == CLOCK_MONOTONIC_RAW || id == CLOCK_MONOTONIC_COARSE || id == CLOCK_BOOTTIME)) { long long p = passed; t->tv_sec += p / 1000; t->tv_nsec += (p % 1000) * 1000000; if (t->tv_nsec >= 1000000000) { t->tv_nsec -= 1000000000; ++t->tv_sec; } }
	return r;
}

#endif

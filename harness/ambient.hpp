// Answers of the system the library has no business with: environment, clock, process and machine.
// While `odd` is set on a thread they are arbitrary ones. Plain builds only.
#pragma once
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <sched.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/types.h>
#include <unistd.h>
namespace ambient {
inline thread_local bool odd = false;
inline thread_local unsigned long seed = 0;
inline thread_local long asked = 0;      // questions answered while odd
inline unsigned long next() { asked++; seed = seed * 6364136223846793005ul + 1442695040888963407ul; return seed >> 20; }
struct Odd {
	explicit Odd(unsigned long s) { seed = s; odd = true; }
	~Odd() { odd = false; }
};
}
#ifdef MON_ALLOC
extern "C" {
char *getenv(const char *name) noexcept {
	static char v[][20] = {"1", "0", "", "true", "/tmp", "debug", "ffffffffffffffff", "C", "2", "yes", "-1"};
	if (ambient::odd) return v[ambient::next() % 11];
	const size_t n = std::strlen(name);
	for (char **e = environ; e && *e; e++) if (!std::strncmp(*e, name, n) && (*e)[n] == '=') return *e + n + 1;
	return nullptr;
}
char *secure_getenv(const char *name) noexcept { return getenv(name); }
int clock_gettime(clockid_t c, struct timespec *t) noexcept {
	if (!ambient::odd) return int(syscall(SYS_clock_gettime, c, t));
	t->tv_sec = time_t(ambient::next() % 5000000000ul); t->tv_nsec = long(ambient::next() % 1000000000ul);
	return 0;
}
int gettimeofday(struct timeval *t, void *) noexcept {
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	t->tv_sec = s.tv_sec; t->tv_usec = s.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *p) noexcept {
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (p) *p = s.tv_sec;
	return s.tv_sec;
}
clock_t clock(void) noexcept {
	struct timespec s;
	clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &s);
	return clock_t(s.tv_sec * 1000000 + s.tv_nsec / 1000);
}
pid_t getpid(void) noexcept { return ambient::odd ? pid_t(1 + ambient::next() % 4000000) : pid_t(syscall(SYS_getpid)); }
uid_t getuid(void) noexcept { return ambient::odd ? uid_t(ambient::next() % 3 * 1000) : uid_t(syscall(SYS_getuid)); }
uid_t geteuid(void) noexcept { return ambient::odd ? uid_t(ambient::next() % 3 * 1000) : uid_t(syscall(SYS_geteuid)); }
int sched_getcpu(void) noexcept { if (ambient::odd) return int(ambient::next() % 64); unsigned c = 0; syscall(SYS_getcpu, &c, nullptr, nullptr); return int(c); }
int get_nprocs(void) noexcept { return ambient::odd ? int(1 + ambient::next() % 64) : 8; }
}
#endif

// The surroundings of the system under test: clocks, timers, random numbers, process ids and the
// settings it inherits (default ICU locale, C locale, environment variables).  Code under test sees
// a simulated clock that jumps, forwards and backwards, at every look, and simulated random numbers
// and ids; all follow from the run's seed and differ between a run and its reference answers.
#include "engine.h"
#include <clocale>
#include <cstdlib>
#include <dlfcn.h>
#include <errno.h>
#include <sys/random.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>
#include <unicode/locid.h>
#include <unicode/uloc.h>

static uint64_t amb = 88172645463325252ull; static int64_t simnow = 1700000000ll * 1000000000ll;
static uint64_t draw() { amb ^= amb << 13; amb ^= amb >> 7; amb ^= amb << 17; return amb; }
static int64_t tick() {             // nanoseconds
    uint64_t x = draw();
    if (x % 16 == 0) simnow = (int64_t)(x >> 8) % (4000000000ll) * 1000000000ll + (int64_t)(x % 1000000000);       // a jump anywhere
    else if (x % 16 == 1) simnow -= (int64_t)((x >> 8) % 90000000000ull);
    else simnow += (int64_t)((x >> 8) % 3000000000ull);
    if (simnow < 0) simnow = 1;
    if (R) R->count[C_CLOCK]++;
    return simnow;
}
static int64_t mono = 0; static pid_t pid = 4711;
static int64_t mtick() { uint64_t x = draw(); mono += (int64_t)((x >> 8) % (x % 16 ? 3000000000ull : 90000000000000ull)); if (R) R->count[C_CLOCK]++; return mono; }     // never goes back
void ambient_seed(uint64_t s) { amb = mix64(s, 0xc10c) | 1; for (int i = 0; i < 8; ++i) draw(); simnow = (int64_t)(draw() % 4000000000ull) * 1000000000ll; mono = (int64_t)(draw() % 4000000ull) * 1000000000ll; pid = (pid_t)(2 + draw() % 4000000); }

void warm_regex();
// what a host program or a database cluster may have set before the library is used
void ambient_set(int k) {
    static const char *const names[] = {"", "tr_TR", "az_AZ", "lt_LT", "el_GR", "de_DE", "en_US_POSIX"};
    if (!k) return;
    int l = k % 7, c = k / 7 % 3;
    if (l) {
        setenv("LANG", (std::string(names[l]) + ".UTF-8").c_str(), 1); setenv("LC_ALL", (std::string(names[l]) + ".UTF-8").c_str(), 1);
        UErrorCode e = U_ZERO_ERROR; uloc_setDefault(names[l], &e); warm_regex();
    }
    if (c == 1) setlocale(LC_ALL, "C.UTF-8"); else if (c == 2) setlocale(LC_CTYPE, "C.UTF-8");
    static const char *const zones[] = {"UTC", "Asia/Kathmandu", "America/St_Johns"};
    setenv("TZ", zones[k % 3], 1); if (k % 5 == 0) { setenv("HOME", "/nonexistent", 1); setenv("TMPDIR", "/nonexistent", 1); unsetenv("PATH"); }
    R->count[C_AMBIENT]++;
}

extern "C" {
int clock_gettime(clockid_t c, struct timespec *t) noexcept {
    if (!sim_sut_depth) return (int)syscall(SYS_clock_gettime, c, t);
    int64_t n = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE ? tick() : mtick(); t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0;
}
int gettimeofday(struct timeval *t, void *z) noexcept {
    if (!sim_sut_depth) { struct timespec ts; long r = syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if (t) { t->tv_sec = ts.tv_sec; t->tv_usec = ts.tv_nsec / 1000; } return (int)r; }
    int64_t n = tick(); if (t) { t->tv_sec = n / 1000000000; t->tv_usec = n / 1000 % 1000000; } return 0;
}
time_t time(time_t *p) noexcept {
    time_t v;
    if (!sim_sut_depth) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; } else v = (time_t)(tick() / 1000000000);
    if (p) *p = v;
    return v;
}
int timespec_get(struct timespec *t, int b) noexcept { clock_gettime(CLOCK_REALTIME, t); return b; }
clock_t clock(void) noexcept { if (!sim_sut_depth) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts); return ts.tv_sec * 1000000 + ts.tv_nsec / 1000; } return (clock_t)(mtick() / 1000); }
clock_t times(struct tms *t) noexcept { if (!sim_sut_depth) return (clock_t)syscall(SYS_times, t); int64_t n = mtick() / 10000000; if (t) t->tms_utime = t->tms_stime = t->tms_cutime = t->tms_cstime = (clock_t)n; return (clock_t)n; }
int nanosleep(const struct timespec *t, struct timespec *) { if (!sim_sut_depth) return (int)syscall(SYS_nanosleep, t, nullptr); simnow += t->tv_sec * 1000000000ll + t->tv_nsec; mono += t->tv_sec * 1000000000ll + t->tv_nsec; return 0; }
int clock_nanosleep(clockid_t c, int f, const struct timespec *t, struct timespec *r) { if (!sim_sut_depth) return (int)syscall(SYS_clock_nanosleep, c, f, t, r); if (!f) simnow += t->tv_sec * 1000000000ll + t->tv_nsec; mono += t->tv_sec * 1000000000ll + t->tv_nsec; return 0; }
int usleep(useconds_t u) { if (!sim_sut_depth) { struct timespec t = {u / 1000000, (long)(u % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &t, nullptr); } simnow += (int64_t)u * 1000; mono += (int64_t)u * 1000; return 0; }
unsigned sleep(unsigned s) { if (!sim_sut_depth) { struct timespec t = {s, 0}; syscall(SYS_nanosleep, &t, nullptr); return 0; } simnow += (int64_t)s * 1000000000ll; mono += (int64_t)s * 1000000000ll; return 0; }
pid_t getpid(void) noexcept { if (!sim_sut_depth) return (pid_t)syscall(SYS_getpid); return pid; }
int rand(void) noexcept { return (int)(draw() >> 33); }
long random(void) noexcept { return (long)(draw() >> 33); }
void srand(unsigned s) noexcept { if (s) amb ^= mix64(s, 3), amb |= 1; }
void srandom(unsigned s) noexcept { srand(s); }
ssize_t getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; ++i) ((unsigned char*)b)[i] = (unsigned char)(draw() >> 20); return (ssize_t)n; }
int getentropy(void *b, size_t n) { getrandom(b, n, 0); return 0; }
uint32_t arc4random(void) noexcept { return (uint32_t)(draw() >> 20); }
}

// std::hash of strings: few values, the same in every process, as whoever uses a hash must cope with collisions
namespace std {
size_t _Hash_bytes(const void *p, size_t n, size_t) { uint64_t h = 1469598103934665603ull; for (auto b = (const unsigned char*)p; n--; ++b) h = (h ^ *b) * 1099511628211ull; return (size_t)((h >> 20 & 31) * 0x0101010101010101ull); }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t s) { return _Hash_bytes(p, n, s); }
}

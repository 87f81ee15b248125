// Time for the programs under test: sleeps are shortened, and the calendar clock jumps ahead.
//   FAST_DIV=n        sleeps take 1/n of their time
//   DELAY_US=n        operations on mutexes and messages are delayed, one in four by up to n microseconds
//   CLOCK_JUMP=s      each reading of the calendar clock is s seconds (a number, may be fractional) later than it would be
#include <dlfcn.h>
#include <pthread.h>
#include <stdlib.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

static double env(const char * name, double d) { const char * s = getenv(name); return s ? atof(s) : d; }
static double divisor() { static double d = env("FAST_DIV", 1); return d; }
static double jump() { static double j = env("CLOCK_JUMP", 0); return j; }
static std::atomic<long long> readings(0);

static timespec shorten(const timespec * t)
{
  double s = (t->tv_sec + 1e-9*t->tv_nsec) / divisor();
  timespec r; r.tv_sec = (time_t)s; r.tv_nsec = (long)((s - (double)r.tv_sec)*1e9);
  return r;
}
extern "C" int nanosleep(const timespec * req, timespec * rem)
{
  static auto real = (int (*)(const timespec *, timespec *))dlsym(RTLD_NEXT, "nanosleep");
  timespec t = shorten(req); return real(&t, rem);
}
extern "C" int clock_nanosleep(clockid_t clock, int flags, const timespec * req, timespec * rem)
{
  static auto real = (int (*)(clockid_t, int, const timespec *, timespec *))dlsym(RTLD_NEXT, "clock_nanosleep");
  if ( flags ) return real(clock, flags, req, rem);
  timespec t = shorten(req); return real(clock, flags, &t, rem);
}
extern "C" int clock_gettime(clockid_t clock, timespec * t)
{
  static auto real = (int (*)(clockid_t, timespec *))dlsym(RTLD_NEXT, "clock_gettime");
  int rc = real(clock, t);
  if ( clock == CLOCK_REALTIME && jump() != 0 ) {
    double ahead = jump() * (double)++readings;
    t->tv_sec += (time_t)ahead;
  }
  return rc;
}

static __thread unsigned long long rng = 0;
static void delay()
{
  static double us = env("DELAY_US", 0);
  if ( us <= 0 ) return;
  if ( !rng ) rng = (unsigned long long)pthread_self() * 0x9e3779b97f4a7c15ull + getpid();
  rng = rng * 6364136223846793005ull + 1442695040888963407ull;
  if ( (rng >> 40) & 3 ) return;
  static auto real = (int (*)(const timespec *, timespec *))dlsym(RTLD_NEXT, "nanosleep");
  timespec t = { 0, (long)(us * 1000 * (double)((rng >> 20) & 0xffff) / 65536) };
  real(&t, 0);
}
extern "C" int pthread_mutex_lock(pthread_mutex_t * m)
{
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  delay(); return real(m);
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t * m)
{
  static int (*real)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  int rc = real(m); delay(); return rc;
}

// A deterministic scheduler for the threads of a program (LD_PRELOAD).
//
// Only one thread runs at a time.  At every operation on mutexes, condition variables, threads, sleeps and the clock (and
// at some allocations) a seeded policy decides which thread runs next.  Sleeping takes no real time: a virtual clock
// advances.  Ends the program if every thread waits (86), or if it does not end although the schedule has become fair (87),
// or if the running thread makes no progress visible to the scheduler for long (85, inconclusive).
//
//   SCHED_SEED    seed
//   SCHED_MODE    0 random walk; 1 priorities with change points
//   SCHED_SWITCH  random walk: a switch is considered at one of that many points
//   SCHED_SLEEP   a sleeping thread is weighted 1 against that number for each runnable thread
//   SCHED_POINTS  number of change points,  SCHED_SPAN  points within which they lie
//   SCHED_ALLOC   mean number of allocations between scheduling points (0: none)
//   SCHED_JUMP    one of that many readings of the calendar clock is preceded by a jump of more than five minutes (0: none)
//   SCHED_SPURIOUS one of that many decisions wakes a waiting thread spuriously (0: none)
//   SCHED_KILL    the decision at which the program is killed (0: never)
//   SCHED_REPORT  file to which the number of decisions, switches, jumps and spurious wakeups is written at the end
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

extern "C" { void * __libc_malloc(size_t); void __libc_free(void *); void * __libc_calloc(size_t, size_t); void * __libc_realloc(void *, size_t); }

enum State { RUN, MUTEX, COND, SLEEP, JOIN, RW, DONE };
struct Thread {
  State state; const void * on; bool timed, timed_out; int64_t until; uint64_t prio; volatile int go; pthread_t handle; int join;
};
static const int MAXT = 256;
static Thread T[MAXT];
static int nT = 0;
static volatile bool active = false, reported = false;
static __thread int me = -1;
static __thread int quiet = 0;
static int64_t now_ns = 0, base_ns = 0;                 // virtual time since start; start
static uint64_t rng_state;
static volatile uint64_t decisions = 0;
static uint64_t switches = 0, jumps = 0, spurious = 0, change[64], nmb_change = 0, low = 1000000, fair_next = 0;
static long MODE, SWITCH, SLEEPW, ALLOC, JUMP, SPUR, KILL, alloc_left = 0;
static int forks = 0; static bool forked = false;
static const uint64_t FAIR = 300000, LIMIT = 500000;

template<class F> static F real(const char * name) { return (F)dlsym(RTLD_NEXT, name); }
static int (*r_create)(pthread_t *, const pthread_attr_t *, void * (*)(void *), void *);
static int (*r_join)(pthread_t, void **);
static int (*r_trylock)(pthread_mutex_t *);
static int (*r_unlock)(pthread_mutex_t *);
static int (*r_gettime)(clockid_t, timespec *);
static int (*r_tryrd)(pthread_rwlock_t *);
static int (*r_trywr)(pthread_rwlock_t *);
static int (*r_rwunlock)(pthread_rwlock_t *);

static uint64_t rnd()
{
  uint64_t z = (rng_state += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31);
}
static uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
static long env(const char * n, long d) { const char * s = getenv(n); return s ? atol(s) : d; }

static void futex_wait(volatile int * p) { while ( !__atomic_load_n(p, __ATOMIC_ACQUIRE) ) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(p, 0, __ATOMIC_RELEASE); }
static void futex_post(volatile int * p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void report()
{
  if ( reported ) return;
  reported = true;
  const char * f = getenv("SCHED_REPORT");
  if ( !f || forked ) return;
  int fd = open(f, O_WRONLY|O_CREAT|O_TRUNC, 0600);
  char buf[200]; int n = snprintf(buf, sizeof buf, "%llu %llu %llu %llu %d\n", (unsigned long long)decisions, (unsigned long long)switches,
                                  (unsigned long long)jumps, (unsigned long long)spurious, nT);
  if ( fd >= 0 ) { if ( write(fd, buf, n) ) {} close(fd); }
}

static void give_up(int code, const char * what)
{
  char buf[4000]; int n = snprintf(buf, sizeof buf, "SCHEDULER: %s after %llu decisions;", what, (unsigned long long)decisions);
  static const char * names[] = { "runs", "waits for a mutex", "waits for a condition", "sleeps", "joins", "waits for a lock", "ended" };
  for ( int k=0; k<nT && n < 3800; ++k ) n += snprintf(buf+n, sizeof buf-n, " thread %d %s;", k, names[T[k].state]);
  buf[n++] = '\n'; if ( write(2, buf, n) ) {}
  report();
  _exit(code);
}

// the next thread to run; called with the token
static int choose()
{
  ++decisions;
  if ( KILL && (long)decisions == KILL ) { report(); syscall(SYS_kill, syscall(SYS_getpid), 9); while ( true ) {} }
  if ( decisions > LIMIT ) give_up(87, "LIVELOCK: no end under a fair schedule");
  int run[MAXT], sleep[MAXT], cond[MAXT], nr = 0, ns = 0, nc = 0;
  for ( int k=0; k<nT; ++k )
    if ( T[k].state == RUN ) run[nr++] = k;
    else if ( T[k].state == SLEEP || (T[k].state == COND && T[k].timed) ) sleep[ns++] = k;
    else if ( T[k].state == COND ) cond[nc++] = k;

  int next = -1;
  if ( SPUR && nc && below(SPUR) == 0 ) { ++spurious; next = cond[below(nc)]; }
  else if ( nr + ns == 0 ) give_up(86, "DEADLOCK: every thread waits");
  else if ( decisions > FAIR ) {
    for ( int k=0; k<nT; ++k ) {
      int t = (fair_next + k) % nT;
      if ( T[t].state == RUN || T[t].state == SLEEP || (T[t].state == COND && T[t].timed) ) { next = t; break; }
    }
    fair_next = next + 1;
  }
  else if ( MODE == 0 ) {
    if ( T[me].state == RUN && SWITCH > 1 && below(SWITCH) ) next = me;
    else {
      uint64_t w = (uint64_t)nr*SLEEPW + ns, v = below(w);
      next = v < (uint64_t)nr*SLEEPW ? run[v / SLEEPW] : sleep[v - (uint64_t)nr*SLEEPW];
    }
  }
  else {
    for ( uint64_t k=0; k<nmb_change; ++k )
      if ( change[k] == decisions ) {
        if ( below(2) ) T[me].prio = --low;
        else { int t = below(nT); T[t].prio = 2000000 + decisions; }
      }
    for ( int k=0; k<nr; ++k ) if ( next < 0 || T[run[k]].prio > T[next].prio ) next = run[k];
    for ( int k=0; k<ns; ++k ) if ( next < 0 || T[sleep[k]].prio > T[next].prio ) next = sleep[k];
  }
  Thread & t = T[next];
  if ( t.state != RUN ) {
    if ( t.state == SLEEP || t.timed ) { if ( t.until > now_ns ) now_ns = t.until; if ( t.state == COND ) t.timed_out = true; }
    t.state = RUN;
  }
  return next;
}

static void pass()
{
  int next = choose();
  if ( next == me ) return;
  ++switches;
  futex_post(&T[next].go);
  futex_wait(&T[me].go);
}

static bool on() { return active && me >= 0 && !quiet; }
static void point() { if ( on() ) { ++quiet; pass(); --quiet; } }
static void block(State s, const void * p) { T[me].state = s; T[me].on = p; ++quiet; pass(); --quiet; }
static void wake_all(State s, const void * p) { for ( int k=0; k<nT; ++k ) if ( T[k].state == s && T[k].on == p ) T[k].state = RUN; }

static void * watchdog(void *)
{
  quiet = 1;
  uint64_t last = 0; int same = 0;
  while ( true ) {
    timespec t = {0, 250000000}; syscall(SYS_nanosleep, &t, 0);
    uint64_t d = decisions;
    same = d == last ? same+1 : 0; last = d;
    if ( same > 60 ) give_up(85, "no progress visible to the scheduler");
  }
}

static void in_parent() { ++forks; }
static void in_child()
{
  forked = true; rng_state += 1000003ull*(forks + 1);
  bool a = active; active = false; pthread_t w; r_create(&w, 0, watchdog, 0); active = a;
}

__attribute__((constructor)) static void init()
{
  r_create = real<decltype(r_create)>("pthread_create"); r_join = real<decltype(r_join)>("pthread_join");
  r_trylock = real<decltype(r_trylock)>("pthread_mutex_trylock"); r_unlock = real<decltype(r_unlock)>("pthread_mutex_unlock");
  r_gettime = real<decltype(r_gettime)>("clock_gettime");
  r_tryrd = real<decltype(r_tryrd)>("pthread_rwlock_tryrdlock"); r_trywr = real<decltype(r_trywr)>("pthread_rwlock_trywrlock");
  r_rwunlock = real<decltype(r_rwunlock)>("pthread_rwlock_unlock");
  rng_state = env("SCHED_SEED", 1) * 0x2545f4914f6cdd1dull + 88172645463325252ull;
  MODE = env("SCHED_MODE", 0); SWITCH = env("SCHED_SWITCH", 1); SLEEPW = env("SCHED_SLEEP", 4); if ( SLEEPW < 1 ) SLEEPW = 1;
  ALLOC = env("SCHED_ALLOC", 0); JUMP = env("SCHED_JUMP", 0); SPUR = env("SCHED_SPURIOUS", 0); KILL = env("SCHED_KILL", 0);
  nmb_change = env("SCHED_POINTS", 0); if ( nmb_change > 64 ) nmb_change = 64;
  uint64_t span = env("SCHED_SPAN", 1000);
  for ( uint64_t k=0; k<nmb_change; ++k ) change[k] = 1 + below(span);
  alloc_left = ALLOC ? 1 + below(2*ALLOC) : 0;
  timespec t; r_gettime(CLOCK_REALTIME, &t);
  base_ns = t.tv_sec*1000000000ll + t.tv_nsec;
  me = 0; nT = 1; T[0].state = RUN; T[0].prio = 1000000 + below(1000000); T[0].handle = pthread_self();
  pthread_t w; r_create(&w, 0, watchdog, 0);
  pthread_atfork(0, in_parent, in_child);
  active = true;
}
__attribute__((destructor)) static void fini() { if ( me == 0 ) report(); }

struct Start { void * (*f)(void *); void * arg; int id; };
static void * trampoline(void * p)
{
  Start s = *(Start *)p; __libc_free(p);
  quiet = 1; me = s.id;
  futex_wait(&T[me].go);
  quiet = 0;
  void * r = s.f(s.arg);
  quiet = 1;
  T[me].state = DONE;
  wake_all(JOIN, &T[me]);
  int next = choose();
  ++switches;
  futex_post(&T[next].go);
  return r;
}

extern "C" {

int pthread_create(pthread_t * t, const pthread_attr_t * a, void * (*f)(void *), void * arg)
{
  if ( !on() ) { if ( !r_create ) r_create = real<decltype(r_create)>("pthread_create"); return r_create(t, a, f, arg); }
  ++quiet;
  Start * s = (Start *)__libc_malloc(sizeof(Start));
  int id = nT;
  s->f = f; s->arg = arg; s->id = id;
  memset(&T[id], 0, sizeof T[id]); T[id].state = RUN; T[id].prio = 1000000 + below(1000000);
  int rc = r_create(t, a, trampoline, s);
  if ( rc == 0 ) { T[id].handle = *t; ++nT; if ( nT == MAXT ) give_up(85, "too many threads"); }
  --quiet;
  point();
  return rc;
}

int pthread_join(pthread_t t, void ** r)
{
  if ( on() )
    for ( int k=nT-1; k>=0; --k )
      if ( k != me && pthread_equal(T[k].handle, t) ) {
        point();
        while ( T[k].state != DONE ) block(JOIN, &T[k]);
        T[k].handle = 0;
        break;
      }
  ++quiet; int rc = r_join(t, r); --quiet;
  return rc;
}

int pthread_mutex_lock(pthread_mutex_t * m)
{
  if ( !on() ) {                        // before or after the life of a scheduled thread
    if ( !r_trylock ) return 0;
    int rc;
    while ( (rc = r_trylock(m)) == EBUSY && active ) { timespec t = {0, 100000}; syscall(SYS_nanosleep, &t, 0); }
    return rc == EBUSY ? 0 : rc;
  }
  point();
  int rc;
  while ( (rc = r_trylock(m)) == EBUSY ) block(MUTEX, m);
  return rc;
}
int pthread_mutex_trylock(pthread_mutex_t * m)
{
  if ( !r_trylock ) return 0;
  point();
  return r_trylock(m);
}
int pthread_mutex_unlock(pthread_mutex_t * m)
{
  if ( !r_unlock ) return 0;
  int rc = r_unlock(m);
  if ( active ) wake_all(MUTEX, m);
  point();
  return rc;
}

static int cond_wait(pthread_cond_t * c, pthread_mutex_t * m, bool timed, int64_t until)
{
  r_unlock(m); wake_all(MUTEX, m);
  T[me].timed = timed; T[me].timed_out = false; T[me].until = until;
  block(COND, c);
  bool out = T[me].timed_out;
  T[me].timed = T[me].timed_out = false;
  while ( r_trylock(m) == EBUSY ) block(MUTEX, m);
  return out ? ETIMEDOUT : 0;
}
static int64_t virtual_time(clockid_t clock, const timespec * t) { return t->tv_sec*1000000000ll + t->tv_nsec - (clock == CLOCK_REALTIME ? base_ns : 0); }
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m) { if ( !on() ) return 0; return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t * c, pthread_mutex_t * m, const timespec * t) { if ( !on() ) return ETIMEDOUT; return cond_wait(c, m, true, virtual_time(CLOCK_REALTIME, t)); }
int pthread_cond_clockwait(pthread_cond_t * c, pthread_mutex_t * m, clockid_t clock, const timespec * t) { if ( !on() ) return ETIMEDOUT; return cond_wait(c, m, true, virtual_time(clock, t)); }
int pthread_cond_signal(pthread_cond_t * c)
{
  if ( !on() ) return 0;
  point();
  int w[MAXT], n = 0;
  for ( int k=0; k<nT; ++k ) if ( T[k].state == COND && T[k].on == c ) w[n++] = k;
  if ( n ) T[w[below(n)]].state = RUN;
  point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t * c)
{
  if ( !on() ) return 0;
  point();
  wake_all(COND, c);
  point();
  return 0;
}
int pthread_cond_destroy(pthread_cond_t *) { return 0; }

static int rwlock(pthread_rwlock_t * l, int (*f)(pthread_rwlock_t *))
{
  point();
  int rc;
  while ( (rc = f(l)) == EBUSY && on() ) block(RW, l);
  return rc;
}
int pthread_rwlock_rdlock(pthread_rwlock_t * l) { if ( !r_tryrd ) return 0; return rwlock(l, r_tryrd); }
int pthread_rwlock_wrlock(pthread_rwlock_t * l) { if ( !r_trywr ) return 0; return rwlock(l, r_trywr); }
int pthread_rwlock_unlock(pthread_rwlock_t * l) { if ( !r_rwunlock ) return 0; int rc = r_rwunlock(l); if ( active ) wake_all(RW, l); point(); return rc; }

static int sleep_until(int64_t until)
{
  T[me].until = until;
  if ( MODE == 1 ) T[me].prio = --low;
  block(SLEEP, 0);
  return 0;
}
int nanosleep(const timespec * t, timespec *)
{
  if ( !on() ) return (int)syscall(SYS_nanosleep, t, 0);
  return sleep_until(now_ns + t->tv_sec*1000000000ll + t->tv_nsec);
}
int clock_nanosleep(clockid_t clock, int flags, const timespec * t, timespec *)
{
  if ( !on() ) return 0;
  return sleep_until((flags ? virtual_time(clock, t) : now_ns + t->tv_sec*1000000000ll + t->tv_nsec));
}
int usleep(useconds_t us) { timespec t = { us / 1000000, (us % 1000000)*1000l }; return nanosleep(&t, 0); }
unsigned sleep(unsigned s) { timespec t = { s, 0 }; nanosleep(&t, 0); return 0; }
int sched_yield() { if ( on() && MODE == 1 ) T[me].prio = --low; point(); return 0; }

int clock_gettime(clockid_t clock, timespec * t)
{
  if ( !r_gettime ) r_gettime = real<decltype(r_gettime)>("clock_gettime");
  if ( !active || (clock != CLOCK_REALTIME && clock != CLOCK_MONOTONIC) ) return r_gettime(clock, t);
  if ( on() ) {
    point();
    if ( clock == CLOCK_REALTIME && JUMP && below(JUMP) == 0 ) { ++jumps; now_ns += 300000000000ll + below(20000000000ull); }
  }
  int64_t v = now_ns + (clock == CLOCK_REALTIME ? base_ns : 0);
  t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000;
  return 0;
}

// what a thread does while others would wait outside of the scheduler's sight must not be interrupted
static int (*r_acquire)(long long *); static void (*r_release)(long long *); static void (*r_abort)(long long *); static int (*r_once)(pthread_once_t *, void (*)(void));
int __cxa_guard_acquire(long long * g)
{
  if ( !r_acquire ) r_acquire = real<decltype(r_acquire)>("__cxa_guard_acquire");
  int r = r_acquire(g); if ( r ) ++quiet; return r;
}
void __cxa_guard_release(long long * g) { if ( !r_release ) r_release = real<decltype(r_release)>("__cxa_guard_release"); r_release(g); --quiet; }
void __cxa_guard_abort(long long * g) { if ( !r_abort ) r_abort = real<decltype(r_abort)>("__cxa_guard_abort"); r_abort(g); --quiet; }
int pthread_once(pthread_once_t * o, void (*f)(void))
{
  if ( !r_once ) r_once = real<decltype(r_once)>("pthread_once");
  ++quiet; int rc = r_once(o, f); --quiet; return rc;
}

static void alloc_point()
{
  if ( !ALLOC || !on() || nT < 2 ) return;
  if ( --alloc_left <= 0 ) { alloc_left = 1 + below(2*ALLOC); point(); }
}
void * malloc(size_t n) { alloc_point(); return __libc_malloc(n); }
void * calloc(size_t n, size_t m) { alloc_point(); return __libc_calloc(n, m); }
void * realloc(void * p, size_t n) { alloc_point(); return __libc_realloc(p, n); }
void free(void * p) { alloc_point(); __libc_free(p); }

}

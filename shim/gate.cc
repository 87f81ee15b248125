// Stops threads where they begin to work with a curve until the asked number of them is there (LD_PRELOAD).
//
// In each phase all GATE_N threads, of all processes, have to be at the gate at the same time; then some of them, chosen
// by GATE_SEED, go on, until as many went on as there are blocks to spare (GATE_SPARE).  From then on the gate is open.
// A phase which is not complete after GATE_WAIT ms, although work is left, is a failure; so are more threads than asked
// for.  GATE_STATE is the file the processes share, which tells the outcome.  Without GATE_N calls are counted only
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

static const int SLOTS = 4096;
struct Shared {
  volatile int lock, waiting, slots, phases, open, failed, most, stuck, calls;
  int64_t spare; uint64_t rng; double last;
  volatile char at[SLOTS], go[SLOTS];
};
static Shared * S;
static int N, WAIT, EXTRA, HOLD;
static __thread int slot = -1;

static double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec*1e3 + t.tv_nsec*1e-6; }
static void nap(int us) { timespec t = {0, us*1000}; syscall(SYS_nanosleep, &t, 0); }
static long env(const char * n, long d) { const char * s = getenv(n); return s ? atol(s) : d; }
static uint64_t rnd() { S->rng = S->rng*6364136223846793005ull + 1442695040888963407ull; return S->rng >> 33; }

__attribute__((constructor)) static void start()
{
  const char * f = getenv("GATE_STATE");
  N = env("GATE_N", 0); WAIT = env("GATE_WAIT", 15000); EXTRA = env("GATE_EXTRA", 0); HOLD = env("GATE_HOLD", 0);
  if ( !f ) return;
  int fd = open(f, O_RDWR|O_CLOEXEC);
  void * p = fd < 0 ? MAP_FAILED : mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
  if ( fd >= 0 ) close(fd);
  if ( p == MAP_FAILED ) return;
  S = (Shared*)p;
}
static void lock() { while ( __sync_lock_test_and_set(&S->lock, 1) ) nap(20); }
static void unlock() { __sync_lock_release(&S->lock); }

static void gate()
{
  if ( !S ) return;
  __sync_fetch_and_add(&S->calls, 1);
  if ( !N || S->open ) return;
  lock();
  if ( S->rng == 0 ) { S->rng = 2*env("GATE_SEED", 1) + 1; S->spare = env("GATE_SPARE", 0); }
  if ( slot < 0 ) slot = S->slots < SLOTS ? S->slots++ : 0;
  S->at[slot] = 1; S->go[slot] = 0; ++S->waiting; S->last = now();
  if ( S->waiting > S->most ) S->most = S->waiting;
  unlock();
  while ( true ) {
    lock();
    if ( S->go[slot] || S->open ) { if ( S->at[slot] ) { S->at[slot] = 0; --S->waiting; } unlock(); return; }
    if ( S->waiting >= N && now() >= S->last + EXTRA ) {
      ++S->phases;
      if ( S->waiting > N ) S->failed = 2;
      // at least one goes on; the others may be kept for several phases
      int n = 0, here = S->waiting, chosen = rnd() % here;
      for ( int k=0, seen=0; k<S->slots; ++k )
        if ( S->at[k] && ( seen++ == chosen || (int)(rnd() % 8) >= HOLD ) ) { S->go[k] = 1; S->at[k] = 0; --S->waiting; ++n; }
      S->spare -= n; S->last = now();
      if ( S->spare < 0 || S->failed ) S->open = 1;
    }
    else if ( now() > S->last + WAIT ) { S->failed = 1; S->stuck = S->waiting; S->open = 1; }
    unlock();
    nap(100);
  }
}

extern "C" {
int nmod_poly_is_squarefree(const void * f)
{
  static auto r = (int (*)(const void *))dlsym(RTLD_NEXT, "nmod_poly_is_squarefree");
  gate(); return r(f);
}
int fq_nmod_poly_is_squarefree(const void * f, const void * ctx)
{
  static auto r = (int (*)(const void *, const void *))dlsym(RTLD_NEXT, "fq_nmod_poly_is_squarefree");
  gate(); return r(f, ctx);
}
}

// Faults of file operations below one folder (LD_PRELOAD).  Operations: opening for writing, writing, closing what was
// opened for writing, renaming, linking, removing, truncating.
//   FAULT_DIR     the folder
//   FAULT_AT      the number of the operation at which the fault happens (1, 2, ...; 0: none)
//   FAULT_KIND    kill_before, kill_after, kill_within (a part of the data is written), fail, fail_all (and all later ones),
//                 cut (a part of the data is written, or left when closing, then it and all later operations fail), short (a part of the data is
//                 written, which is reported)
//   FAULT_PART    which part of the data, per mille
//   FAULT_ERRNO   the error
//   FAULT_REPORT  file to which the number of operations and of faults is written at the end
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/stat.h>
#include <unistd.h>

namespace {
enum Kind { NONE, KILL_BEFORE, KILL_AFTER, KILL_WITHIN, FAIL, FAIL_ALL, CUT, SHORT };
const char * dir; size_t dirlen; long at, part, err; Kind kind = NONE; volatile long ops = 0; volatile bool failing = false, happened = false;
bool tracked[4096];

const char * str(const char * n) { return getenv(n); }
__attribute__((constructor)) void init()
{
  dir = str("FAULT_DIR"); dirlen = dir ? strlen(dir) : 0;
  at = str("FAULT_AT") ? atol(str("FAULT_AT")) : 0; part = str("FAULT_PART") ? atol(str("FAULT_PART")) : 500; err = str("FAULT_ERRNO") ? atol(str("FAULT_ERRNO")) : ENOSPC;
  const char * k = str("FAULT_KIND"); if ( !k ) k = "";
  const char * names[] = { "", "kill_before", "kill_after", "kill_within", "fail", "fail_all", "cut", "short" };
  for ( int i=1; i<8; ++i ) if ( !strcmp(k, names[i]) ) kind = (Kind)i;
}
void write_report()
{
  const char * f = str("FAULT_REPORT"); if ( !f || !dir ) return;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, f, O_WRONLY|O_CREAT|O_TRUNC, 0600);
  char b[64]; int n = snprintf(b, sizeof b, "%ld %d\n", ops, happened);
  if ( fd >= 0 ) { syscall(SYS_write, fd, b, n); syscall(SYS_close, fd); }
}
__attribute__((destructor)) void fini() { write_report(); }
void die() { write_report(); syscall(SYS_kill, syscall(SYS_getpid), SIGKILL); while ( true ) pause(); }

bool inside(const char * p) { return dir && p && !strncmp(p, dir, dirlen); }
// what is to happen to this operation
Kind next()
{
  long k = __sync_add_and_fetch(&ops, 1);
  if ( k == at ) { happened = true; if ( kind == FAIL_ALL || kind == CUT ) failing = true; if ( kind == KILL_BEFORE ) die(); return kind; }
  return failing ? FAIL : NONE;
}
bool fails(Kind k) { return k == FAIL || k == FAIL_ALL || k == CUT; }
bool dies(Kind k) { return k == KILL_AFTER || k == KILL_WITHIN; }
template<class F> F real(const char * n) { return (F)dlsym(RTLD_NEXT, n); }
}

#define FAIL_WITH(value) do { errno = (int)err; return value; } while ( 0 )

extern "C" {

static FILE * open_file(const char * name, const char * p, const char * m)
{
  auto f = real<FILE * (*)(const char *, const char *)>(name);
  if ( !inside(p) || (!strchr(m, 'w') && !strchr(m, 'a') && !strchr(m, '+')) ) return f(p, m);
  if ( m[0] == 'r' && access(p, F_OK) == 0 ) {       // opened for reading and writing: only reading is done
    return f(p, m);
  }
  Kind k = next(); if ( fails(k) ) FAIL_WITH(NULL);
  FILE * h = f(p, m);
  if ( h && fileno(h) < 4096 ) tracked[fileno(h)] = true;
  if ( dies(k) ) die();
  return h;
}
FILE * fopen(const char * p, const char * m) { return open_file("fopen", p, m); }
FILE * fopen64(const char * p, const char * m) { return open_file("fopen64", p, m); }
// the error of an earlier write shows up when closing
static void lose(int fd, Kind k)
{
  struct stat s;
  if ( (k == CUT || k == FAIL_ALL) && fstat(fd, &s) == 0 ) syscall(SYS_ftruncate, fd, s.st_size * part / 1000);
}
int fclose(FILE * h)
{
  auto f = real<int (*)(FILE *)>("fclose");
  int fd = fileno(h);
  if ( fd < 0 || fd >= 4096 || !tracked[fd] ) return f(h);
  tracked[fd] = false;
  Kind k = next();
  lose(fd, k);
  int rc = f(h);
  if ( dies(k) ) die();
  if ( fails(k) ) FAIL_WITH(EOF);
  return rc;
}
static int open_fd(int at_, const char * p, int flags, int mode)
{
  bool w = inside(p) && ((flags & O_ACCMODE) != O_RDONLY) && (flags & (O_CREAT|O_TRUNC|O_APPEND) || (flags & O_ACCMODE) == O_WRONLY);
  Kind k = w ? next() : NONE; if ( fails(k) ) FAIL_WITH(-1);
  int fd = (int)syscall(SYS_openat, at_, p, flags, mode);
  if ( fd < 0 ) { errno = errno; return -1; }
  if ( w && fd < 4096 ) tracked[fd] = true;
  if ( dies(k) ) die();
  return fd;
}
#define MODE_ARG int mode = 0; if ( flags & (O_CREAT|O_TMPFILE) ) { va_list a; va_start(a, flags); mode = va_arg(a, int); va_end(a); }
int open(const char * p, int flags, ...) { MODE_ARG return open_fd(AT_FDCWD, p, flags, mode); }
int open64(const char * p, int flags, ...) { MODE_ARG return open_fd(AT_FDCWD, p, flags, mode); }
int openat(int d, const char * p, int flags, ...) { MODE_ARG return open_fd(d, p, flags, mode); }
int openat64(int d, const char * p, int flags, ...) { MODE_ARG return open_fd(d, p, flags, mode); }
int creat(const char * p, mode_t mode) { return open_fd(AT_FDCWD, p, O_CREAT|O_WRONLY|O_TRUNC, mode); }
int close(int fd)
{
  bool w = fd >= 0 && fd < 4096 && tracked[fd];
  if ( w ) tracked[fd] = false;
  Kind k = w ? next() : NONE;
  lose(fd, k);
  int rc = (int)syscall(SYS_close, fd);
  if ( dies(k) ) die();
  if ( fails(k) ) FAIL_WITH(-1);
  return rc;
}
static ssize_t do_write(int fd, const char * p, size_t n, Kind k)
{
  if ( k == KILL_WITHIN || k == CUT || k == SHORT ) {
    size_t m = n * part / 1000; if ( m == 0 && k == SHORT ) m = 1;
    size_t done = 0;
    while ( done < m ) { ssize_t w = syscall(SYS_write, fd, p+done, m-done); if ( w <= 0 ) break; done += w; }
    if ( k == KILL_WITHIN ) die();
    if ( k == SHORT ) return (ssize_t)done;
    FAIL_WITH(-1);
  }
  if ( fails(k) ) FAIL_WITH(-1);
  ssize_t rc = syscall(SYS_write, fd, p, n);
  if ( dies(k) ) die();
  return rc;
}
ssize_t write(int fd, const void * p, size_t n)
{
  if ( fd < 0 || fd >= 4096 || !tracked[fd] ) return syscall(SYS_write, fd, p, n);
  return do_write(fd, (const char *)p, n, next());
}
ssize_t writev(int fd, const struct iovec * v, int n)
{
  if ( fd < 0 || fd >= 4096 || !tracked[fd] ) return syscall(SYS_writev, fd, v, n);
  Kind k = next();
  if ( k == NONE ) return syscall(SYS_writev, fd, v, n);
  size_t total = 0; for ( int i=0; i<n; ++i ) total += v[i].iov_len;
  char * buf = (char *)malloc(total+1); size_t o = 0;
  for ( int i=0; i<n; ++i ) { memcpy(buf+o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
  ssize_t rc = do_write(fd, buf, total, k);
  int e = errno; free(buf); errno = e;
  return rc;
}
static int two(long nr, int d1, const char * a, int d2, const char * b, unsigned flags)
{
  Kind k = inside(a) || inside(b) ? next() : NONE; if ( fails(k) ) FAIL_WITH(-1);
  int rc = (int)(nr == SYS_linkat || nr == SYS_renameat2 ? syscall(nr, d1, a, d2, b, flags) : -1);
  if ( dies(k) ) die();
  return rc;
}
int rename(const char * a, const char * b) { return two(SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, 0); }
int renameat(int d1, const char * a, int d2, const char * b) { return two(SYS_renameat2, d1, a, d2, b, 0); }
int renameat2(int d1, const char * a, int d2, const char * b, unsigned f) { return two(SYS_renameat2, d1, a, d2, b, f); }
int link(const char * a, const char * b) { return two(SYS_linkat, AT_FDCWD, a, AT_FDCWD, b, 0); }
static int gone(const char * p, int flags)
{
  Kind k = inside(p) ? next() : NONE; if ( fails(k) ) FAIL_WITH(-1);
  int rc = (int)syscall(SYS_unlinkat, AT_FDCWD, p, flags);
  if ( dies(k) ) die();
  return rc;
}
int unlink(const char * p) { return gone(p, 0); }
int unlinkat(int d, const char * p, int flags) { return (int)syscall(SYS_unlinkat, d, p, flags); }
int remove(const char * p) { struct stat s; return gone(p, lstat(p, &s) == 0 && S_ISDIR(s.st_mode) ? AT_REMOVEDIR : 0); }
int mkdir(const char * p, mode_t m)
{
  Kind k = inside(p) ? next() : NONE; if ( fails(k) ) FAIL_WITH(-1);
  int rc = (int)syscall(SYS_mkdirat, AT_FDCWD, p, m);
  if ( dies(k) ) die();
  return rc;
}

}

// Preloaded into the batch script and the programs it starts: counts the operations on
// files and processes and interrupts the run at the chosen one.
// Environment: KP_FILE (shared counter), KP_AT (number of the point), KP_HOW
// (all: everything of the session is killed; self: only this process; script: only the
//  script; half: half of the data is written, then everything is killed; errno N: the operation fails).
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

static volatile int* ctr;
static int at, err;
static char how[16];

static void init(void)
{
  static int done;
  if (done) return;
  done = 1;
  const char* f = getenv("KP_FILE");
  // the program's stand-in is interrupted by its own plan
  if (!f || !strcmp(program_invocation_short_name, "primesum")) return;
  int (*op)(const char*, int, ...) = dlsym(RTLD_NEXT, "open");
  int fd = op(f, O_RDWR | O_CLOEXEC);
  if (fd < 0) return;
  void* p = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  int (*cl)(int) = dlsym(RTLD_NEXT, "close");
  cl(fd);
  if (p != MAP_FAILED) ctr = p;
  at = atoi(getenv("KP_AT"));
  strncpy(how, getenv("KP_HOW"), sizeof how - 1);
  if (!strncmp(how, "errno", 5)) err = atoi(how + 5);
}
static void now(void)
{
  if (!strcmp(how, "script")) kill(getsid(0), SIGKILL);
  else if (!strcmp(how, "self")) kill(getpid(), SIGKILL);
  else if (!strcmp(how, "term")) kill(0, SIGTERM);
  else if (!strcmp(how, "int")) kill(0, SIGINT);
  else { kill(0, SIGKILL); kill(getpid(), SIGKILL); }
}
// a point; canfail: the operation can report an error instead
static int point(int canfail)
{
  init();
  if (!ctr) return 0;
  int n = __sync_add_and_fetch(ctr, 1);
  if (n != at) return 0;
  if (err) return canfail ? (errno = err, 1) : 0;
  if (!strcmp(how, "half")) return 2;
  now();
  return 0;
}
static int regular(int fd)
{
  struct stat st;
  int e = errno;
  int r = fstat(fd, &st) == 0 && S_ISREG(st.st_mode);
  errno = e;
  return r;
}
#define REAL(ret, name, ...) static ret (*real)(__VA_ARGS__); if (!real) real = dlsym(RTLD_NEXT, #name)

#define OPEN(name) \
int name(const char* f, int fl, ...) \
{ \
  REAL(int, name, const char*, int, ...); \
  va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); \
  if (!(fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) return real(f, fl, m); \
  if (point(1) == 1) return -1; \
  int r = real(f, fl, m); \
  point(0); \
  return r; \
}
OPEN(open) OPEN(open64)
#define OPENAT(name) \
int name(int d, const char* f, int fl, ...) \
{ \
  REAL(int, name, int, const char*, int, ...); \
  va_list v; va_start(v, fl); int m = va_arg(v, int); va_end(v); \
  if (!(fl & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC))) return real(d, f, fl, m); \
  if (point(1) == 1) return -1; \
  int r = real(d, f, fl, m); \
  point(0); \
  return r; \
}
OPENAT(openat) OPENAT(openat64)
#define FOPEN(name) \
FILE* name(const char* f, const char* m) \
{ \
  REAL(FILE*, name, const char*, const char*); \
  if (m[0] == 'r' && !strchr(m, '+')) return real(f, m); \
  if (point(1) == 1) return 0; \
  FILE* r = real(f, m); \
  point(0); \
  return r; \
}
FOPEN(fopen) FOPEN(fopen64)
ssize_t write(int fd, const void* b, size_t n)
{
  REAL(ssize_t, write, int, const void*, size_t);
  if (!regular(fd)) return real(fd, b, n);
  int p = point(1);
  if (p == 1) return -1;
  if (p == 2) { real(fd, b, n / 2); now(); }
  ssize_t r = real(fd, b, n);
  point(0);
  return r;
}
#define FWRITE(name) \
size_t name(const void* b, size_t s, size_t n, FILE* f) \
{ \
  REAL(size_t, name, const void*, size_t, size_t, FILE*); \
  if (!regular(fileno(f))) return real(b, s, n, f); \
  int p = point(1); \
  if (p == 1) return 0; \
  if (p == 2) { real(b, s, n / 2, f); fflush(f); now(); } \
  size_t r = real(b, s, n, f); \
  return r; \
}
#undef fwrite_unlocked
FWRITE(fwrite) FWRITE(fwrite_unlocked)
int fclose(FILE* f)
{
  REAL(int, fclose, FILE*);
  int fd = fileno(f);
  if (fd < 0 || !regular(fd) || (fcntl(fd, F_GETFL) & O_ACCMODE) == O_RDONLY) return real(f);
  if (point(0) == 1) return EOF;
  int r = real(f);
  point(0);
  return r;
}
int fflush(FILE* f)
{
  REAL(int, fflush, FILE*);
  if (!f || fileno(f) < 0 || !regular(fileno(f))) return real(f);
  if (point(1) == 1) return EOF;
  int r = real(f);
  point(0);
  return r;
}
#define NAMES(name, decl, args) \
int name decl \
{ \
  static int (*real) decl; if (!real) real = dlsym(RTLD_NEXT, #name); \
  if (point(1) == 1) return -1; \
  int r = real args; \
  int e = errno; \
  point(0); \
  errno = e; \
  return r; \
}
NAMES(rename, (const char* a, const char* b), (a, b))
NAMES(renameat, (int d, const char* a, int c, const char* b), (d, a, c, b))
NAMES(renameat2, (int d, const char* a, int c, const char* b, unsigned f), (d, a, c, b, f))
NAMES(link, (const char* a, const char* b), (a, b))
NAMES(linkat, (int d, const char* a, int c, const char* b, int f), (d, a, c, b, f))
NAMES(unlink, (const char* a), (a))
NAMES(unlinkat, (int d, const char* a, int f), (d, a, f))
NAMES(truncate, (const char* a, off_t n), (a, n))
NAMES(ftruncate, (int a, off_t n), (a, n))
NAMES(ftruncate64, (int a, off64_t n), (a, n))
ssize_t copy_file_range(int a, off64_t* x, int b, off64_t* y, size_t n, unsigned f)
{
  static ssize_t (*real)(int, off64_t*, int, off64_t*, size_t, unsigned);
  if (!real) real = dlsym(RTLD_NEXT, "copy_file_range");
  int p = point(1);
  if (p == 1) return -1;
  if (p == 2) { real(a, x, b, y, n / 2, f); now(); }
  ssize_t r = real(a, x, b, y, n, f);
  point(0);
  return r;
}
pid_t fork(void)
{
  REAL(pid_t, fork, void);
  point(0);
  pid_t r = real();
  if (r) point(0);
  return r;
}
int execve(const char* f, char* const a[], char* const e[])
{
  REAL(int, execve, const char*, char* const*, char* const*);
  point(0);
  return real(f, a, e);
}

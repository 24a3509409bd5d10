/* surround.c: preloaded by C23.  Whatever the program asks about its surroundings
 * (environment, time, identity, terminal, random numbers, host) gets another answer for
 * every seed.  Calls inside the C library do not come here. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static unsigned seed;
static const char *const val[] = { "1", "0", "40", "-1", "132", "yes", "C", "/dev/null", "", "-l", "-s", "-x", "6502", "12", "99999999999" };

__attribute__((constructor)) static void start(void)
{
  char **e;
  for (e = environ; e && *e; e++)
    if (!strncmp(*e, "VERIF_SURROUND=", 15)) seed = atoi(*e + 15);
}

static unsigned next(void) { return (seed = seed * 1103515245u + 12345u) >> 16; }

char *getenv(const char *name) { return (char *)val[next() % (sizeof(val) / sizeof(*val))]; }
char *secure_getenv(const char *name) { return getenv(name); }
time_t time(time_t *t) { time_t v = (time_t)next() * 77777; if (t) *t = v; return v; }
clock_t clock(void) { return next(); }
int gettimeofday(struct timeval *tv, void *tz) { tv->tv_sec = next() * 77777l; tv->tv_usec = next() * 10; return 0; }
int clock_gettime(clockid_t c, struct timespec *ts) { ts->tv_sec = next() * 77777l; ts->tv_nsec = next() * 10; return 0; }
pid_t getpid(void) { return 2 + next(); }
pid_t getppid(void) { return 2 + next(); }
uid_t getuid(void) { return next() & 1 ? 1000 : 0; }
uid_t geteuid(void) { return next() & 1 ? 1000 : 0; }
int rand(void) { return next(); }
long random(void) { return next(); }
long lrand48(void) { return next(); }
double drand48(void) { return next() / 65536.0; }
int isatty(int fd) { return 1; }
char *ttyname(int fd) { return "/dev/tty9"; }
int ioctl(int fd, unsigned long r, ...)
{
  va_list ap;
  va_start(ap, r);
  if (r == TIOCGWINSZ)
  {
    struct winsize *w = va_arg(ap, struct winsize *);
    w->ws_row = 10 + next() % 50; w->ws_col = 40 + next() % 100;
  }
  va_end(ap);
  return 0;
}
char *getcwd(char *b, size_t n)
{
  if (!b) return strdup("/somewhere/else");
  strncpy(b, "/somewhere/else", n); return b;
}
char *get_current_dir_name(void) { return strdup("/somewhere/else"); }
int gethostname(char *b, size_t n) { strncpy(b, "another", n); return 0; }
char *getlogin(void) { return "nobody"; }
int uname(struct utsname *u) { memset(u, 0, sizeof(*u)); strcpy(u->sysname, "Other"); strcpy(u->nodename, "another"); return 0; }

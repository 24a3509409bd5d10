/* Fork server: runs the assembler's main() once per request, in a fresh child.
 *
 * The assembler's objects are linked in with main renamed to crasm_main, so every
 * request starts from the program's initial static state, as a new process does,
 * without paying for exec (and, in sanitizer builds, for the runtime's start up).
 *
 * Request on fd 0, one line, fields separated by 0x1f:
 *     cwd  cpu_seconds  wall_ms  fsize_limit(-1: none)  maxout  arg1 arg2 ...
 * Answer on fd 1:
 *     "<exit|signal|timeout|toobig> <n> <outlen> <errlen>\n" then both byte strings
 */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern int crasm_main(int argc, char **argv);

#define MAXARGS 64

static long now_ms(void)
{
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec * 1000L + t.tv_nsec / 1000000L;
}

struct buf { char *p; size_t n, cap; };

static int slurp(int fd, struct buf *b)
{
  if (b->cap - b->n < 65536)
  {
    b->cap = b->cap * 2 + 131072;
    b->p = realloc(b->p, b->cap);
    if (!b->p) _exit(97);
  }
  ssize_t k = read(fd, b->p + b->n, b->cap - b->n);
  if (k > 0) b->n += k;
  return k > 0 || (k < 0 && errno == EINTR);
}

static void putall(int fd, const char *p, size_t n)
{
  while (n)
  {
    ssize_t k = write(fd, p, n);
    if (k < 0) { if (errno == EINTR) continue; _exit(96); }
    p += k; n -= k;
  }
}

static struct buf out, err;

/* leave a pattern where the assembler's stack frames will be */
__attribute__((noinline)) static void fillstack(int c)
{
  volatile char a[200000];
  for (size_t i = 0; i < sizeof a; i++) a[i] = c;
}

static void serve(char *line)
{
  char *f[MAXARGS + 8];
  int n = 0;
  char *p = line;

  while (n < MAXARGS + 6)
  {
    f[n++] = p;
    p = strchr(p, 0x1f);
    if (!p) break;
    *p++ = 0;
  }
  f[n] = NULL;
  if (n < 5) _exit(95);

  long cpu = atol(f[1]), wall = atol(f[2]), fsize = atol(f[3]);
  size_t maxout = atol(f[4]);
  int po[2], pe[2];
  if (pipe2(po, O_CLOEXEC) || pipe2(pe, O_CLOEXEC)) _exit(94);

  pid_t pid = fork();
  if (pid < 0) _exit(93);
  if (pid == 0)
  {
    struct rlimit rl;
    int nul = open("/dev/null", O_RDONLY);
    dup2(nul, 0);
    dup2(po[1], 1);
    dup2(pe[1], 2);
    for (int i = 3; i < 32; i++) close(i);
    if (chdir(f[0])) _exit(92);
    rl.rlim_cur = cpu; rl.rlim_max = cpu + 2;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    /* more than a program may have open at once: a leak of files shows */
    rl.rlim_cur = rl.rlim_max = 128;
    setrlimit(RLIMIT_NOFILE, &rl);
    if (fsize >= 0)
    {
      signal(SIGXFSZ, SIG_IGN);
      rl.rlim_cur = rl.rlim_max = fsize;
      setrlimit(RLIMIT_FSIZE, &rl);
    }
    f[4] = "crasm";
    const char *fill = getenv("CRASM_STACKFILL");
    if (fill) fillstack(atoi(fill));
    exit(crasm_main(n - 4, f + 4));
  }
  close(po[1]); close(pe[1]);

  out.n = err.n = 0;
  long deadline = now_ms() + wall;
  struct pollfd pf[2] = { { po[0], POLLIN, 0 }, { pe[0], POLLIN, 0 } };
  const char *why = NULL;
  int open_ends = 2;

  while (open_ends)
  {
    long left = deadline - now_ms();
    if (left <= 0) { why = "timeout"; break; }
    int r = poll(pf, 2, left > 1000 ? 1000 : left);
    if (r < 0 && errno != EINTR) _exit(91);
    for (int i = 0; i < 2 && r > 0; i++)
    {
      if (pf[i].fd >= 0 && pf[i].revents)
      {
        if (!slurp(pf[i].fd, i ? &err : &out)) { pf[i].fd = -1; open_ends--; }
      }
    }
    if (out.n > maxout || err.n > maxout) { why = "toobig"; break; }
  }
  if (why) kill(pid, SIGKILL);
  close(po[0]); close(pe[0]);

  int st;
  while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) _exit(90);
  char head[128];
  int code = WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st);
  int h = snprintf(head, sizeof head, "%s %d %zu %zu\n",
                   why ? why : WIFEXITED(st) ? "exit" : "signal", code, out.n, err.n);
  putall(1, head, h);
  putall(1, out.p ? out.p : "", out.n);
  putall(1, err.p ? err.p : "", err.n);
}

int main(void)
{
  char *line = NULL;
  size_t cap = 0;
  ssize_t n;

  signal(SIGPIPE, SIG_DFL);
  while ((n = getline(&line, &cap, stdin)) > 0)
  {
    if (line[n - 1] == '\n') line[n - 1] = 0;
    serve(line);
  }
  _exit(0);
}

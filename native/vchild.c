/* vchild: scriptable child process used by the checks.
 *
 * Each argument is an operation "name:arg:arg..."; they run left to right.
 * Exit status 0 when the list is exhausted.  Everything it does is confined to
 * its own stdio, its own descriptors and the paths it is given.
 */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <termios.h>
#include <time.h>
#include <unistd.h>

static size_t g_chunk = 65536;
static long g_delay_us = 0;
static size_t g_rchunk = 65536;
static int g_trap_code[65];
static char *g_prog;
static char *g_pmode = "cat"; /* what to do with a bare path argument */
static uint64_t g_pn, g_ps;

static void die(const char *m) { dprintf(2, "vchild: %s: %s\n", m, strerror(errno)); _exit(99); }

static void msleep(long us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
  while (nanosleep(&ts, &ts) < 0 && errno == EINTR) {}
}

/* returns 0 ok, -1 on broken pipe */
static int wall(int fd, const uint8_t *p, size_t n) {
  while (n) {
    size_t k = n < g_chunk ? n : g_chunk;
    ssize_t w = write(fd, p, k);
    if (w < 0) {
      if (errno == EINTR) continue;
      if (errno == EAGAIN) { struct pollfd pf = {fd, POLLOUT, 0}; poll(&pf, 1, 1000); continue; }
      return -1;
    }
    p += w; n -= w;
    if (g_delay_us && n) msleep(g_delay_us);
  }
  return 0;
}

static uint64_t splitmix(uint64_t x) {
  x += 0x9E3779B97F4A7C15ULL;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ULL;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBULL;
  return x ^ (x >> 31);
}

static uint8_t pat(uint64_t seed, uint64_t i) {
  return (uint8_t)(splitmix(seed * 1000003ULL + (i >> 3)) >> ((i & 7) * 8));
}

static int wpattern(int fd, uint64_t n, uint64_t seed) {
  static uint8_t buf[65536];
  uint64_t i = 0;
  while (i < n) {
    size_t k = n - i < sizeof buf ? n - i : sizeof buf;
    for (size_t j = 0; j < k; j++) buf[j] = pat(seed, i + j);
    if (wall(fd, buf, k) < 0) return -1;
    i += k;
  }
  return 0;
}

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

static size_t unhex(const char *s, uint8_t *out) {
  size_t n = 0;
  while (s[0] && s[1]) { out[n++] = hexv(s[0]) * 16 + hexv(s[1]); s += 2; }
  return n;
}

static void whex(int fd, const char *s) {
  size_t n = strlen(s);
  char *b = malloc(2 * n + 2);
  for (size_t i = 0; i < n; i++) sprintf(b + 2 * i, "%02x", (uint8_t)s[i]);
  b[2 * n] = '\n';
  wall(fd, (uint8_t *)b, 2 * n + 1);
  free(b);
}

static ssize_t rd(int fd, void *b, size_t n) {
  for (;;) {
    ssize_t r = read(fd, b, n < g_rchunk ? n : g_rchunk);
    if (r < 0 && errno == EINTR) continue;
    if (r < 0 && errno == EAGAIN) { struct pollfd pf = {fd, POLLIN, 0}; poll(&pf, 1, 1000); continue; }
    return r;
  }
}

#define FNV0 1469598103934665603ULL
#define FNVP 1099511628211ULL

static void hashfd(int fd, uint64_t limit, int outfd) {
  static uint8_t buf[65536];
  uint64_t h = FNV0, tot = 0;
  while (tot < limit) {
    size_t want = limit - tot < sizeof buf ? limit - tot : sizeof buf;
    ssize_t r = rd(fd, buf, want);
    if (r <= 0) break;
    for (ssize_t i = 0; i < r; i++) { h ^= buf[i]; h *= FNVP; }
    tot += r;
  }
  dprintf(outfd, "%llu %016llx\n", (unsigned long long)tot, (unsigned long long)h);
}

/* copy with affine transform; returns bytes copied */
static uint64_t copyfd(int in, int out, int out2, uint64_t limit, int a, int b) {
  static uint8_t buf[65536];
  uint64_t tot = 0;
  while (tot < limit) {
    size_t want = limit - tot < sizeof buf ? limit - tot : sizeof buf;
    ssize_t r = rd(in, buf, want);
    if (r <= 0) break;
    if (a != 1 || b != 0) for (ssize_t i = 0; i < r; i++) buf[i] = (uint8_t)(buf[i] * a + b);
    if (out >= 0 && wall(out, buf, r) < 0) exit(90);
    if (out2 >= 0 && wall(out2, buf, r) < 0) exit(90);
    tot += r;
  }
  return tot;
}

static void onsig_exit(int s) { _exit(g_trap_code[s]); }
static volatile sig_atomic_t g_sigcount;
static char g_siglog[4096];
static void onsig_log(int s) {
  g_sigcount++;
  int fd = open(g_siglog, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd >= 0) { char b[32]; int n = snprintf(b, sizeof b, "sig %d %d\n", getpid(), s); (void)!write(fd, b, n); close(fd); }
}

static void setsig(int s, void (*h)(int)) {
  struct sigaction sa = {0};
  sa.sa_handler = h;
  sa.sa_flags = SA_RESTART;
  sigaction(s, &sa, NULL);
}

static void applog(const char *path, const char *text) {
  int fd = open(path, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd < 0) die(path);
  char b[512];
  int n = snprintf(b, sizeof b, "%s %d\n", text, getpid());
  (void)!write(fd, b, n);
  close(fd);
}

static void dumpfds(int outfd) {
  DIR *d = opendir("/proc/self/fd");
  struct dirent *e;
  char b[8192]; size_t n = 0;
  while ((e = readdir(d))) {
    if (e->d_name[0] == '.') continue;
    int fd = atoi(e->d_name);
    if (fd == dirfd(d)) continue;
    char p[64], t[256];
    snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
    ssize_t r = readlink(p, t, sizeof t - 1);
    t[r < 0 ? 0 : r] = 0;
    n += snprintf(b + n, sizeof b - n, "%d %s\n", fd, t);
  }
  closedir(d);
  wall(outfd, (uint8_t *)b, n);
}

static void dumptty(int outfd) {
  for (int fd = 0; fd < 3; fd++) {
    struct termios t; struct winsize w = {0};
    int tty = isatty(fd);
    int r = tty ? tcgetattr(fd, &t) : -1;
    if (tty) ioctl(fd, TIOCGWINSZ, &w);
    dprintf(outfd, "fd%d tty=%d canon=%d echo=%d isig=%d rows=%d cols=%d\n", fd, tty,
            r == 0 ? !!(t.c_lflag & ICANON) : -1, r == 0 ? !!(t.c_lflag & ECHO) : -1,
            r == 0 ? !!(t.c_lflag & ISIG) : -1, w.ws_row, w.ws_col);
  }
  int c = open("/dev/tty", O_RDWR);
  char ctty[64] = "-";
  if (c >= 0) close(c);
  dprintf(outfd, "ctty=%d sid=%d leader=%d fg=%d name=%s\n", c >= 0, getsid(0), getsid(0) == getpid(),
          tcgetpgrp(0) == getpgrp(), isatty(0) ? ttyname(0) : ctty);
}

extern char **environ;

int main(int argc, char **argv) {
  g_prog = argv[0];
  signal(SIGPIPE, SIG_DFL);
  for (int i = 1; i < argc; i++) {
    char *op = argv[i];
    char *a[8]; int na = 0;
    char *dup = strdup(op);
    char *p = dup;
    char *name = strsep(&p, ":");
    /* the last argument of these ops may itself contain ':' */
    while (p && na < 7) a[na++] = strsep(&p, ":");
    for (int k = na; k < 8; k++) a[k] = NULL;
#define IS(x) (!strcmp(name, x))
#define U(k) strtoull(a[k], NULL, 10)
    if (op[0] == '/') { /* a path (process substitution) */
      if (!strcmp(g_pmode, "cat")) { int fd = open(op, O_RDONLY); if (fd < 0) die(op); copyfd(fd, 1, -1, UINT64_MAX, 1, 0); close(fd); }
      else if (!strcmp(g_pmode, "head")) { int fd = open(op, O_RDONLY); if (fd < 0) die(op); copyfd(fd, 1, -1, g_pn, 1, 0); close(fd); }
      else if (!strcmp(g_pmode, "hash")) { int fd = open(op, O_RDONLY); if (fd < 0) die(op); hashfd(fd, UINT64_MAX, 1); close(fd); }
      else if (!strcmp(g_pmode, "write")) { int fd = open(op, O_WRONLY); if (fd < 0) die(op); if (wpattern(fd, g_pn, g_ps) < 0) exit(90); close(fd); }
      else if (!strcmp(g_pmode, "copyin")) { int fd = open(op, O_WRONLY); if (fd < 0) die(op); copyfd(0, fd, -1, UINT64_MAX, 1, 0); close(fd); }
      else if (!strcmp(g_pmode, "name")) { dprintf(1, "%s\n", op); }
      else if (!strcmp(g_pmode, "hold")) { int fd = open(op, O_RDWR); (void)fd; }
      /* "ignore": nothing */
    }
    else if (IS("pmode")) { g_pmode = strdup(a[0]); g_pn = na > 1 ? U(1) : 0; g_ps = na > 2 ? U(2) : 0; }
    else if (IS("closeps")) { /* close every descriptor above 2 (our process substitution ends) */
      for (int k = 3; k < 256; k++) close(k);
    }
    else if (IS("out")) { if (wpattern(1, U(0), U(1)) < 0) exit(90); }
    else if (IS("err")) { if (wpattern(2, U(0), U(1)) < 0) exit(90); }
    else if (IS("wfd")) { if (wpattern(atoi(a[0]), U(1), U(2)) < 0) exit(90); }
    else if (IS("outx") || IS("errx")) {
      uint8_t *b = malloc(strlen(op)); size_t n = a[0] ? unhex(a[0], b) : 0;
      if (wall(IS("outx") ? 1 : 2, b, n) < 0) exit(90);
      free(b);
    }
    else if (IS("chunk")) g_chunk = U(0);
    else if (IS("rchunk")) g_rchunk = U(0);
    else if (IS("delay")) g_delay_us = U(0);
    else if (IS("cat")) copyfd(0, 1, -1, na ? U(0) : UINT64_MAX, 1, 0);
    else if (IS("cat2")) copyfd(0, 2, -1, na ? U(0) : UINT64_MAX, 1, 0);
    else if (IS("tee")) copyfd(0, 1, 2, UINT64_MAX, 1, 0);
    else if (IS("aff")) copyfd(0, 1, -1, UINT64_MAX, atoi(a[0]), atoi(a[1]));
    else if (IS("sink")) copyfd(0, -1, -1, na ? U(0) : UINT64_MAX, 1, 0);
    else if (IS("hash")) hashfd(0, na ? U(0) : UINT64_MAX, 1);
    else if (IS("hash2")) hashfd(0, na ? U(0) : UINT64_MAX, 2);
    else if (IS("hashf")) { int fd = open(a[0], O_RDONLY); if (fd < 0) die(a[0]); hashfd(fd, UINT64_MAX, 1); close(fd); }
    else if (IS("catf")) { int fd = open(a[0], O_RDONLY); if (fd < 0) die(a[0]); copyfd(fd, 1, -1, UINT64_MAX, 1, 0); close(fd); }
    else if (IS("catf2")) { int fd = open(a[0], O_RDONLY); if (fd < 0) die(a[0]); copyfd(fd, 2, -1, UINT64_MAX, 1, 0); close(fd); }
    else if (IS("headf")) { int fd = open(a[0], O_RDONLY); if (fd < 0) die(a[0]); copyfd(fd, 1, -1, U(1), 1, 0); close(fd); }
    else if (IS("tof")) { int fd = open(a[0], O_WRONLY | O_CREAT, 0644); if (fd < 0) die(a[0]); if (wpattern(fd, U(1), U(2)) < 0) exit(90); close(fd); }
    else if (IS("hashfd")) hashfd(atoi(a[0]), UINT64_MAX, 1);
    else if (IS("sleep")) msleep(U(0) * 1000);
    else if (IS("exit")) _exit(atoi(a[0]));
    else if (IS("kill")) { signal(atoi(a[0]), SIG_DFL); kill(getpid(), atoi(a[0])); msleep(100000); }
    else if (IS("ign")) signal(atoi(a[0]), SIG_IGN);
    else if (IS("trap")) { g_trap_code[atoi(a[0])] = atoi(a[1]); setsig(atoi(a[0]), onsig_exit); }
    else if (IS("siglog")) { snprintf(g_siglog, sizeof g_siglog, "%s", a[1]); setsig(atoi(a[0]), onsig_log); }
    else if (IS("pause")) { for (;;) pause(); }
    else if (IS("close")) close(atoi(a[0]));
    else if (IS("hold")) { /* background child keeps our stdio open for ms */
      pid_t c = fork();
      if (c == 0) { setpgid(0, 0); signal(SIGTERM, SIG_DFL); msleep(U(0) * 1000); _exit(0); }
    }
    else if (IS("argv")) { for (int k = 0; k < argc; k++) whex(1, argv[k]); _exit(0); }
    else if (IS("env")) { for (char **e = environ; *e; e++) whex(1, *e); }
    else if (IS("fds")) dumpfds(1);
    else if (IS("fdsf")) { int fd = open(a[0], O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644); int hi = fcntl(fd, F_DUPFD_CLOEXEC, 900); close(fd); dumpfds(hi); close(hi); }
    else if (IS("tty")) dumptty(1);
    else if (IS("ttyf")) { int fd = open(a[0], O_WRONLY | O_CREAT | O_TRUNC, 0644); dumptty(fd); close(fd); }
    else if (IS("pid")) dprintf(1, "%d\n", getpid());
    else if (IS("log")) applog(a[0], a[1]);
    else if (IS("touch")) { int fd = open(a[0], O_WRONLY | O_CREAT, 0644); if (fd >= 0) close(fd); }
    else if (IS("wait")) { struct stat st; for (int k = 0; k < 60000 && stat(a[0], &st) < 0; k++) msleep(1000); }
    else if (IS("echo")) { /* reads lines; answers "<line as hex>" + terminator hex a[0] */
      uint8_t term[256]; size_t tn = a[0] ? unhex(a[0], term) : 0;
      static char line[1 << 20]; size_t n = 0; char c;
      while (rd(0, &c, 1) == 1) {
        if (c == '\n') {
          if (n == 4 && !memcmp(line, "quit", 4)) _exit(0);
          wall(1, (uint8_t *)line, n); wall(1, term, tn); n = 0;
        } else if (n < sizeof line) line[n++] = c;
      }
    }
    else if (IS("noecho")) { struct termios t; tcgetattr(0, &t); t.c_lflag &= ~ECHO; tcsetattr(0, TCSADRAIN, &t); }
    else if (IS("rdline")) { /* read one line, write it back bracketed */
      char c; wall(1, (uint8_t *)"[", 1);
      while (rd(0, &c, 1) == 1 && c != '\n') wall(1, (uint8_t *)&c, 1);
      wall(1, (uint8_t *)"]\n", 2);
    }
    else { dprintf(2, "vchild: unknown op %s\n", op); _exit(98); }
    free(dup);
  }
  return 0;
}

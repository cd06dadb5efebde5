// Stands in for rustfmt: formats by appending one line, or fails in the way the plan says.
// SIMFMT_MODE: 0 works; 1 fails untouched; 2 half written, fails; 3 half written, killed; 4 half written, its parent killed;
// 5 emptied, fails; 6 killed untouched. SIMFMT_NTH: at which invocation. SIMFMT_CNT: file that counts them.
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static const char MARK[] = "// formatted\n";
static void put(int fd, const char *b, size_t n) {
  while (n) {
    ssize_t r = write(fd, b, n);
    if (r <= 0) _exit(3);
    b += r;
    n -= r;
  }
}
static char *all(int fd, size_t *n) {
  size_t cap = 1 << 16;
  char *b = malloc(cap);
  *n = 0;
  for (;;) {
    if (*n + 4096 > cap) b = realloc(b, cap *= 2);
    ssize_t r = read(fd, b + *n, cap - *n - 1024);
    if (r < 0) _exit(3);
    if (r == 0) return b;
    *n += r;
  }
}
static size_t format(char **b, size_t n) {
  size_t m = sizeof MARK - 1;
  if (n >= m && !memcmp(*b + n - m, MARK, m)) return n;
  *b = realloc(*b, n + m);
  memcpy(*b + n, MARK, m);
  return n + m;
}
int main(int c, char **v) {
  int mode = 0, nth = 0, files = 0;
  const char *m = getenv("SIMFMT_MODE"), *k = getenv("SIMFMT_NTH"), *cnt = getenv("SIMFMT_CNT");
  if (m && k && cnt) {
    int fd = open(cnt, O_RDWR | O_CREAT | O_APPEND, 0600);
    nth = 0;
    if (fd >= 0) { put(fd, "x", 1); nth = (int)lseek(fd, 0, SEEK_END); close(fd); }
    if (nth == atoi(k)) mode = atoi(m);
  }
  if (mode == 1) { fprintf(stderr, "error: simulated failure\n"); return 1; }
  if (mode == 6) raise(SIGKILL);
  for (int i = 1; i < c; i++) {
    size_t l = strlen(v[i]);
    if (v[i][0] == '-' || l < 3 || strcmp(v[i] + l - 3, ".rs")) continue;
    files++;
    int fd = open(v[i], O_RDONLY);
    if (fd < 0) { fprintf(stderr, "error: no file %s\n", v[i]); return 1; }
    size_t n;
    char *b = all(fd, &n);
    close(fd);
    n = format(&b, n);
    fd = open(v[i], O_WRONLY | O_TRUNC);
    if (fd < 0) return 1;
    if (mode) n = mode == 5 ? 0 : n / 2;
    put(fd, b, n);
    close(fd);
    if (mode == 2 || mode == 5) return 1;
    if (mode == 3) raise(SIGKILL);
    if (mode == 4) { kill(getppid(), SIGKILL); _exit(1); }
  }
  if (!files) {
    size_t n;
    char *b = all(0, &n);
    n = format(&b, n);
    if (mode) { put(1, b, n / 2); if (mode == 4) kill(getppid(), SIGKILL); return 1; }
    put(1, b, n);
  }
  return 0;
}

/* LD_PRELOAD library: rand() gives the values listed in RAND_SCRIPT, then values of a fixed generator; the number of
   calls is appended to the file RAND_COUNT. */
#include <stdio.h>
#include <stdlib.h>
#include <fcntl.h>
#include <unistd.h>

static int ready;
static long calls;
static long nscript, script[64];
static unsigned long long x = 88172645463325252ULL;

static void init(void)
{
  const char *s = getenv("RAND_SCRIPT");
  ready = 1;
  while (s && *s && nscript < 64) {
    char *e;
    script[nscript++] = strtol(s, &e, 10);
    s = *e ? e + 1 : e;
  }
}

int rand(void)
{
  if (!ready) init();
  long n = calls++;
  if (n < nscript) return (int) script[n];
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  return (int) ((x >> 16) & 0x7fffffff);
}

long random(void) { return rand(); }
void srand(unsigned seed) { }
void srandom(unsigned seed) { }

__attribute__((destructor)) static void done(void)
{
  const char *f = getenv("RAND_COUNT");
  char b[32];
  int fd;
  if (!f) return;
  fd = open(f, O_WRONLY | O_CREAT | O_APPEND, 0666);
  if (fd < 0) return;
  if (write(fd, b, sprintf(b, "%ld\n", calls)) < 0) {}
  close(fd);
}

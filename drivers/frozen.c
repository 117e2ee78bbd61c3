/* Preloaded: every clock the program reads stands still at FROZEN (seconds),
   or steps on by FROZEN_STEP nanoseconds with each reading.  The making of a
   directory is put off by FROZEN_WAIT microseconds. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static long long now(void) {
  static long long t = -1, step = 0;
  if (t < 0) {
    char const *f = getenv("FROZEN"), *s = getenv("FROZEN_STEP");
    t = f ? (long long)(atof(f) * 1e3) * 1000000LL : 0;
    step = s ? atoll(s) : 0;
  }
  long long r = t;
  t += step;
  return r;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  (void)c;
  long long t = now();
  ts->tv_sec = t / 1000000000LL;
  ts->tv_nsec = t % 1000000000LL;
  return 0;
}
int gettimeofday(struct timeval *restrict tv, void *restrict z) {
  (void)z;
  long long t = now();
  tv->tv_sec = t / 1000000000LL;
  tv->tv_usec = (t % 1000000000LL) / 1000;
  return 0;
}
time_t time(time_t *p) {
  time_t t = now() / 1000000000LL;
  if (p) *p = t;
  return t;
}
int mkdir(char const *path, mode_t mode) {
  static int (*real)(char const *, mode_t);
  if (!real) real = (int (*)(char const *, mode_t))dlsym(RTLD_NEXT, "mkdir");
  char const *w = getenv("FROZEN_WAIT");
  if (w) usleep((useconds_t)atoi(w));
  return real(path, mode);
}

/* Preloaded into the server in the free-running part of C14: the operating system's scheduler, made unfavourable.
   After a lock is given up (and sometimes before one is taken) the thread pauses for a random time, so that
   whatever the code leaves half done between two critical sections is there for the others to see. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <pthread.h>
#include <stdint.h>
#include <stdlib.h>
#include <time.h>

static __thread uint64_t rng;

static void pause_maybe(int one_in, long max_us) {
  if (!rng) rng = (uint64_t)(uintptr_t)&rng * 0x9E3779B97F4A7C15ull | 1;
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  if ((rng >> 20) % (uint64_t)one_in) return;
  struct timespec t = {0, (long)((rng >> 32) % (uint64_t)max_us) * 1000};
  nanosleep(&t, 0);
}

#define REAL(name) static int (*real)(); if (!real) real = (int (*)())dlsym(RTLD_NEXT, name)

int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  REAL("pthread_rwlock_unlock");
  int r = real(l);
  pause_maybe(2, 4000);
  return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  REAL("pthread_rwlock_wrlock");
  pause_maybe(3, 3000);
  return real(l);
}
int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  REAL("pthread_rwlock_rdlock");
  pause_maybe(4, 2000);
  return real(l);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
  REAL("pthread_mutex_unlock");
  int r = real(m);
  pause_maybe(64, 1500);
  return r;
}

// Random delays around the system calls that processes of a domain use to talk
// to each other.  Linked into the programs under test; USYS_JITTER="percent,us".
#define _GNU_SOURCE
#include <pthread.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <signal.h>
#include <sys/ipc.h>
#include <sys/msg.h>
#include <sys/sem.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <string.h>

static int g_pct = -1, g_us;
static __thread uint64_t g_z;

// Semaphores order the threads of a process too; the race detector does not know
// them.  One semop of the lock's holder happens before the next one's.
#ifdef __SANITIZE_THREAD__
void __tsan_acquire(void *);
void __tsan_release(void *);
static char g_sems[4096];
static void *sem_addr(int id, int num) { return &g_sems[((unsigned)id * 31 + num) % sizeof g_sems]; }
#endif

static uint64_t dice(void) {
  if (g_z == 0) {
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    g_z = ts.tv_nsec * 1000003ull + syscall(SYS_gettid) * 7919ull + 1;
  }
  g_z ^= g_z << 13;
  g_z ^= g_z >> 7;
  g_z ^= g_z << 17;
  return g_z >> 20;
}

static void delay(void) {
  if (__atomic_load_n(&g_pct, __ATOMIC_RELAXED) == -1) {
    const char *e = getenv("USYS_JITTER");
    int p = 0, u = 0;
    if (e) sscanf(e, "%d,%d", &p, &u);
    __atomic_store_n(&g_us, u, __ATOMIC_RELAXED);
    __atomic_store_n(&g_pct, u > 0 ? p : 0, __ATOMIC_RELAXED);
  }
  int pct = __atomic_load_n(&g_pct, __ATOMIC_RELAXED), us = __atomic_load_n(&g_us, __ATOMIC_RELAXED);
  if (pct == 0 || us == 0) return;
  if ((int)(dice() % 100) >= pct) return;
  struct timespec ts = {0, (long)((dice() >> 10) % us) * 1000L};
  int e = errno;
  nanosleep(&ts, 0);
  errno = e;
}

// What happens to the files of large messages: made, sent, received
static void note(char what, const char *file, size_t n) {
  const char *log = getenv("USYS_FILES");
  if (log == NULL) return;
  int l = open(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
  if (l == -1) return;
  char line[256];
  int k = snprintf(line, sizeof line, "%c %.*s %d\n", what, (int)n, file, (int)getpid());
  if (write(l, line, k) != k) abort();
  close(l);
}
static void note_message(char what, const char *p, size_t n) {
  if (n > 8192) return;
  const char *f = memmem(p, n, "/tmp/msgbase-", 13);
  if (f != NULL) note(what, f, strnlen(f, p + n - f));
}

int msgsnd(int id, const void *p, size_t n, int f) {
  delay();
  int r = syscall(SYS_msgsnd, id, p, n, f);
  int e = errno;
  if (r == 0) note_message('S', (const char *)p + sizeof(long), n);
  delay();
  errno = e;
  return r;
}

ssize_t msgrcv(int id, void *p, size_t n, long t, int f) {
  ssize_t r = syscall(SYS_msgrcv, id, p, n, t, f);
  int e = errno;
  if (r > 0) note_message('R', (const char *)p + sizeof(long), r);
  if (r >= 0) delay();
  errno = e;
  return r;
}

int semop(int id, struct sembuf *s, size_t n) {
  delay();
#ifdef __SANITIZE_THREAD__
  for (size_t i = 0; i < n; i++)
    if (s[i].sem_op > 0) __tsan_release(sem_addr(id, s[i].sem_num));
#endif
  int r = syscall(SYS_semop, id, s, n);
  int e = errno;
#ifdef __SANITIZE_THREAD__
  if (r == 0)
    for (size_t i = 0; i < n; i++)
      if (s[i].sem_op < 0) __tsan_acquire(sem_addr(id, s[i].sem_num));
#endif
  if (r == 0 && s[0].sem_op < 0) {
    // The holder of the lock dies
    static int locks;
    const char *die = getenv("USYS_DIE");
    if (die != NULL && *die != 0 && __atomic_add_fetch(&locks, 1, __ATOMIC_RELAXED) == atoi(die)) {
      const char *not = getenv("USYS_DIENOT");
      if (not == NULL || strstr(not, program_invocation_short_name) == NULL) {
        note('K', "-", 1);
        kill(getpid(), SIGKILL);
      }
    }
  }
  delay();
  errno = e;
  return r;
}

// Files of large messages, for the check that none of them outlives its message
int mkstemp(char *t) {
  static void *known;
  void *p = __atomic_load_n(&known, __ATOMIC_RELAXED);
  if (p == NULL) __atomic_store_n(&known, p = dlsym(RTLD_NEXT, "mkstemp"), __ATOMIC_RELAXED);
  // No room for large messages: USYS_NOFILE per mille
  const char *no = strstr(t, "msgbase") != NULL ? getenv("USYS_NOFILE") : NULL;
  if (no != NULL && (int)(dice() % 1000) < atoi(no)) {
    note('X', "-", 1);
    errno = dice() & 1 ? ENOSPC : EMFILE;
    return -1;
  }
  int fd = ((int (*)(char *))p)(t);
  int e = errno;
  if (fd != -1 && strstr(t, "msgbase") != NULL) note('M', t, strlen(t));
  errno = e;
  return fd;
}

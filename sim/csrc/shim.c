// libc interposition layer of the simulator.
//
// The executable exports these symbols, so every dlopen'ed node image (server
// or client process of the simulated cluster) and the Rust std inside it
// binds to them instead of libc's.  A thread that is not a simulated thread
// (sim_tid < 0) or that currently executes kernel code (sim_ink) falls through
// to the real system call.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <netdb.h>
#include <malloc.h>

__thread int sim_tid = -1;
__thread int sim_ink = 0;
long sim_alloc_ctr = 0x7fffffffffffffffL;

#define SIM (sim_tid >= 0 && !sim_ink)
#define SIMFD(fd) ((fd) >= 100000)
#define EXPORT __attribute__((visibility("default")))

static inline long raw6(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
#define RAW(n, ...) RAW_(n, ##__VA_ARGS__, 0, 0, 0, 0, 0, 0)
#define RAW_(n, a, b, c, d, e, f, ...) raw6((n), (long)(a), (long)(b), (long)(c), (long)(d), (long)(e), (long)(f))

static inline long ret(long r) {
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
#define K(expr) ({ sim_ink = 1; long __r = (long)(expr); sim_ink = 0; __r; })

// ---- accessors for the Rust side -------------------------------------------------
int shim_tid(void) { return sim_tid; }
void shim_set_tid(int t) { sim_tid = t; }
int shim_ink(void) { return sim_ink; }
void shim_set_ink(int v) { sim_ink = v; }
void shim_set_alloc_ctr(long v) { sim_alloc_ctr = v; }
long sim_nomem_ctr = 0x7fffffffffffffffL;
void shim_set_nomem_ctr(long v) { sim_nomem_ctr = v; }
extern int k_nomem(void);
long sim_edge_ctr = 0x7fffffffffffffffL;
void shim_set_edge_ctr(long v) { sim_edge_ctr = v; }
extern void k_edge_point(void);
long shim_raw(long n, long a, long b, long c, long d, long e, long f) { return raw6(n, a, b, c, d, e, f); }

// per-thread semaphores: plain futex words
void shim_sem_wait(volatile int *s) {
  while (__atomic_load_n(s, __ATOMIC_ACQUIRE) == 0) RAW(SYS_futex, s, 128 /*WAIT|PRIVATE*/, 0, 0, 0, 0);
  __atomic_store_n(s, 0, __ATOMIC_RELEASE);
}
void shim_sem_post(volatile int *s) {
  __atomic_store_n(s, 1, __ATOMIC_RELEASE);
  RAW(SYS_futex, s, 129 /*WAKE|PRIVATE*/, 1, 0, 0, 0);
}

// ---- kernel entry points (Rust) --------------------------------------------------
extern void k_point(int kind, long arg);
extern void k_alloc_point(void);
extern long k_lock_pre(int fd, int excl, long start, long len);
extern long k_clock_gettime(int clk, struct timespec *ts);
extern long k_sleep(uint64_t ns);
extern long k_sleep_until_clk(int clk, uint64_t ns_abs);
extern long k_getrandom(void *buf, size_t n);
extern long k_futex_wait(uint32_t *addr, uint32_t val, int has_timeout, uint64_t timeout_abs_ns);
extern long k_futex_wake(uint32_t *addr, int n);
extern uint64_t k_now_mono(void);
extern int k_thread_new(void);
extern void k_thread_started(int tid, void *pthread);
volatile int *shim_sems[16384];
void shim_reg_sem(int tid, volatile int *s) { if (tid >= 16384) abort(); shim_sems[tid] = s; }
static volatile int *k_thread_sem(int tid) { return shim_sems[tid]; }
extern void k_thread_exit(int tid, void *retval);
extern long k_thread_join(pthread_t th, void **retval);
extern int k_thread_known(pthread_t th);
extern void k_mutex_block(void *addr);
extern void k_mutex_unlocked(void *addr);
extern long k_yield(void);
extern long k_socket(int dom, int type, int proto);
extern long k_socketpair(int dom, int type, int proto, int *sv);
extern long k_bind(int fd, const struct sockaddr *a, socklen_t l);
extern long k_listen(int fd, int backlog);
extern long k_accept4(int fd, struct sockaddr *a, socklen_t *l, int flags);
extern long k_connect(int fd, const struct sockaddr *a, socklen_t l);
extern long k_getsockname(int fd, struct sockaddr *a, socklen_t *l);
extern long k_getpeername(int fd, struct sockaddr *a, socklen_t *l);
extern long k_setsockopt(int fd, int level, int name, const void *v, socklen_t l);
extern long k_getsockopt(int fd, int level, int name, void *v, socklen_t *l);
extern long k_readv(int fd, const struct iovec *iov, int n, int flags);
extern long k_writev(int fd, const struct iovec *iov, int n, int flags);
extern long k_shutdown(int fd, int how);
extern long k_close(int fd);
extern long k_dup(int fd);
extern long k_poll(struct pollfd *fds, nfds_t n, int timeout);
extern long k_epoll_create(void);
extern long k_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev);
extern long k_epoll_wait(int ep, struct epoll_event *ev, int max, int timeout);
extern long k_eventfd(unsigned init, int flags);
extern long k_setnonblock(int fd, int on);
extern long k_getfl(int fd);
extern long k_urandom_open(void);
extern void k_file_opened(int fd, const char *path, int flags);
extern void k_file_closed(int fd);
// returns <0: -errno to inject; >=0: number of bytes to let through (for reads/writes)
extern long k_file_pre(int op, int fd, int64_t off, size_t len, const void *buf);
extern void k_file_post(int op, int fd, int64_t off, long res, const void *buf);
extern long k_path_pre(int op, const char *path, const char *path2);
extern long k_sigaction(int sig, const struct sigaction *act, struct sigaction *old);
extern void k_node_exit(int code, int how);
extern long k_ncpu(void);
extern long k_mmap_pre(int fd);

// ops for k_file_pre
enum { F_READ = 1, F_WRITE, F_FSYNC, F_TRUNC, F_OPEN, F_UNLINK, F_RENAME, F_LINK, F_MKDIR, F_MMAP };

// ---- real functions --------------------------------------------------------------
static int (*r_pthread_create)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
static int (*r_pthread_join)(pthread_t, void **);
static int (*r_pthread_detach)(pthread_t);
static int (*r_mutex_lock)(pthread_mutex_t *);
static int (*r_mutex_trylock)(pthread_mutex_t *);
static int (*r_mutex_unlock)(pthread_mutex_t *);
static int (*r_sigaction)(int, const struct sigaction *, struct sigaction *);
static int (*r_getaddrinfo)(const char *, const char *, const struct addrinfo *, struct addrinfo **);
static void (*r_exit)(int);
static pthread_key_t exit_key;

static void exit_dtor(void *v) {
  long n = (long)v;
  if (n < 3) { pthread_setspecific(exit_key, (void *)(n + 1)); return; }
  if (sim_tid >= 0) {
    sim_ink = 1;
    k_thread_exit(sim_tid, 0);  // never returns
  }
}

static void init_real(void) {
  if (r_pthread_create) return;
  r_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
  r_pthread_detach = dlsym(RTLD_NEXT, "pthread_detach");
  r_mutex_lock = dlsym(RTLD_NEXT, "pthread_mutex_lock");
  r_mutex_trylock = dlsym(RTLD_NEXT, "pthread_mutex_trylock");
  r_mutex_unlock = dlsym(RTLD_NEXT, "pthread_mutex_unlock");
  r_sigaction = dlsym(RTLD_NEXT, "sigaction");
  r_getaddrinfo = dlsym(RTLD_NEXT, "getaddrinfo");
  r_exit = dlsym(RTLD_NEXT, "exit");
  pthread_key_create(&exit_key, exit_dtor);
  r_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
}
char **shim_argv;
int shim_argc;
__attribute__((constructor)) static void ctor(int argc, char **argv) {
  shim_argc = argc;
  shim_argv = argv;
  init_real();
}
// Replace the arguments that a node's std::env::args() will see.
void shim_set_args(const char **a, int n) {
  for (int i = 0; i < n && i + 1 < shim_argc; i++) shim_argv[i + 1] = (char *)a[i];
}
int shim_nargs(void) { return shim_argc; }
// Baton hand-over. `k` is passed only so that the compiler must assume that the
// kernel state changes while we are switched out.
void shim_switch(volatile int *theirs, volatile int *mine, void *k) {
  (void)k;
  shim_sem_post(theirs);
  shim_sem_wait(mine);
}

// ---- allocation points (called by the nodes' global allocator) ---------------------
EXPORT void simk_alloc_point(void) {
  if (SIM && --sim_alloc_ctr <= 0) { sim_ink = 1; k_alloc_point(); sim_ink = 0; }
}

// ---- basic blocks of the code under test -------------------------------------------
EXPORT void __sanitizer_cov_trace_pc(void) {
  if (SIM && --sim_edge_ctr <= 0) { sim_ink = 1; k_edge_point(); sim_ink = 0; }
}

// ---- failing allocations (called by SQLite's allocator in the server) --------------
EXPORT int simk_nomem(void) {
  if (!SIM || --sim_nomem_ctr > 0) return 0;
  sim_ink = 1;
  int r = k_nomem();
  sim_ink = 0;
  return r;
}

// ---- time --------------------------------------------------------------------------
EXPORT int clock_gettime(clockid_t c, struct timespec *ts) {
  if (SIM) return (int)K(k_clock_gettime(c, ts));
  return (int)ret(RAW(SYS_clock_gettime, c, ts));
}
EXPORT int gettimeofday(struct timeval *tv, void *tz) {
  if (SIM) {
    struct timespec ts;
    K(k_clock_gettime(CLOCK_REALTIME, &ts));
    if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
  }
  return (int)ret(RAW(SYS_gettimeofday, tv, tz));
}
EXPORT time_t time(time_t *t) {
  struct timespec ts;
  clock_gettime(CLOCK_REALTIME, &ts);
  if (t) *t = ts.tv_sec;
  return ts.tv_sec;
}
EXPORT int nanosleep(const struct timespec *req, struct timespec *rem) {
  if (SIM) return (int)ret(K(k_sleep((uint64_t)req->tv_sec * 1000000000ull + req->tv_nsec)));
  return (int)ret(RAW(SYS_nanosleep, req, rem));
}
EXPORT int clock_nanosleep(clockid_t c, int flags, const struct timespec *req, struct timespec *rem) {
  if (SIM) {
    uint64_t t = (uint64_t)req->tv_sec * 1000000000ull + req->tv_nsec;
    if (flags & TIMER_ABSTIME) K(k_sleep_until_clk(c, t)); else K(k_sleep(t));
    return 0;
  }
  return (int)-RAW(SYS_clock_nanosleep, c, flags, req, rem);
}
EXPORT int usleep(useconds_t us) {
  struct timespec ts = {us / 1000000, (us % 1000000) * 1000};
  return nanosleep(&ts, 0);
}
EXPORT unsigned sleep(unsigned s) {
  struct timespec ts = {s, 0};
  nanosleep(&ts, 0);
  return 0;
}

// ---- randomness ---------------------------------------------------------------------
EXPORT ssize_t getrandom(void *buf, size_t n, unsigned flags) {
  if (SIM) return K(k_getrandom(buf, n));
  return ret(RAW(SYS_getrandom, buf, n, flags));
}
EXPORT int getentropy(void *buf, size_t n) {
  if (SIM) { K(k_getrandom(buf, n)); return 0; }
  long r = RAW(SYS_getrandom, buf, n, 0);
  return r == (long)n ? 0 : -1;
}

// ---- raw syscall() -------------------------------------------------------------------
EXPORT long syscall(long n, ...) {
  va_list ap;
  va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (SIM) {
    switch (n) {
      case SYS_futex: {
        int op = (int)b & 127;
        int rt = (int)b & 256;
        if (op == 0 /*WAIT*/ || op == 9 /*WAIT_BITSET*/) {
          const struct timespec *ts = (const struct timespec *)d;
          uint64_t abs = 0;
          int has = 0;
          if (ts) {
            uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + ts->tv_nsec;
            has = 1;
            if (op == 0) abs = k_now_mono() + t;
            else if (rt) {
              struct timespec rn;
              K(k_clock_gettime(CLOCK_REALTIME, &rn));
              uint64_t r = (uint64_t)rn.tv_sec * 1000000000ull + rn.tv_nsec;
              abs = k_now_mono() + (t > r ? t - r : 0);
            } else abs = t;
          }
          return ret(K(k_futex_wait((uint32_t *)a, (uint32_t)c, has, abs)));
        }
        if (op == 1 || op == 10) return ret(K(k_futex_wake((uint32_t *)a, (int)c)));
        fprintf(stderr, "sim: unsupported futex op %d\n", op);
        abort();
      }
      case SYS_getrandom: return K(k_getrandom((void *)a, (size_t)b));
      case SYS_gettid: return 1000 + sim_tid;
      case SYS_statx: case SYS_copy_file_range: case SYS_getdents64: case SYS_membarrier: case SYS_renameat2:
        break;
      default: break;
    }
  }
  return ret(raw6(n, a, b, c, d, e, f));
}

// ---- threads --------------------------------------------------------------------------
struct start { void *(*fn)(void *); void *arg; int tid; };
static void *tramp(void *p) {
  struct start s = *(struct start *)p;
  sim_tid = s.tid;
  sim_ink = 1;
  shim_sem_wait(k_thread_sem(s.tid));
  free(p);
  pthread_setspecific(exit_key, (void *)1);
  sim_ink = 0;
  return s.fn(s.arg);
}
// used by the Rust kernel to create a node's main thread; also by pthread_create
int shim_spawn(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg, int tid) {
  struct start *s = malloc(sizeof *s);
  s->fn = fn; s->arg = arg; s->tid = tid;
  return r_pthread_create(th, attr, tramp, s);
}
EXPORT int pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  init_real();
  if (!SIM) return r_pthread_create(th, attr, fn, arg);
  sim_ink = 1;
  int tid = k_thread_new();
  int r = shim_spawn(th, attr, fn, arg, tid);
  if (r) { fprintf(stderr, "sim: pthread_create failed %d\n", r); abort(); }
  k_thread_started(tid, (void *)*th);
  sim_ink = 0;
  return 0;
}
EXPORT int pthread_join(pthread_t th, void **rv) {
  if (SIM && k_thread_known(th)) return (int)-K(k_thread_join(th, rv));
  return r_pthread_join(th, rv);
}
EXPORT int pthread_detach(pthread_t th) {
  if (SIM) return 0;
  return r_pthread_detach(th);
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) {
  if (!r_mutex_lock) init_real();
  if (!SIM) return r_mutex_lock(m);
  K((k_point(20, 0), 0));
  for (;;) {
    int r = r_mutex_trylock(m);
    if (r != EBUSY) return r;
    K((k_mutex_block(m), 0));
  }
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
  if (!r_mutex_unlock) init_real();
  int r = r_mutex_unlock(m);
  if (SIM) K((k_mutex_unlocked(m), 0));
  return r;
}
EXPORT int sched_yield(void) {
  if (SIM) return (int)K(k_yield());
  return (int)ret(RAW(SYS_sched_yield));
}
EXPORT int sched_getaffinity(pid_t pid, size_t sz, cpu_set_t *set) {
  if (SIM) {
    memset(set, 0, sz);
    long n = k_ncpu();
    for (long i = 0; i < n; i++) CPU_SET(i, set);
    return 0;
  }
  long r = RAW(SYS_sched_getaffinity, pid, sz, set);
  if (r < 0) return (int)ret(r);
  return 0;
}

// ---- names ------------------------------------------------------------------------------
EXPORT int getaddrinfo(const char *node, const char *svc, const struct addrinfo *h, struct addrinfo **out) {
  if (SIM) {
    struct addrinfo hh;
    memset(&hh, 0, sizeof hh);
    if (h) hh = *h;
    hh.ai_flags |= AI_NUMERICHOST | AI_NUMERICSERV;
    sim_ink = 1;
    int r = r_getaddrinfo(node, svc, &hh, out);
    sim_ink = 0;
    return r;
  }
  return r_getaddrinfo(node, svc, h, out);
}

// ---- sockets ------------------------------------------------------------------------------
EXPORT int socket(int d, int t, int p) {
  if (SIM) return (int)ret(K(k_socket(d, t, p)));
  return (int)ret(RAW(SYS_socket, d, t, p));
}
EXPORT int socketpair(int d, int t, int p, int sv[2]) {
  if (SIM) return (int)ret(K(k_socketpair(d, t, p, sv)));
  return (int)ret(RAW(SYS_socketpair, d, t, p, sv));
}
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t l) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_bind(fd, a, l)));
  return (int)ret(RAW(SYS_bind, fd, a, l));
}
EXPORT int listen(int fd, int b) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_listen(fd, b)));
  return (int)ret(RAW(SYS_listen, fd, b));
}
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *l, int fl) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_accept4(fd, a, l, fl)));
  return (int)ret(RAW(SYS_accept4, fd, a, l, fl));
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *l) { return accept4(fd, a, l, 0); }
EXPORT int connect(int fd, const struct sockaddr *a, socklen_t l) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_connect(fd, a, l)));
  return (int)ret(RAW(SYS_connect, fd, a, l));
}
EXPORT int getsockname(int fd, struct sockaddr *a, socklen_t *l) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_getsockname(fd, a, l)));
  return (int)ret(RAW(SYS_getsockname, fd, a, l));
}
EXPORT int getpeername(int fd, struct sockaddr *a, socklen_t *l) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_getpeername(fd, a, l)));
  return (int)ret(RAW(SYS_getpeername, fd, a, l));
}
EXPORT int setsockopt(int fd, int lv, int n, const void *v, socklen_t l) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_setsockopt(fd, lv, n, v, l)));
  return (int)ret(RAW(SYS_setsockopt, fd, lv, n, v, l));
}
EXPORT int getsockopt(int fd, int lv, int n, void *v, socklen_t *l) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_getsockopt(fd, lv, n, v, l)));
  return (int)ret(RAW(SYS_getsockopt, fd, lv, n, v, l));
}
EXPORT int shutdown(int fd, int how) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_shutdown(fd, how)));
  return (int)ret(RAW(SYS_shutdown, fd, how));
}
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) {
  if (SIM && SIMFD(fd)) { struct iovec v = {b, n}; return ret(K(k_readv(fd, &v, 1, fl))); }
  return ret(RAW(SYS_recvfrom, fd, b, n, fl, 0, 0));
}
EXPORT ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) {
  if (SIM && SIMFD(fd)) { struct iovec v = {b, n}; return ret(K(k_readv(fd, &v, 1, fl))); }
  return ret(RAW(SYS_recvfrom, fd, b, n, fl, a, l));
}
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) {
  if (SIM && SIMFD(fd)) { struct iovec v = {(void *)b, n}; return ret(K(k_writev(fd, &v, 1, fl))); }
  return ret(RAW(SYS_sendto, fd, b, n, fl, 0, 0));
}
EXPORT ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) {
  if (SIM && SIMFD(fd)) { struct iovec v = {(void *)b, n}; return ret(K(k_writev(fd, &v, 1, fl))); }
  return ret(RAW(SYS_sendto, fd, b, n, fl, a, l));
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
  if (SIM && SIMFD(fd)) return ret(K(k_writev(fd, m->msg_iov, (int)m->msg_iovlen, fl)));
  return ret(RAW(SYS_sendmsg, fd, m, fl));
}
EXPORT ssize_t recvmsg(int fd, struct msghdr *m, int fl) {
  if (SIM && SIMFD(fd)) { m->msg_controllen = 0; return ret(K(k_readv(fd, m->msg_iov, (int)m->msg_iovlen, fl))); }
  return ret(RAW(SYS_recvmsg, fd, m, fl));
}

// ---- read/write -----------------------------------------------------------------------------
#define FPRE(op, fd, off, len, buf) K(k_file_pre(op, fd, off, len, buf))
EXPORT ssize_t read(int fd, void *b, size_t n) {
  if (SIM) {
    if (SIMFD(fd)) { struct iovec v = {b, n}; return ret(K(k_readv(fd, &v, 1, 0))); }
    long p = FPRE(F_READ, fd, -1, n, 0);
    if (p < 0) return ret(p);
    return ret(RAW(SYS_read, fd, b, p));
  }
  return ret(RAW(SYS_read, fd, b, n));
}
EXPORT ssize_t write(int fd, const void *b, size_t n) {
  if (SIM) {
    if (SIMFD(fd)) { struct iovec v = {(void *)b, n}; return ret(K(k_writev(fd, &v, 1, 0))); }
    long p = FPRE(F_WRITE, fd, -1, n, b);
    if (p < 0) return ret(p);
    long r = RAW(SYS_write, fd, b, p);
    K((k_file_post(F_WRITE, fd, -1, r, b), 0));
    return ret(r);
  }
  return ret(RAW(SYS_write, fd, b, n));
}
EXPORT ssize_t readv(int fd, const struct iovec *v, int n) {
  if (SIM && SIMFD(fd)) return ret(K(k_readv(fd, v, n, 0)));
  return ret(RAW(SYS_readv, fd, v, n));
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int n) {
  if (SIM && SIMFD(fd)) return ret(K(k_writev(fd, v, n, 0)));
  return ret(RAW(SYS_writev, fd, v, n));
}
EXPORT ssize_t pread64(int fd, void *b, size_t n, off_t o) {
  if (SIM) {
    long p = FPRE(F_READ, fd, o, n, 0);
    if (p < 0) return ret(p);
    return ret(RAW(SYS_pread64, fd, b, p, o));
  }
  return ret(RAW(SYS_pread64, fd, b, n, o));
}
EXPORT ssize_t pread(int fd, void *b, size_t n, off_t o) { return pread64(fd, b, n, o); }
EXPORT ssize_t pwrite64(int fd, const void *b, size_t n, off_t o) {
  if (SIM) {
    long p = FPRE(F_WRITE, fd, o, n, b);
    if (p < 0) return ret(p);
    long r = RAW(SYS_pwrite64, fd, b, p, o);
    K((k_file_post(F_WRITE, fd, o, r, b), 0));
    return ret(r);
  }
  return ret(RAW(SYS_pwrite64, fd, b, n, o));
}
EXPORT ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
EXPORT int ftruncate64(int fd, off_t l) {
  if (SIM) {
    long p = FPRE(F_TRUNC, fd, l, 0, 0);
    if (p < 0) return (int)ret(p);
    long r = RAW(SYS_ftruncate, fd, l);
    K((k_file_post(F_TRUNC, fd, l, r, 0), 0));
    return (int)ret(r);
  }
  return (int)ret(RAW(SYS_ftruncate, fd, l));
}
EXPORT int ftruncate(int fd, off_t l) { return ftruncate64(fd, l); }
static int do_fsync(int fd, long nr) {
  if (SIM) {
    long p = FPRE(F_FSYNC, fd, 0, 0, 0);
    if (p < 0) return (int)ret(p);
    K((k_file_post(F_FSYNC, fd, 0, 0, 0), 0));
    return 0;  // scratch files live in tmpfs: nothing to flush
  }
  return (int)ret(RAW(nr, fd));
}
EXPORT int fsync(int fd) { return do_fsync(fd, SYS_fsync); }
EXPORT int fdatasync(int fd) { return do_fsync(fd, SYS_fdatasync); }

static int do_open(int dfd, const char *p, int fl, mode_t m) {
  if (SIM) {
    if (!strcmp(p, "/dev/urandom") || !strcmp(p, "/dev/random")) return (int)ret(K(k_urandom_open()));
    long e = K(k_path_pre(F_OPEN, p, 0));
    if (e < 0) return (int)ret(e);
    long r = RAW(SYS_openat, dfd, p, fl, m);
    if (r >= 0) K((k_file_opened((int)r, p, fl), 0));
    return (int)ret(r);
  }
  return (int)ret(RAW(SYS_openat, dfd, p, fl, m));
}
EXPORT int open64(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
  return do_open(AT_FDCWD, p, fl, m);
}
EXPORT int open(const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
  return do_open(AT_FDCWD, p, fl, m);
}
EXPORT int openat64(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
  return do_open(d, p, fl, m);
}
EXPORT int openat(int d, const char *p, int fl, ...) {
  va_list ap; va_start(ap, fl); mode_t m = va_arg(ap, int); va_end(ap);
  return do_open(d, p, fl, m);
}
EXPORT void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
  if (SIM && fd >= 0) {
    long e = K(k_mmap_pre(fd));
    if (e < 0) { errno = (int)-e; return MAP_FAILED; }
  }
  return (void *)ret(RAW(SYS_mmap, a, n, prot, fl, fd, o));
}
EXPORT void *mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o) { return mmap(a, n, prot, fl, fd, o); }
EXPORT int unlink(const char *p) {
  if (SIM) { long e = K(k_path_pre(F_UNLINK, p, 0)); if (e < 0) return (int)ret(e); }
  return (int)ret(RAW(SYS_unlink, p));
}
EXPORT int rename(const char *p, const char *q) {
  if (SIM) { long e = K(k_path_pre(F_RENAME, p, q)); if (e < 0) return (int)ret(e); }
  return (int)ret(RAW(SYS_rename, p, q));
}
EXPORT int close(int fd) {
  if (SIM) {
    if (SIMFD(fd)) return (int)ret(K(k_close(fd)));
    K((k_file_closed(fd), 0));
  }
  return (int)ret(RAW(SYS_close, fd));
}
EXPORT int dup(int fd) {
  if (SIM && SIMFD(fd)) return (int)ret(K(k_dup(fd)));
  return (int)ret(RAW(SYS_dup, fd));
}
static int do_fcntl(int fd, int cmd, long arg) {
  if (SIM && SIMFD(fd)) {
    switch (cmd) {
      case F_DUPFD: case F_DUPFD_CLOEXEC: return (int)ret(K(k_dup(fd)));
      case F_GETFL: return (int)ret(K(k_getfl(fd)));
      case F_SETFL: return (int)ret(K(k_setnonblock(fd, (arg & O_NONBLOCK) != 0)));
      default: return 0;
    }
  }
  if (SIM) K((k_point(21, 0), 0));
  if (SIM && (cmd == F_SETLK || cmd == F_SETLKW) && arg) {
    struct flock *l = (struct flock *)arg;
    long e = K(k_lock_pre(fd, l->l_type == F_WRLCK, (long)l->l_start, (long)l->l_len));
    if (e < 0) return (int)ret(e);
  }
  return (int)ret(RAW(SYS_fcntl, fd, cmd, arg));
}
EXPORT int fcntl(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  return do_fcntl(fd, cmd, a);
}
EXPORT int fcntl64(int fd, int cmd, ...) {
  va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
  return do_fcntl(fd, cmd, a);
}
EXPORT int ioctl(int fd, unsigned long rq, ...) {
  va_list ap; va_start(ap, rq); long a = va_arg(ap, long); va_end(ap);
  if (SIM && SIMFD(fd)) {
    if (rq == FIONBIO) return (int)ret(K(k_setnonblock(fd, *(int *)a)));
    return 0;
  }
  return (int)ret(RAW(SYS_ioctl, fd, rq, a));
}
EXPORT int poll(struct pollfd *f, nfds_t n, int t) {
  if (SIM) return (int)ret(K(k_poll(f, n, t)));
  return (int)ret(RAW(SYS_poll, f, n, t));
}
EXPORT int epoll_create1(int fl) {
  if (SIM) return (int)ret(K(k_epoll_create()));
  return (int)ret(RAW(SYS_epoll_create1, fl));
}
EXPORT int epoll_ctl(int ep, int op, int fd, struct epoll_event *ev) {
  if (SIM && SIMFD(ep)) return (int)ret(K(k_epoll_ctl(ep, op, fd, ev)));
  return (int)ret(RAW(SYS_epoll_ctl, ep, op, fd, ev));
}
EXPORT int epoll_wait(int ep, struct epoll_event *ev, int max, int t) {
  if (SIM && SIMFD(ep)) return (int)ret(K(k_epoll_wait(ep, ev, max, t)));
  return (int)ret(RAW(SYS_epoll_wait, ep, ev, max, t));
}
EXPORT int eventfd(unsigned i, int fl) {
  if (SIM) return (int)ret(K(k_eventfd(i, fl)));
  return (int)ret(RAW(SYS_eventfd2, i, fl));
}
EXPORT int sigaction(int s, const struct sigaction *a, struct sigaction *o) {
  if (!r_sigaction) init_real();
  if (SIM) return (int)ret(K(k_sigaction(s, a, o)));
  return r_sigaction(s, a, o);
}
EXPORT void _exit(int c) {
  if (SIM) { sim_ink = 1; k_node_exit(c, 1); }
  for (;;) RAW(SYS_exit_group, c);
}
// std::process::exit of a second simulated process waits here for the first to end
EXPORT int pause(void) {
  if (SIM) { sim_ink = 1; k_node_exit(1, 0); }
  for (;;) RAW(SYS_pause, 0);
}
EXPORT void exit(int c) {
  if (SIM) { sim_ink = 1; k_node_exit(c, 0); }
  r_exit(c);
  for (;;) RAW(SYS_exit_group, c);
}
EXPORT void abort(void) {
  if (SIM) { sim_ink = 1; k_node_exit(134, 2); }
  long me = RAW(SYS_getpid);
  RAW(SYS_kill, me, SIGABRT);
  for (;;) RAW(SYS_exit_group, 134);
}
EXPORT pid_t getpid(void) {
  if (SIM) return 4242;
  return (pid_t)RAW(SYS_getpid);
}
EXPORT pid_t gettid(void) {
  if (SIM) return 1000 + sim_tid;
  return (pid_t)RAW(SYS_gettid);
}

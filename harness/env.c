#define _GNU_SOURCE
#include "env.h"
#include <errno.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#define WEAK __attribute__((weak))
// ---------------------------------------------------------------- streams
WEAK void env_out(int fd, const char *s, size_t n) { (void)fd; (void)s; (void)n; }
static char obuf[8192];
struct stm { struct env_vfile *f; size_t pos; int open; };
static struct stm streams[8];
static struct stm *stm(FILE *f) { for (int i = 0; i < 8; i++) if ((void *)f == (void *)&streams[i]) return &streams[i]; return 0; }
WEAK void env_point(void) {}                             /* another thread may run here: in front of and behind every call to a stream or the clock */
static struct { int owner, depth; } fl_[3];
static void fl_lock(FILE *f) { int i = f == stderr ? 2 : f == stdout ? 1 : 0; if (!i) return; if (fl_[i].depth && fl_[i].owner != sym_tid()) sym_stop(); fl_[i].owner = sym_tid(); fl_[i].depth++; sym_acquire(&fl_[i]); }
static void fl_unlock(FILE *f) { int i = f == stderr ? 2 : f == stdout ? 1 : 0; if (!i) return; sym_release(&fl_[i]); fl_[i].depth--; }
static void out_(FILE *f, const char *s, size_t n, int nl) { env_point(); fl_lock(f); env_out(f == stderr ? 2 : 1, s, n); if (nl) env_out(f == stderr ? 2 : 1, "\n", 1); fl_unlock(f); env_point(); }
WEAK void moth_flockfile(FILE *f) { env_point(); fl_lock(f); env_point(); }
WEAK int moth_ftrylockfile(FILE *f) { int i = f == stderr ? 2 : f == stdout ? 1 : 0; env_point(); if (i && fl_[i].depth && fl_[i].owner != sym_tid()) return EBUSY; fl_lock(f); return 0; }
WEAK void moth_funlockfile(FILE *f) { fl_unlock(f); env_point(); }
WEAK int moth_vfprintf(FILE *f, const char *fmt, va_list ap) { env_point(); int n = vsnprintf(obuf, sizeof obuf, fmt, ap); fl_lock(f); env_out(f == stderr ? 2 : 1, obuf, n < (int)sizeof obuf ? n : sizeof obuf - 1); fl_unlock(f); env_point(); return n; }
WEAK int moth_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = moth_vfprintf(f, fmt, ap); va_end(ap); return r; }
WEAK int moth_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = moth_vfprintf(stdout, fmt, ap); va_end(ap); return r; }
WEAK int moth_vprintf(const char *fmt, va_list ap) { return moth_vfprintf(stdout, fmt, ap); }
WEAK int moth_vdprintf(int fd, const char *fmt, va_list ap) { env_point(); int n = vsnprintf(obuf, sizeof obuf, fmt, ap); env_out(fd, obuf, n < (int)sizeof obuf ? n : sizeof obuf - 1); env_point(); return n; }
WEAK int moth_dprintf(int fd, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = moth_vdprintf(fd, fmt, ap); va_end(ap); return r; }
WEAK int moth_puts(const char *s) { out_(stdout, s, strlen(s), 1); return 1; }
WEAK int moth_fputs(const char *s, FILE *f) { out_(f, s, strlen(s), 0); return 1; }
WEAK int moth_putchar(int c) { char b = (char)c; out_(stdout, &b, 1, 0); return c; }
WEAK int moth_fputc(int c, FILE *f) { char b = (char)c; out_(f, &b, 1, 0); return c; }
WEAK int moth_putc(int c, FILE *f) { return moth_fputc(c, f); }
WEAK int moth_fputs_unlocked(const char *s, FILE *f) { return moth_fputs(s, f); }
WEAK int moth_fputc_unlocked(int c, FILE *f) { return moth_fputc(c, f); }
WEAK int moth_putc_unlocked(int c, FILE *f) { return moth_fputc(c, f); }
WEAK int moth_putchar_unlocked(int c) { return moth_putchar(c); }
WEAK size_t moth_fwrite(const void *p, size_t a, size_t b, FILE *f) { sym_touch(p, a * b, 0); out_(f, p, a * b, 0); return b; }
WEAK size_t moth_fwrite_unlocked(const void *p, size_t a, size_t b, FILE *f) { return moth_fwrite(p, a, b, f); }
WEAK int moth_fflush(FILE *f) { (void)f; return 0; }
WEAK int moth_fflush_unlocked(FILE *f) { (void)f; return 0; }
WEAK void moth_perror(const char *s) { (void)s; }
WEAK ssize_t moth_write(int fd, const void *p, size_t n) { if (fd == 1 || fd == 2) { env_point(); env_out(fd, p, n); env_point(); } return n; }
// ---------------------------------------------------------------- files
struct env_vfile env_vfs[8]; int env_nvfs;
int env_open_fds, env_bad_close, env_open_maps, env_bad_unmap, env_open_streams, env_opens;
struct env_vfile *env_add_file(const char *path, const void *data, size_t size) { struct env_vfile *v = &env_vfs[env_nvfs++]; v->path = path; v->data = data; v->size = size; v->exists = v->openable = v->mappable = 1; v->mode = S_IFREG | 0644; v->mtime = 1; return v; }
static struct env_vfile *look(const char *p) { for (int i = 0; i < env_nvfs; i++) if (env_vfs[i].exists && strcmp(env_vfs[i].path, p) == 0) return &env_vfs[i]; return 0; }
static struct { int open; struct env_vfile *f; size_t pos; } fds[32];
int env_fd0 = 10; // the descriptor that the first open file gets
#define FD0 env_fd0
static void fill(struct stat *st, struct env_vfile *v) { memset(st, 0, sizeof *st); st->st_size = v->size; st->st_mode = v->mode; st->st_nlink = 1; st->st_blksize = ENV_PAGE; st->st_mtime = v->mtime; sym_touch(st, sizeof *st, 1); }
WEAK int moth_stat(const char *p, struct stat *st) { struct env_vfile *v = look(p); if (!v) { errno = ENOENT; return -1; } fill(st, v); return 0; }
WEAK int moth_lstat(const char *p, struct stat *st) { return moth_stat(p, st); }
WEAK int moth_open(const char *p, int fl, ...) { (void)fl; struct env_vfile *v = look(p); if (!v || !v->openable) { errno = v ? EACCES : ENOENT; return -1; }
  for (int i = 0; i < 32; i++) if (!fds[i].open) { fds[i].open = 1; fds[i].f = v; fds[i].pos = 0; env_open_fds++; env_opens++; return FD0 + i; } errno = EMFILE; return -1; }
WEAK int moth_fstat(int fd, struct stat *st) { if (fd < FD0 || fd >= FD0 + 32 || !fds[fd - FD0].open) { errno = EBADF; return -1; } fill(st, fds[fd - FD0].f); return 0; }
WEAK ssize_t moth_read(int fd, void *b, size_t n) { return env_read(fd, b, n); }
long env_read(int fd, void *b, size_t n) { if (fd < FD0 || fd >= FD0 + 32 || !fds[fd - FD0].open) { errno = EBADF; return -1; } struct env_vfile *v = fds[fd - FD0].f; size_t *pos = &fds[fd - FD0].pos, k = v->size - *pos; if (k > n) k = n; memcpy(b, v->data + *pos, k); sym_touch(b, k, 1); *pos += k; return k; }
WEAK off_t moth_lseek(int fd, off_t o, int wh) { if (fd < FD0 || fd >= FD0 + 32 || !fds[fd - FD0].open) { errno = EBADF; return -1; } struct env_vfile *v = fds[fd - FD0].f; size_t p = wh == SEEK_SET ? (size_t)o : wh == SEEK_END ? v->size + o : fds[fd - FD0].pos + o; fds[fd - FD0].pos = p; return p; }
int env_conn_fd = 7, env_conn_closed;
WEAK int moth_close(int fd) { return env_close(fd); }
int env_close(int fd) { if (fd == env_conn_fd) { env_conn_closed++; return 0; } if (fd == -1) { errno = EBADF; return -1; }
  if (fd < FD0 || fd >= FD0 + 32 || !fds[fd - FD0].open) { env_bad_close++; errno = EBADF; return -1; } fds[fd - FD0].open = 0; env_open_fds--; return 0; }
WEAK int moth_shutdown(int fd, int how) { (void)fd; (void)how; return 0; }
static struct { void *p; size_t len; } maps[16];
#define RND(n) (((n) + ENV_PAGE - 1) / ENV_PAGE * ENV_PAGE)
WEAK void *moth_mmap(void *a, size_t len, int pr, int fl, int fd, off_t off) { (void)a; (void)pr; (void)fl;
  if (!len || off % ENV_PAGE) { errno = EINVAL; return MAP_FAILED; }
  if (fd < FD0 || fd >= FD0 + 32 || !fds[fd - FD0].open) { errno = EBADF; return MAP_FAILED; }
  struct env_vfile *v = fds[fd - FD0].f; if (!v->mappable) { errno = ENOMEM; return MAP_FAILED; }
  // pages wholly behind the file's end would raise SIGBUS: they are not part of the object
  size_t have = (size_t)off < v->size ? v->size - off : 0, use = have < len ? have : len; size_t vis = RND(have) < RND(len) ? RND(have) : RND(len);
  for (int i = 0; i < 16; i++) if (!maps[i].p) { if (v->huge) vis = ENV_PAGE; char *p = malloc(vis); if (!p) { errno = ENOMEM; return MAP_FAILED; } memset(p, 0, vis); if (v->huge) memcpy(p, v->data, v->huge); else memcpy(p, v->data + off, RND(use) > have ? have : use == len ? (RND(len) < have ? RND(len) : have) : use); maps[i].p = p; maps[i].len = RND(len); env_open_maps++; return p; }
  errno = ENOMEM; return MAP_FAILED; }
WEAK int moth_munmap(void *p, size_t len) { for (int i = 0; i < 16; i++) if (maps[i].p && maps[i].p == p) { if (!len || RND(len) != maps[i].len) { env_bad_unmap++; errno = EINVAL; return -1; } sym_touch(p, 1, 1); free(p); maps[i].p = 0; env_open_maps--; return 0; } env_bad_unmap++; errno = EINVAL; return -1; }
WEAK int moth_madvise(void *p, size_t n, int a) { (void)p; (void)n; (void)a; return 0; }
WEAK int moth_posix_madvise(void *p, size_t n, int a) { (void)p; (void)n; (void)a; return 0; }
WEAK int moth_access(const char *p, int m) { (void)m; struct env_vfile *v = look(p); return v && v->openable ? 0 : -1; }
WEAK FILE *moth_fopen(const char *p, const char *m) { (void)m; struct env_vfile *v = look(p); if (!v || !v->openable) { errno = ENOENT; return 0; } for (int i = 0; i < 8; i++) if (!streams[i].open) { streams[i].open = 1; streams[i].f = v; streams[i].pos = 0; env_open_streams++; return (FILE *)(void *)&streams[i]; } errno = EMFILE; return 0; }
WEAK size_t moth_fread(void *b, size_t a, size_t n, FILE *f) { struct stm *s = stm(f); if (!s || !s->open || !a) return 0; size_t k = s->f->size - s->pos, want = a * n; if (k > want) k = want; k -= k % a;
  sym_assert(!want || sym_valid(b, want), "fread is offered memory outside the buffer"); memcpy(b, s->f->data + s->pos, k); sym_touch(b, k, 1); s->pos += k; return k / a; }
WEAK char *moth_fgets(char *b, int n, FILE *f) { struct stm *s = stm(f); int k = 0; if (!s || !s->open || n <= 0) return 0; while (k < n - 1 && s->pos < s->f->size) { char c = s->f->data[s->pos++]; b[k++] = c; if (c == '\n') break; } if (!k) return 0; sym_touch(b, (size_t)k + 1, 1); b[k] = 0; return b; }
WEAK int moth_fgetc(FILE *f) { struct stm *s = stm(f); if (!s || s->pos >= s->f->size) return -1; return s->f->data[s->pos++]; }
WEAK int moth_getc(FILE *f) { return moth_fgetc(f); }
WEAK int moth_feof(FILE *f) { struct stm *s = stm(f); return !s || s->pos >= s->f->size; }
WEAK int moth_ferror(FILE *f) { (void)f; return 0; }
WEAK int moth_fseek(FILE *f, long o, int wh) { struct stm *s = stm(f); if (!s) return -1; s->pos = wh == SEEK_SET ? (size_t)o : wh == SEEK_END ? s->f->size + o : s->pos + o; return 0; }
WEAK long moth_ftell(FILE *f) { struct stm *s = stm(f); return s ? (long)s->pos : -1; }
WEAK void moth_rewind(FILE *f) { struct stm *s = stm(f); if (s) s->pos = 0; }
WEAK int moth_fileno(FILE *f) { (void)f; return -1; }
WEAK int moth_fclose(FILE *f) { struct stm *s = stm(f); if (!s || !s->open) { env_bad_close++; return -1; } s->open = 0; env_open_streams--; return 0; }
// ---------------------------------------------------------------- connection
struct env_seg env_segs[8]; int env_nsegs, env_segi; size_t env_segoff; long env_recv_end; int env_recv_calls, env_would_block;
unsigned char *env_wire; size_t env_wire_n, env_wire_cap; int env_send_calls;
void env_reset_conn(int fd) { env_conn_fd = fd; env_conn_closed = 0; env_segi = 0; env_segoff = 0; env_recv_calls = 0; env_wire_n = 0; env_send_calls = 0; }
WEAK ssize_t moth_recv(int fd, void *b, size_t n, int fl) { (void)fl; env_recv_calls++;
  sym_assert(fd == env_conn_fd && !env_conn_closed, "read from a descriptor that is not the open connection");
  sym_assert(!n || sym_valid(b, n), "recv is offered memory outside the buffer");
  if (env_segi >= env_nsegs) { if (env_would_block) sym_stop(); if (env_recv_end < 0) errno = ECONNRESET; return env_recv_end; }
  struct env_seg *s = &env_segs[env_segi]; size_t k = s->len - env_segoff; if (k > n) k = n; memcpy(b, s->data + env_segoff, k); sym_touch(b, k, 1); env_segoff += k; if (env_segoff == s->len) { env_segi++; env_segoff = 0; } return k; }
WEAK ssize_t moth_read_conn(int fd, void *b, size_t n) { return moth_recv(fd, b, n, 0); }
WEAK ssize_t moth_send(int fd, const void *b, size_t n, int fl) { (void)fl; env_send_calls++; sym_assert(fd == env_conn_fd && !env_conn_closed, "write to a descriptor that is not the open connection"); sym_assert(!n || sym_valid(b, n), "send is offered bytes outside the response");
  sym_assert(!n || sym_init(b, n), "uninitialised bytes are sent"); if (env_wire && env_wire_n + n <= env_wire_cap) memcpy(env_wire + env_wire_n, b, n); env_wire_n += n; return n; }
// ---------------------------------------------------------------- signals: only whether SIGPIPE can end the process is kept
#include <signal.h>
int env_sigpipe_off; typedef void (*hnd_)(int);
WEAK hnd_ moth_signal(int s, hnd_ h) { if (s == SIGPIPE) env_sigpipe_off = h != SIG_DFL; return SIG_DFL; }
WEAK int moth_sigaction(int s, const struct sigaction *a, struct sigaction *o) { if (o) memset(o, 0, sizeof *o); if (a && s == SIGPIPE) env_sigpipe_off = a->sa_handler != SIG_DFL; return 0; }
WEAK int moth_sigemptyset(sigset_t *s) { memset(s, 0, sizeof *s); return 0; }
WEAK int moth_sigaddset(sigset_t *s, int n) { ((unsigned char *)s)[(n - 1) / 8] |= (unsigned char)(1 << (n - 1) % 8); return 0; }
static int mask_(int h, const sigset_t *s, sigset_t *o) { if (o) memset(o, 0, sizeof *o); if (s && (((const unsigned char *)s)[(SIGPIPE - 1) / 8] >> (SIGPIPE - 1) % 8 & 1)) env_sigpipe_off = h != SIG_UNBLOCK; return 0; }
WEAK int moth_sigprocmask(int h, const sigset_t *s, sigset_t *o) { return mask_(h, s, o); }
WEAK int moth_pthread_sigmask(int h, const sigset_t *s, sigset_t *o) { return mask_(h, s, o); }
// ---------------------------------------------------------------- time
static time_t now_t = 1700000000;
WEAK int moth_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = now_t; tv->tv_usec = 0; return 0; }
WEAK time_t moth_time(time_t *t) { if (t) { *t = now_t; sym_touch(t, sizeof *t, 1); } return now_t; }
WEAK int moth_clock_gettime(clockid_t c, struct timespec *ts) { (void)c; ts->tv_sec = now_t; ts->tv_nsec = 0; sym_touch(ts, sizeof *ts, 1); return 0; }
static struct tm tm_; WEAK struct tm *moth_localtime(const time_t *t) { (void)t; sym_touch(&tm_, sizeof tm_, 1); tm_.tm_year = 123; tm_.tm_mday = 14; tm_.tm_mon = 10; return &tm_; }
WEAK struct tm *moth_gmtime(const time_t *t) { return moth_localtime(t); }
WEAK struct tm *moth_localtime_r(const time_t *t, struct tm *r) { env_point(); struct tm x; memset(&x, 0, sizeof x); x.tm_year = 123; x.tm_mday = 14; x.tm_mon = 10; sym_touch(t, sizeof *t, 0); *r = x; sym_touch(r, sizeof *r, 1); return r; }
WEAK struct tm *moth_gmtime_r(const time_t *t, struct tm *r) { return moth_localtime_r(t, r); }
WEAK size_t moth_strftime(char *b, size_t n, const char *f, const struct tm *t) { env_point(); (void)f; sym_touch(t, sizeof *t, 0); static const char s[] = "Nov 14 22:13:20"; if (n < sizeof s) return 0; memcpy(b, s, sizeof s); sym_touch(b, sizeof s, 1); return sizeof s - 1; }
static char ct_[26]; WEAK char *moth_asctime(const struct tm *t) { sym_touch(t, sizeof *t, 0); sym_touch(ct_, sizeof ct_, 1); memcpy(ct_, "Tue Nov 14 22:13:20 2023\n", 26); return ct_; }
WEAK char *moth_ctime(const time_t *t) { return moth_asctime(moth_localtime(t)); }
static char *tok_; WEAK char *moth_strtok(char *s, const char *a) { sym_touch(&tok_, sizeof tok_, 1); return strtok_r(s, a, &tok_); }
WEAK unsigned moth_sleep(unsigned n) { (void)n; return 0; }
WEAK int moth_usleep(unsigned n) { (void)n; return 0; }
// ---------------------------------------------------------------- mutual exclusion (the first word of the object says whether it is held)
#include <pthread.h>
static int lock_(void *m) { int *l = m; if (*l) { if (*l == 1 + sym_tid()) { sym_assert(0, "a thread waits for a lock it holds itself"); } sym_stop(); } *l = 1 + sym_tid(); sym_acquire(m); return 0; }
static int unlock_(void *m) { *(int *)m = 0; sym_release(m); return 0; }
/* recursive mutexes: the kind is the fifth word (as in PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP), the depth the second */
WEAK int moth_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
WEAK int moth_pthread_mutexattr_settype(pthread_mutexattr_t *a, int k) { *(int *)a = k; return 0; }
WEAK int moth_pthread_mutexattr_destroy(pthread_mutexattr_t *a) { (void)a; return 0; }
WEAK int moth_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { memset(m, 0, sizeof *m); if (a) ((int *)m)[4] = *(const int *)a & 3; return 0; }
WEAK int moth_pthread_mutex_destroy(pthread_mutex_t *m) { (void)m; return 0; }
WEAK int moth_pthread_mutex_lock(pthread_mutex_t *m) { int *l = (int *)m; if (l[4] == 1 && *l == 1 + sym_tid()) { l[1]++; return 0; } return lock_(m); }
WEAK int moth_pthread_mutex_trylock(pthread_mutex_t *m) { if (*(int *)m) return EBUSY; return lock_(m); }
WEAK int moth_pthread_mutex_unlock(pthread_mutex_t *m) { int *l = (int *)m; if (l[1]) { l[1]--; return 0; } return unlock_(m); }
WEAK int moth_pthread_spin_init(pthread_spinlock_t *m, int s) { (void)s; *(int *)m = 0; return 0; }
WEAK int moth_pthread_spin_destroy(pthread_spinlock_t *m) { (void)m; return 0; }
WEAK int moth_pthread_spin_lock(pthread_spinlock_t *m) { return lock_((void *)m); }
WEAK int moth_pthread_spin_unlock(pthread_spinlock_t *m) { return unlock_((void *)m); }
WEAK int moth_pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *a) { (void)a; memset(m, 0, sizeof *m); return 0; }
WEAK int moth_pthread_rwlock_destroy(pthread_rwlock_t *m) { (void)m; return 0; }
WEAK int moth_pthread_rwlock_rdlock(pthread_rwlock_t *m) { return lock_(m); }
WEAK int moth_pthread_rwlock_wrlock(pthread_rwlock_t *m) { return lock_(m); }
WEAK int moth_pthread_rwlock_unlock(pthread_rwlock_t *m) { return unlock_(m); }
WEAK int moth_pthread_once(pthread_once_t *o, void (*fn)(void)) { if (!*o) { *o = 1; fn(); *o = 2; sym_release(o); } else if (*o == 1) sym_stop(); sym_acquire(o); return 0; }
WEAK pthread_t moth_pthread_self(void) { return (pthread_t)(unsigned long)(1000 + sym_tid()); }
// ---------------------------------------------------------------- other calls a change may bring in
#include <sys/uio.h>
#include <unistd.h>
WEAK int moth_getpid(void) { return 4242; }
WEAK int moth_getppid(void) { return 1; }
WEAK int moth_sched_yield(void) { env_point(); return 0; }
WEAK int moth_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; if (b) { b->tv_sec = 0; b->tv_nsec = 0; } env_point(); return 0; }
WEAK char *moth_getenv(const char *n) { (void)n; return 0; }
WEAK char *moth_secure_getenv(const char *n) { (void)n; return 0; }
static unsigned rnd_; WEAK int moth_rand(void) { return (int)(rnd_ = rnd_ * 1103515245u + 12345u) & 0x7fffffff; }
WEAK long moth_random(void) { return moth_rand(); }
WEAK void moth_srand(unsigned s) { rnd_ = s; }
WEAK void moth_srandom(unsigned s) { rnd_ = s; }
WEAK long moth_sysconf(int n) { return n == _SC_PAGESIZE ? (long)ENV_PAGE : n == _SC_NPROCESSORS_ONLN ? 4 : -1; }
WEAK int moth_getpagesize(void) { return ENV_PAGE; }
WEAK int moth_setvbuf(FILE *f, char *b, int m, size_t n) { (void)f; (void)b; (void)m; (void)n; return 0; }
WEAK void moth_setbuf(FILE *f, char *b) { (void)f; (void)b; }
WEAK int moth_posix_fadvise(int fd, off_t o, off_t n, int a) { (void)fd; (void)o; (void)n; (void)a; return 0; }
WEAK ssize_t moth_readahead(int fd, off_t o, size_t n) { (void)fd; (void)o; (void)n; return 0; }
WEAK int moth_mprotect(void *p, size_t n, int a) { (void)p; (void)n; (void)a; return 0; }
WEAK int moth_msync(void *p, size_t n, int a) { (void)p; (void)n; (void)a; return 0; }
WEAK int moth_posix_memalign(void **p, size_t a, size_t n) { (void)a; void *q = malloc(n); if (!q) return ENOMEM; *p = q; return 0; }
WEAK void *moth_aligned_alloc(size_t a, size_t n) { (void)a; return malloc(n); }
WEAK ssize_t moth_pread(int fd, void *b, size_t n, off_t o) { if (fd < FD0 || fd >= FD0 + 32 || !fds[fd - FD0].open) { errno = EBADF; return -1; } size_t was = fds[fd - FD0].pos; fds[fd - FD0].pos = (size_t)o < fds[fd - FD0].f->size ? (size_t)o : fds[fd - FD0].f->size; ssize_t r = env_read(fd, b, n); fds[fd - FD0].pos = was; return r; }
WEAK ssize_t moth_getdelim(char **l, size_t *cap, int d, FILE *f) { struct stm *s = stm(f); size_t k = 0; if (!s || !s->open || s->pos >= s->f->size) return -1; while (s->pos + k < s->f->size) if (s->f->data[s->pos + k++] == d) break;
  if (!*l || *cap < k + 1) { char *q = realloc(*l, k + 1); if (!q) return -1; *l = q; *cap = k + 1; } memcpy(*l, s->f->data + s->pos, k); (*l)[k] = 0; s->pos += k; return (ssize_t)k; }
WEAK ssize_t moth_getline(char **l, size_t *cap, FILE *f) { return moth_getdelim(l, cap, '\n', f); }
WEAK ssize_t moth_writev(int fd, const struct iovec *v, int n) { ssize_t all = 0; for (int i = 0; i < n; i++) { if (!v[i].iov_len) continue; ssize_t r = moth_write(fd, v[i].iov_base, v[i].iov_len); if (r < 0) return all ? all : r; all += r; if ((size_t)r < v[i].iov_len) break; } return all; }
WEAK ssize_t moth_sendmsg(int fd, const struct msghdr *m, int fl) { ssize_t all = 0; for (size_t i = 0; i < m->msg_iovlen; i++) { if (!m->msg_iov[i].iov_len) continue; ssize_t r = moth_send(fd, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len, fl); if (r < 0) return all ? all : r; all += r; if ((size_t)r < m->msg_iov[i].iov_len) break; } return all; }
WEAK ssize_t moth_recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; return moth_recv(fd, b, n, fl); }
WEAK ssize_t moth_sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; return moth_send(fd, b, n, fl); }
WEAK int moth_fcntl(int fd, int c, ...) { (void)fd; (void)c; return 0; }
WEAK int moth_getsockopt(int fd, int l, int o, void *v, socklen_t *n) { (void)fd; (void)l; (void)o; if (v && *n) memset(v, 0, *n); return 0; }
WEAK int moth_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); return 0; }
WEAK int moth_pthread_attr_destroy(pthread_attr_t *a) { (void)a; return 0; }
WEAK int moth_pthread_attr_setdetachstate(pthread_attr_t *a, int d) { (void)a; (void)d; return 0; }
WEAK int moth_pthread_attr_setstacksize(pthread_attr_t *a, size_t n) { (void)a; (void)n; return 0; }
WEAK int moth_pthread_setname_np(pthread_t t, const char *n) { (void)t; (void)n; return 0; }
WEAK int moth_pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *a) { (void)a; memset(c, 0, sizeof *c); return 0; }
WEAK int moth_pthread_cond_destroy(pthread_cond_t *c) { (void)c; return 0; }
WEAK int moth_pthread_cond_signal(pthread_cond_t *c) { (void)c; return 0; }
WEAK int moth_pthread_cond_broadcast(pthread_cond_t *c) { (void)c; return 0; }
static struct { int used; void *v[8]; } keys_[16];
WEAK int moth_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { (void)d; for (unsigned i = 0; i < 16; i++) if (!keys_[i].used) { keys_[i].used = 1; *k = i; return 0; } return EAGAIN; }
WEAK int moth_pthread_key_delete(pthread_key_t k) { keys_[k].used = 0; return 0; }
WEAK void *moth_pthread_getspecific(pthread_key_t k) { return keys_[k].v[sym_tid() & 7]; }
WEAK int moth_pthread_setspecific(pthread_key_t k, const void *v) { keys_[k].v[sym_tid() & 7] = (void *)v; return 0; }

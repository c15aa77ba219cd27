#include "wrap.h"
#undef free
#undef strdup
#include <poll.h>
#include <time.h>
#include <sys/wait.h>
int w_clock; struct timeval w_real; struct rusage w_self, w_children;
int w_time; time_t w_now;
int w_syslog; struct w_slogbuf *w_slogb;
int w_kill; struct w_kill w_kills[1024]; int w_nkill;
int w_eintr;
int w_io, w_sched[4096], w_nsched, w_isched;

time_t __wrap_time(time_t *t)
{
	if (!w_time) return __real_time(t);
	if (t) *t = w_now;
	return w_now;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
	if (!w_clock) return __real_gettimeofday(tv, tz);
	*tv = w_real;
	return 0;
}
int __wrap_getrusage(int who, struct rusage *r)
{
	if (!w_clock) return __real_getrusage(who, r);
	*r = who == RUSAGE_SELF ? w_self : w_children;
	return 0;
}
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t id, struct timespec *ts)
{
	if (w_clock && (id == CLOCK_REALTIME || id == CLOCK_MONOTONIC)) { ts->tv_sec = w_real.tv_sec; ts->tv_nsec = w_real.tv_usec * 1000; return 0; }
	if (w_time && id == CLOCK_REALTIME) { ts->tv_sec = w_now; ts->tv_nsec = 0; return 0; }
	return __real_clock_gettime(id, ts);
}
void __real_openlog(const char *, int, int);
void __real_closelog(void);
void __real_vsyslog(int, const char *, va_list);
static const char *w_ident;
static struct w_slog *slog(char what)
{
	struct w_slog *s;
	if (w_nslog >= 64) w_nslog = 63;
	s = &w_slogs[w_nslog++];
	s->what = what; s->pri = s->opt = 0; s->text[0] = s->id[0] = 0;
	return s;
}
void __wrap_openlog(const char *ident, int opt, int fac)
{
	struct w_slog *s;
	if (!w_syslog) { __real_openlog(ident, opt, fac); return; }
	w_ident = ident;                                /* like the real one: not the text, but where it is */
	s = slog('o'); s->pri = fac; s->opt = opt; snprintf(s->text, sizeof s->text, "%s", ident ? ident : "<null>");
}
void __wrap_closelog(void) { if (!w_syslog) __real_closelog(); else { slog('c'); w_ident = NULL; } }
void __wrap_vsyslog(int pri, const char *fmt, va_list ap)
{
	struct w_slog *s;
	if (!w_syslog) { __real_vsyslog(pri, fmt, ap); return; }
	s = slog('m'); s->pri = pri; snprintf(s->id, sizeof s->id, "%s", w_ident ? w_ident : ""); vsnprintf(s->text, sizeof s->text, fmt, ap);
}
void __wrap_syslog(int pri, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt); __wrap_vsyslog(pri, fmt, ap); va_end(ap);
}
int __wrap_kill(pid_t pid, int sig)
{
	if (!w_kill) return __real_kill(pid, sig);
	if (w_nkill < 1024) { w_kills[w_nkill].pid = pid; w_kills[w_nkill++].sig = sig; }
	return w_kill == 1 ? __real_kill(pid, sig) : 0;
}
pid_t __wrap_waitpid(pid_t pid, int *st, int opt)
{
	if (w_eintr > 0 && !(opt & WNOHANG)) { w_eintr--; errno = EINTR; return -1; }
	return __real_waitpid(pid, st, opt);
}
pid_t __real_wait4(pid_t, int *, int, struct rusage *);
pid_t __wrap_wait4(pid_t pid, int *st, int opt, struct rusage *ru)
{
	if (w_eintr > 0 && !(opt & WNOHANG)) { w_eintr--; errno = EINTR; return -1; }
	return __real_wait4(pid, st, opt, ru);
}
/* next entry of the schedule: 0 pass, -1 with errno set, or a byte limit */
static int sched(void)
{
	int s;
	if (!w_io || w_isched >= w_nsched) return 0;
	s = w_sched[w_isched++];
	if (s == 'I' + 1000) { errno = EINTR; return -1; }
	if (s == 'A' + 1000) { errno = EAGAIN; return -1; }
	return s;
}
int w_fdin, w_fdout, w_ws[4096], w_nws, w_iws, w_rs[4096], w_nrs, w_irs, w_ss[4096], w_nss, w_iss;
unsigned char *w_acc; long w_nacc, w_nout;
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	if (w_io == 2) {                    /* always ready, unless interrupted */
		int o = w_iss < w_nss ? w_ss[w_iss++] : 0;
		if (o == 'I' + 1000) { errno = EINTR; return -1; }
		if (e) FD_ZERO(e);
		if (o == 'T' + 1000) { if (r) FD_ZERO(r); if (w) FD_ZERO(w); return 0; }
		return 1;
	}
	if (w_io && w_isched < w_nsched && w_sched[w_isched] == 'I' + 1000) { w_isched++; errno = EINTR; return -1; }
	return __real_select(n, r, w, e, tv);
}
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd *f, nfds_t n, int tmo)
{
	nfds_t i;
	if (w_io == 2) {
		int o = w_iss < w_nss ? w_ss[w_iss++] : 0, r = 0;
		if (o == 'I' + 1000) { errno = EINTR; return -1; }
		for (i = 0; i < n; i++) { f[i].revents = o == 'T' + 1000 || f[i].fd < 0 ? 0 : f[i].events; r += !!f[i].revents; }
		return r;
	}
	if (w_io && w_isched < w_nsched && w_sched[w_isched] == 'I' + 1000) { w_isched++; errno = EINTR; return -1; }
	return __real_poll(f, n, tmo);
}
static int outcome(int *s, int n, int *i, int dflt)
{
	int o = *i < n ? s[(*i)++] : dflt;
	if (o == 'I' + 1000) { errno = EINTR; return -1; }
	if (o == 'A' + 1000) { errno = EAGAIN; return -1; }
	return o == 'E' + 1000 ? 0 : o;
}
ssize_t __wrap_read(int fd, void *b, size_t n)
{
	int s, i;
	if (w_io == 2 && fd == w_fdout) {
		/* the simulated filter ends its output only when its input has ended */
		if ((w_irs >= w_nrs || w_rs[w_irs] == 'E' + 1000) && fcntl(w_fdin, F_GETFD) >= 0) { errno = EAGAIN; return -1; }
		if ((s = outcome(w_rs, w_nrs, &w_irs, 'E' + 1000)) <= 0) return s;
		if ((size_t)s > n) { w_rs[--w_irs] = s - n; s = n; }      /* the rest is for the next read */
		for (i = 0; i < s; i++) ((unsigned char *)b)[i] = (w_nout++ * 7 + 1) % 256;
		return s;
	}
	if (w_io == 2 || (s = sched()) == 0) return __real_read(fd, b, n);
	if (s < 0) return -1;
	return __real_read(fd, b, (size_t)s < n ? (size_t)s : n);
}
ssize_t __wrap_write(int fd, const void *b, size_t n)
{
	int s;
	if (w_io == 2 && fd == w_fdin) {
		if ((s = outcome(w_ws, w_nws, &w_iws, 1 << 30)) <= 0) return s;
		if ((size_t)s > n) s = n;
		memcpy(w_acc + w_nacc, b, s); w_nacc += s;
		return s;
	}
	if (w_io == 2 || (s = sched()) == 0) return __real_write(fd, b, n);
	if (s < 0) return -1;
	return __real_write(fd, b, (size_t)s < n ? (size_t)s : n);
}

/* what the library allocates: its objects call these */
#include <malloc.h>
#include <string.h>
long vm_blocks, vm_bytes;
int w_oom, w_oom_all, *w_oom_hit, w_nofork;
/* 1: this allocation is the one that fails */
static int none_left(void)
{
	if (!w_oom || (w_oom > 1 && w_oom--)) return 0;
	if (!w_oom_all) w_oom = 0;
	*w_oom_hit = 1; errno = ENOMEM;
	return 1;
}
static void *held(void *p) { if (p) { vm_blocks++; vm_bytes += malloc_usable_size(p); } return p; }
static void let_go(void *p) { if (p) { vm_blocks--; vm_bytes -= malloc_usable_size(p); } }
void *vm_malloc(size_t n) { return none_left() ? NULL : held(malloc(n)); }
void *vm_calloc(size_t m, size_t n) { return none_left() ? NULL : held(calloc(m, n)); }
void vm_free(void *p) { let_go(p); free(p); }
void *vm_realloc(void *p, size_t n)
{
	void *q;
	size_t old = p ? malloc_usable_size(p) : 0;
	if (none_left()) return NULL;
	q = realloc(p, n);
	if (q) { if (p) { vm_blocks--; vm_bytes -= old; } held(q); }
	return q;
}
char *vm_strdup(const char *s) { return none_left() ? NULL : held(strdup(s)); }
char *vm_strndup(const char *s, size_t n) { return none_left() ? NULL : held(strndup(s, n)); }

pid_t __real_fork(void); pid_t __real_vfork(void);
pid_t __wrap_fork(void) { if (w_nofork) { errno = EAGAIN; return -1; } return __real_fork(); }

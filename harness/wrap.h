/* wrap.h -- stand-ins at link level (ld --wrap) for what the library asks
   the system; all are transparent until switched on */
#ifndef WRAP_H
#define WRAP_H
#include "drv.h"
int __real_kill(pid_t, int);
pid_t __real_waitpid(pid_t, int *, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_write(int, const void *, size_t);
int __real_select(int, fd_set *, fd_set *, fd_set *, struct timeval *);
time_t __real_time(time_t *);
int __real_gettimeofday(struct timeval *, void *);
int __real_getrusage(int, struct rusage *);

extern int    w_clock;                  /* clock and usage readings are ours */
extern struct timeval w_real;
extern struct rusage  w_self, w_children;
extern int    w_time;  extern time_t w_now; /* time() is ours */

extern int    w_syslog;                 /* record system log calls */
extern struct w_slogbuf { int n; struct w_slog { char what; int pri, opt; char text[9000], id[512]; } r[64]; } *w_slogb; /* shared with forked children */
#define w_slogs (w_slogb->r)
#define w_nslog (w_slogb->n)

extern int    w_kill;                   /* record signals sent: 1 record and send, 2 record only */
extern struct w_kill { int pid, sig; } w_kills[1024];
extern int    w_nkill;

extern int    w_eintr;                  /* that many waitpid calls are interrupted */

/* schedule of read/write/select outcomes: 'I' interrupted, 'A' would block,
   n > 0: at most n bytes; when used up, all calls pass */
extern int    w_io, w_sched[4096], w_nsched, w_isched;

/* w_io = 2: the two ends of a filter are simulated: outcomes of writes to
   w_fdin and of reads from w_fdout ('A', 'I', n > 0, 'E' end of output), then
   everything is accepted and the output has ended */
extern int    w_fdin, w_fdout, w_ws[4096], w_nws, w_iws, w_rs[4096], w_nrs, w_irs, w_ss[4096], w_nss, w_iss;
extern unsigned char *w_acc; extern long w_nacc;  /* what the filter was given */
extern long   w_nout;                             /* how much output it has produced */
extern int w_oom, w_oom_all, *w_oom_hit, w_nofork;
#endif

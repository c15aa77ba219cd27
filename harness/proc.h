/* children: processes (C21, C22) and filters (C23) */
#include <sys/wait.h>
#include <poll.h>
static char self[512];
#define NCH 64
static struct kid { int pid, ctl; char rep[1100]; } kids[NCH];
static int fdslot[64];

/* ---- table of open descriptors ---- */
static int base_fd[4096], nbase;
static int is_base(int fd) { int i; if (fd < 3) return 0; for (i = 0; i < nbase; i++) if (base_fd[i] == fd) return 1; return 0; }
static int fdlist(int *v, int max)
{
	DIR *d = opendir("/proc/self/fd"); struct dirent *e; int n = 0, i, j;
	if (!d) die("/proc/self/fd");
	while ((e = readdir(d))) if (*e->d_name != '.' && atoi(e->d_name) != dirfd(d) && n < max) v[n++] = atoi(e->d_name);
	closedir(d);
	for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) if (v[j] < v[i]) { int t = v[i]; v[i] = v[j]; v[j] = t; }
	return n;
}
/* a command as its caller may write it: with space around it or without */
static const char *command(const char *c)
{
	static const char *const shape[] = { "%s", "%s ", "  %s", "%s\n", "%s \t ", "\t%s  " };
	static char b[8][8192]; static unsigned n;
	char *p = b[n % 8];
	if (strlen(c) > sizeof *b - 8) return lent_text(c);
	sprintf(p, shape[n++ % 6], c);
	return lent_text(p);
}
static void fdinfo(int fd, char *obj, size_t m, char *mode)
{
	char p[64], l[256]; ssize_t k; FILE *f; unsigned fl = 0;
	snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
	k = readlink(p, obj, m - 1); obj[k < 0 ? 0 : k] = 0;
	snprintf(p, sizeof p, "/proc/self/fdinfo/%d", fd);
	if ((f = fopen(p, "r"))) { while (fgets(l, sizeof l, f)) if (sscanf(l, "flags: %o", &fl) == 1) break; fclose(f); }
	strcpy(mode, (fl & 3) == O_RDONLY ? "r" : (fl & 3) == O_WRONLY ? "w" : "rw");
}
static void etable(const char *k)
{
	int v[4096], n = fdlist(v, 4096), i;
	ea(k);
	for (i = 0; i < n; i++) if (!is_base(v[i])) {
		char obj[600], mode[8];
		fdinfo(v[i], obj, sizeof obj, mode);
		eaa(); eai(v[i]); eas(obj); eas(mode); eaend();
	}
	eaclose();
}
#include "around.h"
/* so many descriptors may be open (as far as the system allows) */
static int spare;                       /* above this, descriptors are left alone */
static void limit_fds(int n)
{
	struct rlimit r;
	getrlimit(RLIMIT_NOFILE, &r);
	r.rlim_cur = r.rlim_max < (rlim_t)n ? r.rlim_max : (rlim_t)n;
	setrlimit(RLIMIT_NOFILE, &r);
	spare = (int)r.rlim_cur - 150;
}
/* plimit LIMIT N: the caller raises the limit on descriptors and takes the next N for itself */
static void plimit(cmd_t *c)
{
	int i, fd, d = open("/dev/null", O_RDWR | O_CLOEXEC);
	limit_fds(ci(c,1));
	for (i = 0; i < ci(c,2) && nbase < 4000; i++) if ((fd = fcntl(d, F_DUPFD_CLOEXEC, 3)) >= spare) { close(fd); break; } else if (fd >= 0) base_fd[nbase++] = fd;
	close(d);
	ev("plimit"); etable("pt"); ee();
}
/* pbase [N [MASK]]: N descriptors are in use, the standard ones in MASK are not; the descriptors open now are the driver's own */
static void watch_exits(void);
static void pbase(cmd_t *c)
{
	ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
	if (k < 0) die("self");
	self[k] = 0;
	limit_fds(ci(c,1) < 400 ? 512 : ci(c,1) + 600);
	if (c->n > 1) for (nbase = ci(c,1); nbase; nbase--) { int fd = open("/dev/null", O_RDWR | O_CLOEXEC); if (fd < 0) die("pbase"); if (fd >= spare) { close(fd); break; } }
	if (c->n > 2) for (k = 0; k < 3; k++) if (ci(c,2) >> k & 1) close(k);
	nbase = fdlist(base_fd, 4096 - NCH);
	fdslot[61] = 1; fdslot[62] = 2;
	{ struct rlimit r; getrlimit(RLIMIT_CORE, &r); r.rlim_cur = 0; setrlimit(RLIMIT_CORE, &r); }
	w_kill = 1;
	watch_exits();
	ev("pbase"); etable("pt"); ee();
}
static int label(int pid) { int i; for (i = 1; i < NCH; i++) if (pid > 0 && kids[i].pid == pid) return i; return pid > 0 ? -1 : 0; }
static int wait_file(const char *fn, int ms)
{
	struct stat st;
	for (; ms > 0; ms -= 2) { if (!stat(fn, &st)) return 1; usleep(2000); }
	return 0;
}
static void callback(void) { setenv("DRV_CALLBACK", getenv("DRV_CALLBACK") ? "2" : "1", 1); }
/* a control pipe for child C, invisible to it */
static void mkctl(int c)
{
	char fn[1200]; int fd, i;
	snprintf(kids[c].rep, sizeof kids[c].rep, "%s/c%d.%d", scratch, (int)getpid(), c);
	for (i = 0; i < 4; i++) { snprintf(fn, sizeof fn, "%s%s", kids[c].rep, (char *[]){ "", ".ctl", ".eof", ".brk" }[i]); unlink(fn); }
	snprintf(fn, sizeof fn, "%s.ctl", kids[c].rep);
	if (mkfifo(fn, 0600)) die("mkfifo");
	fd = open(fn, O_RDWR);
	kids[c].ctl = fcntl(fd, F_DUPFD_CLOEXEC, 300 + c);
	close(fd);
	base_fd[nbase++] = kids[c].ctl;
}
static void ectable(const char *fn, int *cb)
{
	int sur = 0;
	char l[4096], obj[2048], mode[8]; int fd; FILE *f = fopen(fn, "r");
	ea("ct");
	while (f && fgets(l, sizeof l, f)) {
		if (sscanf(l, "cb %d", cb) == 1) continue;
		if (!strncmp(l, "sur ", 4)) { l[strcspn(l, "\n")] = 0; sur = !strcmp(l, wanted); continue; }
		if (sscanf(l, "%d %7s %2047[^\n]", &fd, mode, obj) == 3 && !is_base(fd)) { eaa(); eai(fd); eas(obj); eas(mode); eaend(); }
	}
	if (f) fclose(f);
	eaclose(); ei("sur", sur);
}
/* popen C I O E SI SO SE CB: per stream - inherit, c create, u use slot, n use
   nothing (NULL), z use nothing (0), and for E also o (to standard output).
   C labels the child, SI.. are slots */
static void popen_(cmd_t *c)
{
	int k = ci(c,1), i, fl = 0, in[3], *p[3], pid; char cmd[2048], m[3];
	static const int use[] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR }, cre[] = { PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDERR };
	mkctl(k);
	for (i = 0; i < 3; i++) {
		m[i] = *cs(c, 2 + i); p[i] = &fdslot[ci(c, 5 + i)]; in[i] = -1;
		if (m[i] == 'c') { fl |= cre[i]; *p[i] = -7; }
		if (m[i] == 'u') { fl |= use[i]; in[i] = *p[i]; }
		if (m[i] == 'n') { fl |= use[i]; p[i] = NULL; }
		if (m[i] == 'z') { static int zero[3]; fl |= use[i]; zero[i] = 0; p[i] = &zero[i]; }
		if (m[i] == 'o') fl |= PR_STDERR_TO_STDOUT;
	}
	snprintf(cmd, sizeof cmd, "%s @child %s %s.ctl", self, kids[k].rep, kids[k].rep);
	inherited(wanted, sizeof wanted);
	pid = ci(c,8) ? pr_open2(command(cmd), callback, fl, p[0], p[1], p[2]) : pr_open(command(cmd), fl, p[0], p[1], p[2]);
	kids[k].pid = pid;
	ev("popen"); ei("c", k); ei("pid", pid > 0);
	ea("m"); for (i = 0; i < 3; i++) { char b[2] = { m[i], 0 }; eas(b); } eaclose();
	ea("in"); for (i = 0; i < 3; i++) eai(in[i]); eaclose();
	ea("out"); for (i = 0; i < 3; i++) eai(m[i] == 'c' ? *p[i] : -1); eaclose();
	etable("pt");
	i = 0;
	wait_file(kids[k].rep, 60000);
	ectable(kids[k].rep, &i);
	ei("cb", i); ei("wantcb", ci(c,8)); ee();
}
/* pbad BITS..: for attempts: pr_open with these request bits */
static void pbad(cmd_t *c)
{
	static const int b[] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR, PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDERR, PR_STDERR_TO_STDOUT, 0x10000000 };
	int i, fl = 0, d[3] = { 0, 0, 0 };
	for (i = 1; i < c->n; i++) fl |= b[ci(c, i)];
	pr_open("/bin/true", fl, &d[0], &d[1], &d[2]);
}
/* pfile SLOT NAME: a regular file of the caller's */
static void pfile(cmd_t *c)
{
	char fn[1200], obj[600], mode[8]; int fd;
	snprintf(fn, sizeof fn, "%s/f%d.%s", scratch, (int)getpid(), cs(c,2));
	if ((fd = open(fn, O_RDWR | O_CREAT, 0600)) < 3) { int d = fcntl(fd, F_DUPFD, 3); close(fd); fd = d; }
	fdslot[ci(c,1)] = fd;
	fdinfo(fd, obj, sizeof obj, mode);
	ev("pfile"); ei("fd", fd); es("o", obj); es("mode", mode); etable("pt"); ee();
}
static void ctl(int k, const char *t) { if (__real_write(kids[k].ctl, t, strlen(t)) < 0) die("ctl"); }
/* pctl C KIND N: x exit code, k die by signal, d sleep ms, r read standard input to its end, b write until the pipe breaks,
   W write N pattern bytes to standard output */
static void pctl(cmd_t *c)
{
	char b[64]; sprintf(b, "%s %d\n", cs(c,2), ci(c,3));
	ctl(ci(c,1), b);
	if (*cs(c,2) == 's') { char fn[1300]; snprintf(fn, sizeof fn, "%s.ign", kids[ci(c,1)].rep); wait_file(fn, 20000); unlink(fn); }
	ev("pctl"); ei("c", ci(c,1)); es("k", cs(c,2)); ei("n", ci(c,3)); ee();
}
/* prep C KIND: wait for the report of r or b */
static void prep(cmd_t *c)
{
	char fn[1300]; int n = -1; FILE *f;
	snprintf(fn, sizeof fn, "%s.%s", kids[ci(c,1)].rep, *cs(c,2) == 'r' ? "eof" : "brk");
	if (wait_file(fn, 20000) && (f = fopen(fn, "r"))) { if (fscanf(f, "%d", &n) != 1) n = -2; fclose(f); unlink(fn); }
	ev("prep"); ei("c", ci(c,1)); es("k", cs(c,2)); ei("n", n); ee();
}
/* pread SLOT: the caller reads to the end of a pipe; reports how much and whether the end came */
static void pread_(cmd_t *c)
{
	int fd = fdslot[ci(c,1)], n = 0, eof = 0; char b[4096]; ssize_t k;
	struct pollfd p = { fd, POLLIN, 0 };
	while (poll(&p, 1, 20000) > 0) { if ((k = __real_read(fd, b, sizeof b)) <= 0) { eof = !k; break; } n += k; }
	ev("pread"); ei("fd", fd); ei("n", n); ei("eof", eof); ee();
}
/* pwrite SLOT N */
static void pwrite_(cmd_t *c)
{
	int fd = fdslot[ci(c,1)], n = ci(c,2); char *b = calloc(1, n + 1);
	int r; struct sigaction ign, was; memset(&ign, 0, sizeof ign); ign.sa_handler = SIG_IGN; sigaction(SIGPIPE, &ign, &was);
	r = __real_write(fd, b, n) < 0 ? -errno : n;
	sigaction(SIGPIPE, &was, NULL);
	ev("pwrite"); ei("fd", fd); ei("n", n); ei("r", r); ei("broken", r == -EPIPE); ee(); free(b);
}
static int reaped(int pid)
{
	siginfo_t si; si.si_pid = 0;
	if (waitid(P_PID, pid, &si, WEXITED | WNOHANG | WNOWAIT) < 0) return 2;     /* gone */
	return si.si_pid ? 1 : 0;                                                  /* ended, or running */
}
/* exit handlers of the caller that ran in a process the library made */
static volatile int *exits_seen;
static int exits_of;
static void count_exit(void) { if (!ev_off && exits_seen && getpid() != exits_of) ++*exits_seen; }
static void watch_exits(void)
{
	if (exits_seen) return;
	exits_seen = mmap(NULL, sizeof(int), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (exits_seen == MAP_FAILED) die("mmap");
	exits_of = getpid(); atexit(count_exit);
}
static void estate(void)
{
	int i;
	ei("dup", exits_seen ? *exits_seen : 0);
	if (exits_seen) *exits_seen = 0;
	ea("st");
	for (i = 1; i < NCH; i++) if (kids[i].pid) { eaa(); eai(i); eas(reaped(kids[i].pid) == 2 ? "gone" : reaped(kids[i].pid) == 1 ? "ended" : "run"); eaend(); }
	eaclose();
}
static void peintr(cmd_t *c) { w_eintr = ci(c,1); ev("peintr"); ei("n", w_eintr); ee(); }
static void pclose_(cmd_t *c)
{
	int fd = fdslot[ci(c,1)], r = pr_close(fd);
	ev("pclose"); ei("fd", fd); ei("r", r); etable("pt"); estate(); ee();
}
static void pnowait(cmd_t *c)
{
	int fd = fdslot[ci(c,1)], r = pr_close_nowait(fd);
	ev("pnowait"); ei("fd", fd); ei("r", label(r)); etable("pt"); estate(); ee();
}
/* for attempts: by descriptor number */
static void pcfd(cmd_t *c) { pr_close(ci(c,1)); }
static void pnfd(cmd_t *c) { pr_close_nowait(ci(c,1)); }
static void pwait(cmd_t *c)
{
	int r = pr_wait(kids[ci(c,1)].pid);
	ev("pwait"); ei("c", ci(c,1)); ei("r", r); estate(); ee();
}
/* an ended child that nobody waited for and that is none of kids[] */
static int zombie(void)
{
	siginfo_t si; si.si_pid = 0;
	if (waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT) < 0 || !si.si_pid) return 0;
	return label(si.si_pid) < 0;
}
/* pspawn KIND N: exit code, killed by, - not found */
static void pspawn(cmd_t *c)
{
	char cmd[1200]; int r;
	if (*cs(c,1) == '-') strcpy(cmd, "/nonexistent/command with arguments"); else snprintf(cmd, sizeof cmd, "%s @%s %d %s/x", self, *cs(c,1) == 'x' ? "exit" : "kill", ci(c,2), scratch);
	r = pr_spawn(command(cmd));
	ev("pspawn"); es("k", cs(c,1)); ei("n", ci(c,2)); ei("r", r); etable("pt"); estate(); ei("z", zombie()); ee();
}
/* pspawnt: the spawned command's descriptors */
static void pspawnt(cmd_t *c)
{
	char cmd[1800], fn[1100]; int r, cb;
	snprintf(fn, sizeof fn, "%s/t%d", scratch, (int)getpid());
	unlink(fn);
	snprintf(cmd, sizeof cmd, "%s @table %s", self, fn);
	inherited(wanted, sizeof wanted);
	r = pr_spawn(command(cmd));
	ev("pspawnt"); ei("r", r); etable("pt"); ectable(fn, &cb); ee();
}
/* pnot C SLOT: a child whose command cannot be run, with one pipe from it */
static void pnot(cmd_t *c)
{
	int k = ci(c,1), fd;
	kids[k].pid = pr_open("/nonexistent/command", PR_CREATE_STDOUT, NULL, &fdslot[ci(c,2)], NULL); fd = fdslot[ci(c,2)];
	ev("pnot"); ei("c", k); ei("fd", fd); etable("pt"); ee();
}
static void pinit(cmd_t *c) { maa_init("drv"); ev("pinit"); ee(); }
static void pshut(cmd_t *c)
{
	int i;
	w_nkill = 0;
	maa_shutdown();
	ev("pshut"); ea("kills"); for (i = 0; i < w_nkill; i++) { eaa(); eai(label(w_kills[i].pid)); eai(w_kills[i].sig); eaend(); } eaclose();
	estate(); etable("pt"); ee();
}
/* pend C: the child is over in the system's view (after x or k); waits for that */
static void pend(cmd_t *c)
{
	int i, s = 0, k = ci(c,1);
	for (i = 0; i < 30000 && !(s = reaped(kids[k].pid)); i++) usleep(1000);
	ev("pend"); ei("c", k); ei("s", s); ee();
}

/* minit NAME, mshut: initialisation and shutdown of the whole library */
void pforget_global(void);
static void minit(cmd_t *c)
{
	int n; char *b = cb(c, 1, &n, 1); const char *r;
	if (nprogs < 4096) progs[nprogs++] = b;
	maa_init(b); r = err_program_name();
	ev("minit"); ebytes("name", b, n); ebytes("r", r ? r : "<null>", strlen(r ? r : "<null>")); ee();
}
static void mver(cmd_t *c)
{
	ev("mver"); ei("major", maa_version_major()); ei("minor", maa_version_minor()); ei("teeny", maa_version_teeny()); es("s", maa_version()); ee();
}
static void mshut(cmd_t *c)
{
	char fn[1100], l[1000]; int fd, old, ver = 0, stats = 0, i; FILE *f;
	snprintf(fn, sizeof fn, "%s/sh%d", scratch, (int)getpid());
	fflush(NULL);
	old = fcntl(2, F_DUPFD_CLOEXEC, 500); fd = open(fn, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(fd, 2); close(fd);
	w_nkill = 0;
	maa_shutdown();
	fflush(NULL);
	dup2(old, 2); close(old);
	pforget_global();
	ev("mshut"); ei("proc", nbase > 0); ea("l");
	f = fopen(fn, "r");
	while (fgets(l, sizeof l, f)) {
		char name[256]; double r, u, s;
		if (!strncmp(l, "Libmaa ", 7)) ver++;
		else if (strstr(l, "tatistics")) stats++;
		else if (sscanf(l, "%255s %lfr %lfu %lfs", name, &r, &u, &s) == 4) { eaa(); eas(name); eai(us(r)); eai(us(u)); eai(us(s)); eaend(); }
		else if (*l != ' ') { eaa(); eas(l); eai(-1); eai(-1); eai(-1); eaend(); }
	}
	fclose(f); eaclose(); ei("ver", ver); ei("stats", stats);
	ea("kills"); for (i = 0; nbase && i < w_nkill; i++) { eaa(); eai(label(w_kills[i].pid)); eai(w_kills[i].sig); eaend(); } eaclose();
	if (nbase) { estate(); etable("pt"); }
	ee();
}

/* mem: what the library holds */
extern long vm_blocks, vm_bytes;
static void memuse(cmd_t *c) { (void)c; ev("mem"); ei("blocks", vm_blocks); ei("bytes", vm_bytes); ee(); }

/* ---- filters ---- */
static void pat(unsigned char *b, long n, int a, int s) { long i; for (i = 0; i < n; i++) b[i] = (s + a * i) % 256; }
/* bytes as arithmetic runs [first, step, length] (all of them, in order) */
static void eruns(const unsigned char *b, long n)
{
	long i = 0;
	while (i < n) {
		long j = i + 1; int d = 0;
		if (j < n) { d = (b[j] - b[i]) & 255; while (j < n && ((b[j] - b[j - 1]) & 255) == d) j++; }
		eaa(); eai(b[i]); eai(d); eai(j - i); eaend();
		i = j;
	}
}
/* output cut at given offsets, each piece as a list of runs */
static void ecut(const char *k, const unsigned char *b, long n, cmd_t *c, int from)
{
	long o = 0;
	ea(k);
	for (; from < c->n && ci(c, from) < n; from++) { if (ci(c, from) > o) { eaa(); eruns(b + o, ci(c, from) - o); eaend(); o = ci(c, from); } }
	if (o < n) { eaa(); eruns(b + o, n - o); eaend(); }
	eaclose();
}
static int schedule(const char *s, int *v)
{
	int n = 0;
	if (*s == '-') return 0;
	while (*s && n < 4096) {
		if (*s == ',') { s++; continue; }
		if (*s >= '0' && *s <= '9') { v[n++] = strtol(s, (char **)&s, 10); if (!v[n - 1]) n--; }
		else v[n++] = *s++ + 1000;
	}
	return n;
}
/* pflt KIND P Q INLEN OUTMAX SCHED CUTS..  runs pr_filter with a filter of that kind */
static void pflt(cmd_t *c)
{
	long n = ci(c,4), m = ci(c,5); char cmd[1200], *in = malloc(n ? n : 1), *out = malloc(m ? m : 1); int r;
	if (!n) { free(in); in = malloc(0); }
	if (!m) { free(out); out = malloc(0); }
	pat((unsigned char *)in, n, 3, 5);
	snprintf(cmd, sizeof cmd, "%s @filter %s %d %d", self, cs(c,1), ci(c,2), ci(c,3));
	in = lent_seal(in, n);
	w_nsched = schedule(cs(c,6), w_sched); w_isched = 0; w_io = 1;
	r = pr_filter(command(cmd), in, n, out, m);
	w_io = 0;
	ev("pflt"); es("k", cs(c,1)); ei("p", ci(c,2)); ei("q", ci(c,3)); ei("n", n); ei("max", m); ei("r", r);
	ecut("out", (unsigned char *)out, r < 0 ? 0 : r > m ? m : r, c, 7);
	etable("pt"); ei("z", zombie()); ee();
	free(in); free(out);
}
/* psim INLEN OUTMAX W R S TOT: pr_readwrite against simulated ends */
static void psim(cmd_t *c)
{
	long n = ci(c,1), m = ci(c,2); char cmd[1200], *in = malloc(n), *out = malloc(m); int r, i, o;
	pat((unsigned char *)in, n, 3, 5);
	in = lent_seal(in, n);
	w_nws = schedule(cs(c,3), w_ws); w_nrs = schedule(cs(c,4), w_rs); w_nss = schedule(cs(c,5), w_ss); w_iws = w_irs = w_iss = 0;
	w_acc = malloc(n + 1); w_nacc = w_nout = 0;
	snprintf(cmd, sizeof cmd, "/bin/true");
	pr_open(command(cmd), PR_CREATE_STDIN | PR_CREATE_STDOUT, &i, &o, NULL);
	w_fdin = i; w_fdout = o; w_io = 2;
	r = pr_readwrite(i, o, in, n, out, m);
	w_io = 0;
	ev("psim"); ei("n", n); ei("max", m); ei("tot", ci(c,6)); ei("prod", w_nout); ei("r", r);
	ea("acc"); eruns(w_acc, w_nacc); eaclose();
	ea("out"); eruns((unsigned char *)out, r < 0 ? 0 : r > m ? m : r); eaclose();
	etable("pt"); ei("z", zombie()); ee();
	free(in); free(out); free(w_acc);
}

/* ---- the child ---- */
static void full_write(int fd, const unsigned char *b, long n)
{
	while (n > 0) { ssize_t k = __real_write(fd, b, n); if (k < 0) { if (errno == EINTR) continue; _exit(90); } b += k; n -= k; }
}
static int filter_main(char **a)
{
	const char *k = a[2]; int p = atoi(a[3]), q = atoi(a[4]), st = 0; long cap = 1 << 20, n = 0; unsigned char *b = malloc(cap); ssize_t r;
	int chunk = 65536;
	if (!strcmp(k, "pre") || !strcmp(k, "mix")) { pat(b, p, 7, 1); full_write(1, b, p); }
	if (!strcmp(k, "cat")) chunk = p;
	if (!strcmp(k, "late")) usleep(p * 1000);
	for (;;) {
		if (!strcmp(k, "cat") && q) usleep(q);
		if (n + chunk > cap) b = realloc(b, cap *= 2);
		if ((r = __real_read(0, b + n, chunk)) < 0) { if (errno == EINTR) continue; return 91; }
		if (!r) break;
		if (!strcmp(k, "cat") || !strcmp(k, "mix")) full_write(1, b + n, r);
		n += r;
	}
	if (!strcmp(k, "dup")) { full_write(1, b, n); full_write(1, b, n); }
	if (!strcmp(k, "late")) full_write(1, b, n);
	if (!strcmp(k, "post")) { pat(b = malloc(p + 1), p, 7, 1); full_write(1, b, p); st = q; }
	if (!strcmp(k, "slow")) { pat(b = malloc(p + 1), p, 7, 1); for (n = 0; n < p; n += q) { full_write(1, b + n, p - n < q ? p - n : q); usleep(300); } }
	if (!strcmp(k, "sink")) { st = q; close(1); usleep(p * 1000); }
	return st;
}
static void die_by(int s, char *where)
{
	struct rlimit r = { 0, 0 };
	char *e;
	/* some signals leave a core file, here in the scratch directory */
	if (where && (e = strrchr(where, '/')) && (*e = 0, !chdir(where))) r.rlim_cur = r.rlim_max = 1 << 16;
	setrlimit(RLIMIT_CORE, &r);
	signal(s, SIG_DFL);
	{ sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, NULL); }
	__real_kill(getpid(), s);
	for (;;) pause();
}
int child_main(int argc, char **argv)
{
	if (!strcmp(argv[1], "@sur")) { char b[4000]; inherited(b, sizeof b); while (__real_read(0, b + 2000, 1000) > 0); full_write(1, b, strlen(b)); _exit(0); }
	if (!strcmp(argv[1], "@exit")) _exit(atoi(argv[2]));
	if (!strcmp(argv[1], "@kill")) die_by(atoi(argv[2]), argc > 3 ? argv[3] : NULL);
	if (!strcmp(argv[1], "@filter")) _exit(filter_main(argv));
	if (!strcmp(argv[1], "@table") || (!strcmp(argv[1], "@child") && argc == 4)) {
		int v[1024], n = fdlist(v, 1024), i, arg; char t[1200], line[64], k; FILE *f, *g;
		char (*obj)[2048] = calloc(n, 2048), (*mode)[8] = calloc(n, 8);
		for (i = 0; i < n; i++) fdinfo(v[i], obj[i], 2048, mode[i]);
		snprintf(t, sizeof t, "%s.tmp", argv[2]);
		if (!(f = fopen(t, "w"))) _exit(96);
		fprintf(f, "cb %s\n", getenv("DRV_CALLBACK") ? getenv("DRV_CALLBACK") : "0");
		for (i = 0; i < n; i++) fprintf(f, "%d %s %s\n", v[i], mode[i], obj[i]);
		inherited(wanted, sizeof wanted); fprintf(f, "%s\n", wanted);
		fclose(f); rename(t, argv[2]);
		if (argc == 3) _exit(0);
		if (!(f = fopen(argv[3], "r"))) _exit(97);
		while (fgets(line, sizeof line, f)) {
			if (sscanf(line, "%c %d", &k, &arg) != 2) _exit(95);
			if (k == 'x') _exit(arg);
			if (k == 'k') die_by(arg, strdup(argv[2]));
			if (k == 'd') usleep(arg * 1000);
			if (k == 's') {    /* hard to end: ignores what can be ignored, or is stopped */
				int q;
				for (q = 1; q < 32; q++) if (q != SIGCHLD) signal(q, SIG_IGN);
				snprintf(t, sizeof t, "%s.ign", argv[2]); if ((g = fopen(t, "w"))) fclose(g);
				if (arg) __real_kill(getpid(), SIGSTOP);
			}
			if (k == 'W') { unsigned char *b = malloc(arg + 1); pat(b, arg, 7, 1); full_write(1, b, arg); free(b); }
			if (k == 'r' || k == 'b') {
				char b[4096]; long got = 0; ssize_t r;
				if (k == 'r') { while ((r = __real_read(0, b, sizeof b)) > 0) got += r; }
				else { signal(SIGPIPE, SIG_IGN); memset(b, 0, sizeof b); while ((r = __real_write(1, b, sizeof b)) > 0); got = errno == EPIPE; signal(SIGPIPE, SIG_DFL); }
				snprintf(t, sizeof t, "%s.tmp", argv[2]);
				if (!(g = fopen(t, "w"))) _exit(96);
				fprintf(g, "%ld\n", got); fclose(g);
				{ char u[1200]; snprintf(u, sizeof u, "%s.%s", argv[2], k == 'r' ? "eof" : "brk"); rename(t, u); }
			}
		}
		_exit(94);
	}
	return 93;
}
#define PROC_OPS { "xbase", xbase }, { "xlook", xlook }, { "xflt", xflt }, { "pbase", pbase }, { "plimit", plimit }, { "popen", popen_ }, { "pbad", pbad }, { "pfile", pfile }, { "pctl", pctl }, { "prep", prep }, { "pread", pread_ }, { "pwrite", pwrite_ }, \
	{ "peintr", peintr }, { "pclose", pclose_ }, { "pnowait", pnowait }, { "pcfd", pcfd }, { "pnfd", pnfd }, { "pwait", pwait }, { "pspawn", pspawn }, { "pnot", pnot }, { "pspawnt", pspawnt }, \
	{ "pinit", pinit }, { "pshut", pshut }, { "pend", pend }, { "pflt", pflt }, { "psim", psim }, { "minit", minit }, { "mver", mver }, { "mshut", mshut }, { "mem", memuse },

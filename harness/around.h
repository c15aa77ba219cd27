/* what surrounds the library in the process: C39 */
#include <sys/syscall.h>
#include <locale.h>
extern char **environ;
static const int asig[] = { SIGHUP, SIGINT, SIGQUIT, SIGUSR1, SIGUSR2, SIGWINCH, SIGTTOU, SIGTSTP, SIGCONT, SIGURG, SIGCHLD, 40, 64 };
#define NASIG ((int)(sizeof asig / sizeof *asig))
static void ahandler(int s) { (void)s; }
static unsigned hash(unsigned h, const void *p, size_t n) { const unsigned char *s = p; while (n--) h = (h ^ *s++) * 16777619u; return h; }
static unsigned env_hash(void)
{
	char **e; unsigned h = 1;
	for (e = environ; *e; e++) if (strncmp(*e, "DRV_CALLBACK=", 13)) h += hash(2166136261u, *e, strlen(*e));
	return h;
}
/* what a command inherits: signals blocked and ignored, directory, file creation mask, environment, limits, group, session */
static void inherited(char *t, size_t n)
{
	char l[256], blk[64] = "", ign[64] = "", cwd[1024]; FILE *f = fopen("/proc/self/status", "r"); int i, m = umask(0); unsigned h = 1;
	umask(m);
	while (f && fgets(l, sizeof l, f)) { sscanf(l, "SigBlk: %63s", blk); sscanf(l, "SigIgn: %63s", ign); }
	if (f) fclose(f);
	for (i = 0; i < RLIM_NLIMITS; i++) { struct rlimit r; if (!getrlimit(i, &r)) h = hash(h, &r, sizeof r); }
	if (!getcwd(cwd, sizeof cwd)) strcpy(cwd, "?");
	snprintf(t, n, "sur %s %s %o %u %u %d %d %s", blk, ign, m, env_hash(), h, (int)getpgrp(), (int)getsid(0), cwd);
}
static char wanted[1600];               /* what a command started now should inherit */
static struct around {
	struct sigaction sa[65]; sigset_t mask; char cwd[1024], loc[256]; int um, nfd, fd[4096], fl[4096], fdfl[4096], tasks, timer; char *obj[4096]; unsigned env; struct rlimit lim[RLIM_NLIMITS];
} A0;
static int tasks(void) { DIR *d = opendir("/proc/self/task"); struct dirent *e; int n = 0; while (d && (e = readdir(d))) n += *e->d_name != '.'; if (d) closedir(d); return n; }
static int timer_on(void) { struct itimerval v; int i, r = 0; for (i = 0; i < 3; i++) if (!getitimer(i, &v)) r |= (v.it_value.tv_sec || v.it_value.tv_usec) << i; return r; }
static void around(struct around *a)
{
	int i; char obj[1100], mode[8];
	for (i = 1; i <= 64; i++) { memset(&a->sa[i], 0, sizeof a->sa[i]); sigaction(i, NULL, &a->sa[i]); }
	sigprocmask(SIG_BLOCK, NULL, &a->mask);
	if (!getcwd(a->cwd, sizeof a->cwd)) strcpy(a->cwd, "?");
	snprintf(a->loc, sizeof a->loc, "%s", setlocale(LC_ALL, NULL));
	a->um = umask(0); umask(a->um);
	for (i = 0; i < a->nfd; i++) free(a->obj[i]);
	a->nfd = fdlist(a->fd, 4096);
	for (i = 0; i < a->nfd; i++) { fdinfo(a->fd[i], obj, sizeof obj, mode); a->obj[i] = strdup(obj); a->fl[i] = fcntl(a->fd[i], F_GETFL); a->fdfl[i] = fcntl(a->fd[i], F_GETFD); }
	a->tasks = tasks(); a->timer = timer_on(); a->env = env_hash();
	for (i = 0; i < RLIM_NLIMITS; i++) if (getrlimit(i, &a->lim[i])) memset(&a->lim[i], 0, sizeof a->lim[i]);
}
/* xbase SEED: the caller sets itself up, and this is how it wants things to stay */
static void xbase(cmd_t *c)
{
	unsigned s = ci(c,1); int i;
	static const int um[] = { 022, 077, 0, 027 };
	sigset_t b; sigemptyset(&b);
	for (i = 0; s && i < NASIG; i++) {
		struct sigaction sa; int w = (s = s * 1103515245u + 12345u) >> 16 & 7;
		memset(&sa, 0, sizeof sa); sa.sa_flags = SA_RESTART;
		if (w & 1) sigaddset(&b, asig[i]);
		sa.sa_handler = w & 4 ? (w & 2 ? SIG_IGN : ahandler) : SIG_DFL;
		if (asig[i] != SIGCHLD && sa.sa_handler != SIG_DFL) sigaction(asig[i], &sa, NULL);
	}
	if (s) { sigprocmask(SIG_BLOCK, &b, NULL); umask(um[s >> 18 & 3]); setenv("DRV_AROUND", s >> 17 & 1 ? "" : "x=y", 1); if (!(s >> 21 & 3)) setlocale(LC_ALL, "C.UTF-8"); if (s >> 19 & 1 && chdir(scratch)) die("chdir"); }
	around(&A0);
	ev("xbase"); ee();
}
/* files more accessible than the caller allows */
static int loose(const char *dir, int um)
{
	DIR *d = opendir(dir); struct dirent *e; int n = 0;
	if (!d) return 0;
	while ((e = readdir(d))) {
		char *p; struct stat st;
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		p = malloc(strlen(dir) + strlen(e->d_name) + 2); sprintf(p, "%s/%s", dir, e->d_name);
		if (!lstat(p, &st)) { n += (st.st_mode & 07777 & um) != 0; if (S_ISDIR(st.st_mode)) n += loose(p, um); }
		free(p);
	}
	closedir(d);
	return n;
}
/* xlook: what is different now */
static void xlook(cmd_t *c)
{
	static struct around a; int i, j; char obj[1100], mode[8];
	(void)c;
	around(&a);
	ev("xlook");
	ea("sig"); for (i = 1; i <= 64; i++) if (a.sa[i].sa_handler != A0.sa[i].sa_handler || (a.sa[i].sa_flags ^ A0.sa[i].sa_flags) & ~0x04000000 || memcmp(&a.sa[i].sa_mask, &A0.sa[i].sa_mask, 8)) eai(i); eaclose();
	ea("mask"); for (i = 1; i <= 64; i++) if (sigismember(&a.mask, i) != sigismember(&A0.mask, i)) eai(i); eaclose();
	ei("cwd", !strcmp(a.cwd, A0.cwd)); ei("loc", !strcmp(a.loc, A0.loc)); ei("umask", a.um == A0.um); ei("env", a.env == A0.env);
	ei("tasks", a.tasks == A0.tasks); ei("timer", a.timer == A0.timer); ei("lim", !memcmp(a.lim, A0.lim, sizeof a.lim));
	ei("loose", *ldir ? loose(ldir, a.um) : 0);
	/* descriptors: new ones, lost ones, and those that are no longer as they were (nbase: the driver's own) */
	ea("new"); for (i = 0; i < a.nfd; i++) {
		for (j = 0; j < A0.nfd && A0.fd[j] != a.fd[i]; j++);
		if ((j == A0.nfd || strcmp(A0.obj[j], a.obj[i])) && !(nbase && is_base(a.fd[i]))) { fdinfo(a.fd[i], obj, sizeof obj, mode); eaa(); eai(a.fd[i]); eas(nbase ? obj : "-"); eas(mode); eaend(); }
	} eaclose();
	ea("lost"); for (j = 0; j < A0.nfd; j++) { for (i = 0; i < a.nfd && (a.fd[i] != A0.fd[j] || strcmp(A0.obj[j], a.obj[i])); i++); if (i == a.nfd) eai(A0.fd[j]); } eaclose();
	ea("chg"); for (j = 0; j < A0.nfd; j++) for (i = 0; i < a.nfd; i++) if (a.fd[i] == A0.fd[j] && !strcmp(A0.obj[j], a.obj[i]) && (a.fl[i] != A0.fl[j] || a.fdfl[i] != A0.fdfl[j])) eai(a.fd[i]); eaclose();
	ee();
}
/* xflt: what a filter inherits */
static void xflt(cmd_t *c)
{
	char cmd[1200], out[4000]; int n, r;
	(void)c;
	inherited(wanted, sizeof wanted);
	snprintf(cmd, sizeof cmd, "%s @sur", self);
	r = pr_filter(cmd, "x", 1, out, sizeof out);
	n = strlen(wanted);
	ev("xflt"); ei("sur", r == n && !memcmp(out, wanted, n)); ee();
}

#include "drv.h"
#include "wrap.h"
#include <sys/syscall.h>
#include <math.h>
#include <sys/mman.h>

/* ---- timers.  All times are in microseconds. ---- */
#define BASE 1700000000L
static void set_tv(struct timeval *tv, long base, long us) { tv->tv_sec = base + us / 1000000; tv->tv_usec = us % 1000000; }
/* tclk REAL SELFUSER SELFSYS CHILDUSER CHILDSYS */
static void tclk(cmd_t *c)
{
	w_clock = 1;
	set_tv(&w_real, BASE, ci(c,1));
	set_tv(&w_self.ru_utime, 0, ci(c,2)); set_tv(&w_self.ru_stime, 0, ci(c,3));
	set_tv(&w_children.ru_utime, 0, ci(c,4)); set_tv(&w_children.ru_stime, 0, ci(c,5));
	ev("tclk"); ea("t"); { int i; for (i = 1; i <= 5; i++) eai(ci(c,i)); } eaclose(); ee();
}
static void tsimple(cmd_t *c, const char *op, void (*f)(const char *))
{
	char *n = strdup(cs(c,1));
	f(n);
	ev(op); es("n", cs(c,1)); ee();
	lent_spoil(n, strlen(n));            /* the library must not depend on it */
}
static void tstart(cmd_t *c) { tsimple(c, "tstart", tim_start); }
static void tstop(cmd_t *c) { tsimple(c, "tstop", tim_stop); }
static void treset(cmd_t *c) { tsimple(c, "treset", tim_reset); }
/* what does not fit a TLC integer is shown as the nearest that does */
static long us(double d)
{
	d = d * 1e6 + (d < 0 ? -0.5 : 0.5);
	return d >= 2147483647.0 ? 2147483647L : d <= -2147483647.0 ? -2147483647L : (long)d;
}
static void tget(cmd_t *c)
{
	char *n = strdup(cs(c,1));
	double r = tim_get_real(n), u = tim_get_user(n), s = tim_get_system(n);
	ev("tget"); es("n", n); ei("r", us(r)); ei("u", us(u)); ei("s", us(s)); ee();
	free(n);
}
/* tget1 NAME WHICH: in attempts */
static void tget1(cmd_t *c)
{
	double v = *cs(c,2) == 'r' ? tim_get_real(cs(c,1)) : *cs(c,2) == 'u' ? tim_get_user(cs(c,1)) : *cs(c,2) == 's' ? tim_get_system(cs(c,1)) : 0;
	if (*cs(c,2) == 'p') { FILE *f = fopen("/dev/null", "w"); tim_print_timer(f, cs(c,1)); fclose(f); }
	ev("tget1"); es("n", cs(c,1)); es("w", cs(c,2)); ei("v", us(v)); ee();
}
/* tlist [NAME]: what the listing says */
static void tlist(cmd_t *c)
{
	char *buf = NULL, *p, *q; size_t n; FILE *f = open_memstream(&buf, &n);
	if (c->n > 1) tim_print_timer(f, cs(c,1)); else tim_print_timers(f);
	fclose(f);
	ev("tlist"); es("n", c->n > 1 ? cs(c,1) : ""); ea("l");
	for (p = buf; *p; p = *q ? q + 1 : q) {
		char name[256]; double r, u, s;
		if ((q = strchr(p, '\n'))) *q = 0; else q = p + strlen(p);
		eaa();
		if (sscanf(p, "%255s %lfr %lfu %lfs", name, &r, &u, &s) == 4) { eas(name); eai(us(r)); eai(us(u)); eai(us(s)); }
		else { eas(p); eai(-1); eai(-1); eai(-1); }
		eaend();
		if (q != p + strlen(p)) break;
		*q = '\n';
	}
	eaclose(); ee(); free(buf);
}

/* ---- source manager, diagnostics, concrete symbols ---- */
static src_Type tok[20000]; static int ntok;
static char *snames[4096]; static int nsn;
static void qline(cmd_t *c)
{
	int n, i, k = c->n > 2 ? ci(c,2) : 1;
	for (i = 0; i < k; i++) {
		char *b = cb(c, 1, &n, 0); const char *r = src_line(b, n);
		ev("qline"); ebytes("s", b, n); ebytes("r", r, strlen(r)); ee();
		free(b);
	}
}
/* qfill HEX N: the same line N times; what was answered, in runs */
static void qfill(cmd_t *c)
{
	int n, i, k = ci(c,2), run = 0; char *b = cb(c, 1, &n, 0), *last = NULL;
	ev("qfill"); ebytes("s", b, n); ei("n", k); ea("runs");
	for (i = 0; i <= k; i++) {
		const char *r = i < k ? src_line(b, n) : NULL;
		if (last && (!r || strcmp(r, last))) { eaa(); eai(run); eab(last, strlen(last)); eaend(); free(last); last = NULL; run = 0; }
		if (r && !last) last = strdup(r);
		run++;
	}
	eaclose(); ee(); free(b);
}
/* a file name as bytes; no name is <<0>> */
static void efile(const char *f) { if (f) ebytes("f", f, strlen(f)); else ebytes("f", "", 1); }
static void qfile(cmd_t *c) { char *n = strdup(cs(c,1)); src_new_file(n); ev("qfile"); efile(n); ee(); lent_spoil(n, strlen(n)); }
static void qnl(cmd_t *c) { src_new_line(ci(c,1)); ev("qnl"); ei("n", ci(c,1)); ee(); }
static void qadv(cmd_t *c) { src_advance(ci(c,1)); ev("qadv"); ei("n", ci(c,1)); ee(); }
/* qcpp LINE FILE FORM: FORM 0 '# LINE', 1 '# LINE "FILE"', 2 '# LINE FILE', 3 '# LINE "FILE" 1 3', 4 '#line LINE "FILE"' */
static void qcpp(cmd_t *c)
{
	static const char *fm[] = { "# %d", "# %d \"%s\"", "# %d %s", "# %d \"%s\" 1 3", "#line %d \"%s\"" };
	char b[1024], *x; int n = snprintf(b, sizeof b, fm[ci(c,3)], ci(c,1), cs(c,2));
	x = malloc(n + 8); memcpy(x, b, n); strcpy(x + n, "\nzz 9");     /* the marker is not terminated */
	x = lent_seal(x, n + 8);
	src_cpp_line(x, n + 1);
	ev("qcpp"); ei("n", ci(c,1)); ei("form", ci(c,3)); efile(cs(c,2)); ee();
	lent_spoil(x, n + 8);
}
static void qget(cmd_t *c)
{
	int i, k = c->n > 2 ? ci(c,2) : 1;
	for (i = 0; i < k; i++) {
		if (ntok >= 20000) die("tokens");
		tok[++ntok] = src_get(ci(c,1));
		ev("qget"); ei("len", ci(c,1)); ei("id", ntok); ei("isnull", !tok[ntok]); ee();
	}
}
static void qtok(cmd_t *c)
{
	src_Type t = tok[ci(c,1)]; const char *f = src_filename(t), *l = src_source_line(t);
	ev("qtok"); ei("id", ci(c,1)); efile(f); ei("n", src_linenumber(t)); ei("off", src_offset(t)); ei("len", src_length(t));
	ebytes("l", l, strlen(l)); ee();
}
/* qacc WHICH: an accessor, in attempts */
static void qacc(cmd_t *c)
{
	switch (*cs(c,1)) {
	case 'f': src_filename(NULL); break;
	case 'n': src_linenumber(NULL); break;
	case 'o': src_offset(NULL); break;
	case 'l': src_length(NULL); break;
	case 's': src_source_line(NULL); break;
	case 'c': src_create(); break;
	case 'g': src_get(1); break;
	}
	ev("qacc"); es("w", cs(c,1)); ee();
}
static int num_after(const char *s, const char *pre) { const char *p = strstr(s, pre); return p ? atoi(p + strlen(pre)) : -1; }
static void qstat(cmd_t *c)
{
	src_Stats s = src_get_stats();
	char *buf = NULL; size_t n; FILE *f = open_memstream(&buf, &n); int pl = -1, pb = -1, pa = -1, pt = -1, pu = -1, pr = -1;
	src_print_stats(f); fclose(f);
	sscanf(buf, "Statistics for source manager: %d lines using %d bytes (%d allocated) %d tokens using %d bytes (%d reused)", &pl, &pb, &pa, &pt, &pu, &pr);
	ev("qstat"); ei("lines", s->lines_used); ei("alloc", s->lines_allocated); ei("bytes", s->lines_bytes);
	ei("tokens", s->tokens_total); ei("reused", s->tokens_reused); ei("size", s->tokens_size);
	ea("p"); eai(pl); eai(pb); eai(pa); eai(pt); eai(pu); eai(pr); eaclose(); ee();
	(void)num_after; xfree(s); free(buf);
}
static void qdel(cmd_t *c) { src_destroy(); ntok = 0; ev("qdel"); ee(); }
static void qnew(cmd_t *c) { src_create(); ev("qnew"); ee(); }
/* where a diagnostic goes: a stream, or (SO = 1) NULL, that is standard output */
static int so_saved; static char so_name[512];
FILE *so_open(int so, char **buf, size_t *n)
{
	if (!so) return open_memstream(buf, n);
	snprintf(so_name, sizeof so_name, "%s/stdout", scratch);
	fflush(stdout); so_saved = dup(1);
	{ int fd = open(so_name, O_RDWR | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); close(fd); }
	return NULL;
}
void so_close(int so, FILE *f, char **buf, size_t *n)
{
	if (!so) { fclose(f); return; }
	fflush(stdout);
	*n = lseek(1, 0, SEEK_END); *buf = calloc(1, *n + 1);
	if (pread(1, *buf, *n, 0) != (ssize_t)*n) die("stdout");
	dup2(so_saved, 1); close(so_saved);
}
void eprinted(const char *k, void (*fn)(void *, FILE *), void *o, int so)
{
	char *buf = NULL, *p; size_t n; FILE *f = so_open(so, &buf, &n);
	fn(o, f);
	so_close(so, f, &buf, &n);
	ea(k);
	for (p = strchr(buf, '\n'); p && *p; ) {
		if (*p >= '0' && *p <= '9') {
			long long v = strtoll(p, &p, 10);
			if (*p == '.' && p[1] >= '0' && p[1] <= '9') { v = 10 * v + p[1] - '0'; p += 2; }
			eai(v);
		} else p++;
	}
	eaclose();
	free(buf);
}
/* qdiag KIND ID MSG SO: KIND p parse error, e error, m message, l line, E/M: without a format */
static void qdiag(cmd_t *c)
{
	src_Type t = tok[ci(c,2)]; int mn; char *m = cb(c, 3, &mn, 1), *buf = NULL; size_t n; int so = ci(c,4);
	FILE *f = so_open(so, &buf, &n);
	switch (*cs(c,1)) {
	case 'p': src_parse_error(f, t, m); break;
	case 'e': src_print_error(f, t, "%s", m); break;
	case 'd': src_print_error(f, t, "<%d|%s>", mn, m); break;
	case 'm': src_print_message(f, t, "%s", m); break;
	case 'l': src_print_line(f, t); break;
	case 'E': src_print_error(f, t, NULL); break;
	case 'M': src_print_message(f, t, NULL); break;
	}
	so_close(so, f, &buf, &n);
	ev("qdiag"); es("k", cs(c,1)); ei("id", ci(c,2)); ebytes("m", m, mn); ebytes("o", buf, n); ee();
	free(buf); free(m);
}
static void preg(cmd_t *c)
{
	int a, b; char *s = cb(c, 1, &a, 1), *v = cb(c, 2, &b, 1);
	prs_register_concrete(s, v);
	ev("preg"); ebytes("s", s, a); ebytes("v", v, b); ee();
	lent_spoil(s, a); lent_spoil(v, b);
}
static void pconc(cmd_t *c)
{
	int a; char *s = cb(c, 1, &a, 1); const char *r = prs_concrete(s);
	ev("pconc"); ebytes("s", s, a); ei("null", !r); ebytes("r", r ? r : "", r ? strlen(r) : 0); ee();
	free(s);
}

/* ---- log ---- */
#define NF 4096
static struct lf { char *path; char *data; long n; int gone; } lfs[NF]; static int nlf;
static char ldir[512]; static FILE *lstr[64];
static char host[256];
static void lchk(const char *rel, const char *full, int emit)
{
	int i; struct stat st; char *d; FILE *f; long n;
	for (i = 0; i < nlf && strcmp(lfs[i].path, rel); i++);
	if (i == nlf) { if (nlf == NF) wrong("endless"); lfs[nlf].path = strdup(rel); lfs[nlf].data = calloc(1, 1); lfs[nlf].n = -1; nlf++; }
	if (!(f = fopen(full, "r"))) return;
	fstat(fileno(f), &st); n = st.st_size; d = malloc(n + 1);
	if ((long)fread(d, 1, n, f) != n) wrong("endless");
	fclose(f);
	if (n != lfs[i].n || (n && memcmp(d, lfs[i].data, n))) {
		long o = lfs[i].n < 0 ? 0 : lfs[i].n;
		int ext = n >= o && !memcmp(d, lfs[i].data, o);
		if (emit) { eaa(); eab(rel, strlen(rel)); eai(ext); eab(ext ? d + o : d, ext ? n - o : n); eaend(); }
		free(lfs[i].data); lfs[i].data = d; lfs[i].n = n;
	} else free(d);
}
static char wfull[20000];
/* wfull: LDIR/REL, and REL begins at r */
static void lwalk(char *r, int emit)
{
	DIR *d; struct dirent *e; char *end = wfull + strlen(wfull);
	if (!(d = opendir(wfull))) return;
	while ((e = readdir(d))) {
		struct stat st;
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		sprintf(end, "/%s", e->d_name);
		if (!lstat(wfull, &st)) { if (S_ISDIR(st.st_mode)) lwalk(r, emit); else lchk(r, wfull, emit); }
		*end = 0;
	}
	closedir(d);
}
static void lwalk0(int emit) { strcpy(wfull, ldir); lwalk(wfull + strlen(ldir) + 1, emit); }
/* the part of the event that tells what was written where */
static void lchanges(void)
{
	int i;
	ea("chg"); lwalk0(!ev_off); eaclose();
	ea("sys");
	for (i = 0; i < w_nslog; i++) { char k[2] = { w_slogs[i].what, 0 }; eaa(); eas(k); eai(w_slogs[i].pri); eai(w_slogs[i].opt); eab(w_slogs[i].text, strlen(w_slogs[i].text)); eab(w_slogs[i].id, strlen(w_slogs[i].id)); eaend(); }
	w_nslog = 0;
	eaclose(); ee();
}
static void linit(cmd_t *c)
{
	char *p, f[1024]; int fd;
	snprintf(ldir, sizeof ldir, "%s/L%d", scratch, (int)getpid());
	mkdir(ldir, 0755);
	gethostname(host, sizeof host - 1);
	if ((p = strchr(host, '.'))) *p = 0;
	w_time = 1; w_now = 0; w_syslog = 1;
	w_slogb = mmap(NULL, sizeof *w_slogb, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	fflush(stdout); fflush(stderr);
	snprintf(f, sizeof f, "%s/stdout", ldir); fd = open(f, O_RDWR | O_CREAT | O_APPEND, 0600); dup2(fd, 1); close(fd);
	snprintf(f, sizeof f, "%s/stderr", ldir); fd = open(f, O_RDWR | O_CREAT | O_APPEND, 0600); dup2(fd, 2); close(fd);
	ev("linit"); ebytes("host", host, strlen(host)); { char b[32]; sprintf(b, "%d", (int)getpid()); ebytes("pid", b, strlen(b)); }
	lchanges();
}
static void lnow(cmd_t *c) { w_now = cl(c,1); ev("lnow"); ei("t", w_now); ee(); }
/* lfile IDENT PATTERN(hex) */
static void lfile(cmd_t *c)
{
	int n; char *p = cb(c, 2, &n, 1), *full = malloc(strlen(ldir) + n + 2), *id = strdup(cs(c,1));
	sprintf(full, "%s/%s", ldir, p);
	full = lent_seal(full, strlen(full) + 1);
	log_file(id, full);
	ev("lfile"); ebytes("id", id, strlen(id)); ebytes("p", p, n); lchanges();
	lent_spoil(full, strlen(full)); lent_spoil(id, strlen(id));      /* the library must not depend on them */
	free(p);
}
/* lstream IDENT NAME MODE: NAME stdout, stderr or a file; MODE a or w */
static void lstream(cmd_t *c)
{
	char f[1024], *id = strdup(cs(c,1)); FILE *s;
	snprintf(f, sizeof f, "%s/%s", ldir, cs(c,2));
	s = !strcmp(cs(c,2), "stdout") ? stdout : !strcmp(cs(c,2), "stderr") ? stderr : fopen(f, cs(c,3));
	if (!s) die("fopen %s", f);
	log_stream(id, s);
	ev("lstream"); ebytes("id", id, strlen(id)); ebytes("n", cs(c,2), strlen(cs(c,2))); ei("std", s == stdout || s == stderr); lchanges();
	lent_spoil(id, strlen(id));
}
static void lsys(cmd_t *c) { char *id = strdup(cs(c,1)); log_syslog(id); ev("lsys"); ebytes("id", id, strlen(id)); lchanges(); lent_spoil(id, strlen(id)); }
/* lclose KIND: f s y (that kind), a all; F: name without ident, and so on */
static void lclose(cmd_t *c)
{
	switch (*cs(c,1)) {
	case 'f': log_file(NULL, NULL); break;
	case 'g': log_file("x", NULL); break;
	case 'F': log_file(NULL, "x"); break;
	case 's': log_stream(NULL, NULL); break;
	case 'S': log_stream(NULL, stdout); break;
	case 't': log_stream("x", NULL); break;
	case 'y': log_syslog(NULL); break;
	case 'a': log_close(); break;
	}
	ev("lclose"); es("k", cs(c,1)); lchanges();
}
static void lopt(cmd_t *c) { log_option(ci(c,1) ? LOG_OPTION_NO_FULL : LOG_OPTION_FULL); ev("lopt"); ei("short", ci(c,1)); ee(); }
static void lfac(cmd_t *c) { char *f = strdup(cs(c,1)); log_set_facility(f); free(f); ev("lfac"); es("f", cs(c,1)); es("g", log_get_facility()); ee(); }
static void lgetf(cmd_t *c) { ev("lgetf"); es("g", log_get_facility()); ee(); }
static void va_i(const char *f, ...) { va_list ap; va_start(ap, f); log_info_va(f, ap); va_end(ap); }
static void va_e(const char *r, const char *f, ...) { va_list ap; va_start(ap, f); log_error_va(r, f, ap); va_end(ap); }
/* lmsg KIND ROUTINE MSG: i info, e error, I/E the va variants, n: formatted as number and string;  ROUTINE "@" is NULL */
static void lmsg(cmd_t *c)
{
	int n, form = c->n > 4 ? ci(c,4) : 0; char *m = cb(c, 3, &n, 1); const char *r = strcmp(cs(c,2), "@") ? lent_text(cs(c,2)) : NULL;
	if (c->n > 5) { w_io = 1; w_isched = 0; w_nsched = ci(c,5); { int i; for (i = 0; i < w_nsched; i++) w_sched[i] = 'I' + 1000; } }
#define CALL(k, f, ...) switch (k) { case 'i': log_info(f, __VA_ARGS__); break; case 'I': va_i(f, __VA_ARGS__); break; \
	case 'e': log_error(r, f, __VA_ARGS__); break; case 'E': va_e(r, f, __VA_ARGS__); break; }
	if (form == 0) { CALL(*cs(c,1), "%s", m) }
	else if (form == 1) { CALL(*cs(c,1), "%d:%s:%c%%", 42, m, 'z') }
	else { CALL(*cs(c,1), m, 0) }           /* the message is the format */
	w_io = 0;
	ev("lmsg"); es("k", cs(c,1)); ebytes("rt", r ? r : "", r ? strlen(r) : 0); ei("nort", !r); ebytes("m", m, n); ei("form", form); lchanges();
	free(m);
}
/* lstd: the caller has no standard input: its number is free */
static void lstd(cmd_t *c) { (void)c; close(0); ev("lstd"); ee(); }
/* lfork: the process goes on in a child */
static void lfork(cmd_t *c)
{
	int st, pid; char b[32];
	(void)c;
	fflush(NULL);
	if ((pid = fork())) { while (__real_waitpid(pid, &st, 0) < 0 && errno == EINTR); if (WIFEXITED(st)) _exit(WEXITSTATUS(st)); signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); _exit(96); }
	sprintf(b, "%d", (int)getpid());
	ev("lfork"); ebytes("pid", b, strlen(b)); ee();
}
/* lbad W: in attempts: a name that is none */
static void lbad(cmd_t *c)
{
	int w = ci(c,1), n = w == 0 ? 0 : w == 1 ? 30000 : w == 2 ? 5000 : 300, i; char *p = malloc(1100 + 2 * n); size_t l = 0;
	*p = 0;
	if (w > 1) l = sprintf(p, "%s/", ldir);
	for (i = 0; i < n; i++) l += sprintf(p + l, "%s", w == 1 ? "%c" : "a");
	log_file("id", p);
}
static void lscan(cmd_t *c) { int o = ev_off; ev_off = 1; lwalk0(0); ev_off = o; w_nslog = 0; ev("lscan"); ee(); }

/* ---- errors ---- */
static char *progs[4096]; static int nprogs;
static void eprog(cmd_t *c)
{
	int n; const char *r; char *p = cb(c, 1, &n, 1);
	if (nprogs < 4096) progs[nprogs++] = p;
	if (!strcmp(cs(c,1), "@")) p = NULL;
	err_set_program_name(p); r = err_program_name();
	ev("eprog"); ei("null", !p); ebytes("p", p ? p : "", p ? n : 0); ei("rnull", !r); ebytes("r", r ? r : "", r ? strlen(r) : 0); ee();
}
/* eerr KIND ROUTINE MSG ERRNO PENDING FORM [FULL]: w warning, f fatal, n fatal errno, i internal;
   FULL: standard output takes nothing more (and so nothing pending arrives) */
static void eerr(cmd_t *c)
{
	int n, pn, st, fd, pid, form = ci(c,6), full = c->n > 7; char *m = cb(c, 3, &n, 1), *pend = cb(c, 5, &pn, 1), fn[1024], *o, end[32]; struct stat sb;
	const char *r = strcmp(cs(c,2), "@") ? lent_text(cs(c,2)) : NULL;
	snprintf(fn, sizeof fn, "%s/err%d", scratch, (int)getpid());
	fflush(NULL);
	fd = open(fn, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
	if (!(pid = fork())) {
		int real = getpid();
		ev_off = 1; alarm(60);
		dup2(fd, 2);
		if (full) fd = open("/dev/full", O_WRONLY);
		dup2(fd, 1);
		fputs(pend, stdout);               /* not flushed yet */
#define EC(f, ...) switch (*cs(c,1)) { case 'w': err_warning(r, f, __VA_ARGS__); break; case 'f': err_fatal(r, f, __VA_ARGS__); break; \
	case 'n': errno = ci(c,4); err_fatal_errno(r, f, __VA_ARGS__); break; case 'i': err_internal(r, f, __VA_ARGS__); break; }
		(void)real;
		if (form == 0) { EC("%s", m) } else if (form == 1) { EC("%d:%s:%c%%", 42, m, 'z') } else { EC(m, 0) }
		_exit(77);                         /* it returned */
	}
	while (__real_waitpid(pid, &st, 0) < 0 && errno == EINTR);
	if (WIFEXITED(st)) sprintf(end, "exit%d", WEXITSTATUS(st)); else sprintf(end, "sig%d", WTERMSIG(st));
	if (!strcmp(end, "sig6")) strcpy(end, "abort");
	fstat(fd, &sb); o = calloc(1, sb.st_size + 1);
	if (pread(fd, o, sb.st_size, 0) != sb.st_size) die("err read");
	close(fd);
	ev("eerr"); es("k", cs(c,1)); ebytes("rt", r ? r : "", r ? strlen(r) : 0); ei("nort", !r); ebytes("m", m, n); ei("form", form);
	{ const char *s = strerror(ci(c,4)); ebytes("se", s, strlen(s)); }
	ebytes("pend", pend, full ? 0 : pn); es("end", end); ebytes("o", o, sb.st_size);
	{ char b[32]; sprintf(b, "%d", pid); ebytes("pid", b, strlen(b)); }
	lchanges();
	free(o); free(m); free(pend);
}

#include "proc.h"
op_t ops_sys[] = {
	{ "tclk", tclk }, { "tstart", tstart }, { "tstop", tstop }, { "treset", treset }, { "tget", tget }, { "tget1", tget1 }, { "tlist", tlist },
	{ "qline", qline }, { "qfill", qfill }, { "qfile", qfile }, { "qnl", qnl }, { "qadv", qadv }, { "qcpp", qcpp }, { "qget", qget }, { "qtok", qtok }, { "qacc", qacc },
	{ "qstat", qstat }, { "qdel", qdel }, { "qnew", qnew }, { "qdiag", qdiag }, { "preg", preg }, { "pconc", pconc },
	{ "linit", linit }, { "lnow", lnow }, { "lfile", lfile }, { "lstream", lstream }, { "lsys", lsys }, { "lclose", lclose }, { "lopt", lopt },
	{ "lfac", lfac }, { "lgetf", lgetf }, { "lmsg", lmsg }, { "lstd", lstd }, { "lfork", lfork }, { "lbad", lbad }, { "lscan", lscan }, { "eprog", eprog }, { "eerr", eerr },
	PROC_OPS
	{ NULL, NULL } };

/* drv.c -- main loop of the conformance driver.
   usage: drv SCRIPT TRACE SCRATCHDIR TIMEOUT
   SCRIPT is a list of scenarios; the line "reset ..." begins one.  Every
   scenario runs in a process of its own (fresh global state); if it ends in
   any way other than reaching its end, the event "crash" or "hang" is
   recorded, which no specification accepts.
   A line "!op args" is an attempt: it runs in a forked child, only the way
   the child ended is recorded ("abort", "exit1", "ok", ...). */
#include "drv.h"
#include "wrap.h"

static FILE *out;
static int   first[64], depth;
int          ev_off;
const char  *scratch;

/* what only the library can have got wrong: its loop does not end, a callback gets another argument */
void wrong(const char *what) { fprintf(stderr, "%s\n", what); _exit(97); }
void die(const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap);
	fputc('\n', stderr);
	_exit(98);
}

int ci(cmd_t *c, int i) { return i < c->n ? atoi(c->v[i]) : 0; }
long long cl(cmd_t *c, int i) { return i < c->n ? atoll(c->v[i]) : 0; }
const char *cs(cmd_t *c, int i) { return i < c->n ? c->v[i] : ""; }
static int hx(int ch) { return ch <= '9' ? ch - '0' : ch - 'a' + 10; }
char *cb(cmd_t *c, int i, int *len, int nul)
{
	const char *s = *cs(c, i) == 'x' ? cs(c, i) + 1 : cs(c, i); /* "x" marks hex text in attempts */
	int n = !strcmp(s, "-") ? 0 : strlen(s) / 2, j;
	char *b = malloc(n + nul ? n + nul : 1);
	if (!(n + nul)) { free(b); b = malloc(0); }
	for (j = 0; j < n; j++) b[j] = hx(s[2 * j]) * 16 + hx(s[2 * j + 1]);
	if (nul) b[n] = 0;
	if (len) *len = n;
	return lent_seal(b, n + nul);
}

static void comma(void) { if (!first[depth]) fputc(',', out); first[depth] = 0; }
static void key(const char *k) { comma(); fprintf(out, "\"%s\":", k); }
static void str(const char *v)
{
	fputc('"', out);
	for (; *v; v++) {
		unsigned char ch = *v;
		if (ch == '"' || ch == '\\') fprintf(out, "\\%c", ch);
		else if (ch < 32 || ch > 126) fprintf(out, "\\u%04x", ch);
		else fputc(ch, out);
	}
	fputc('"', out);
}
void ev(const char *op) { if (ev_off) return; depth = 0; first[0] = 1; fputc('{', out); es("op", op); }
int truth(int yes)
{
	static const int v[] = { 1, 2, -1, 1, 256, (int)0x80000000, 65536, 4 }; static unsigned n;
	return yes ? v[n++ % 8] : 0;
}
/* TLC's integers have 32 bits, and its JSON reader drops the bits above without a word: what does not fit is shown as the
   nearest that does */
static long long fit(long long v) { return v > 2147483647LL ? 2147483647LL : v < -2147483647LL ? -2147483647LL : v; }
void ei(const char *k, long long v) { if (ev_off) return; key(k); fprintf(out, "%lld", fit(v)); }
void es(const char *k, const char *v) { if (ev_off) return; key(k); str(v ? v : "<null>"); }
static void bytes(const char *v, int len)
{
	int i;
	fputc('[', out);
	for (i = 0; i < len; i++) fprintf(out, "%s%d", i ? "," : "", (unsigned char)v[i]);
	fputc(']', out);
}
void ebytes(const char *k, const char *v, int len) { if (ev_off) return; key(k); bytes(v, len); }
void ehex(const char *k, const char *v, int len)
{
	int i;
	if (ev_off) return;
	key(k); fputc('"', out);
	for (i = 0; i < len; i++) fprintf(out, "%02x", (unsigned char)v[i]);
	fputc('"', out);
}
void ea(const char *k) { if (ev_off) return; key(k); fputc('[', out); first[++depth] = 1; }
void eai(long long v) { if (ev_off) return; comma(); fprintf(out, "%lld", fit(v)); }
void eas(const char *v) { if (ev_off) return; comma(); str(v ? v : "<null>"); }
void eab(const char *v, int len) { if (ev_off) return; comma(); bytes(v, len); }
void eaa(void) { if (ev_off) return; comma(); fputc('[', out); first[++depth] = 1; }
void eaend(void) { if (ev_off) return; --depth; fputc(']', out); }
void eaclose(void) { if (ev_off) return; --depth; fputc(']', out); }
void ee(void) { if (ev_off) return; fputs("}\n", out); fflush(out); }

static op_t *tables[] = { ops_lent, ops_cost, ops_scale, ops_faults, ops_handles, ops_ds, ops_mem, ops_misc, ops_sys, NULL };
static handler_t find(const char *name)
{
	int i; op_t *o;
	for (i = 0; tables[i]; i++)
		for (o = tables[i]; o->name; o++) if (!strcmp(o->name, name)) return o->fn;
	die("unknown op %s", name);
	return NULL;
}

static void split(char *line, cmd_t *c)
{
	char *p = line;
	c->n = 0;
	for (;;) {
		while (*p == ' ') *p++ = 0;
		if (!*p || *p == '\n') { *p = 0; break; }
		if (c->n >= 4095) die("too many tokens");
		c->v[c->n++] = p;
		while (*p && *p != ' ' && *p != '\n') p++;
	}
}

static int is_int(const char *s)
{
	if (*s == '-') s++;
	if (!*s || strlen(s) > 9) return 0;
	for (; *s; s++) if (*s < '0' || *s > '9') return 0;
	return 1;
}

static void attempt(cmd_t *c)
{
	int st, i, pid;
	char buf[32];
	cmd_t d;
	handler_t h;

	d.n = c->n;
	memcpy(d.v, c->v, sizeof(char *) * c->n);
	d.v[0] = c->v[0] + 1;
	h = find(d.v[0]);
	fflush(NULL);
	if (!(pid = fork())) {
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 2);
		ev_off = 1;
		alarm(60);
		h(&d);
		_exit(0);
	}
	while (__real_waitpid(pid, &st, 0) < 0 && errno == EINTR);
	if (WIFEXITED(st) && !WEXITSTATUS(st)) strcpy(buf, "ok");
	else if (WIFEXITED(st)) sprintf(buf, "exit%d", WEXITSTATUS(st));
	else if (WTERMSIG(st) == SIGABRT) strcpy(buf, "abort");
	else sprintf(buf, "sig%d", WTERMSIG(st));
	ev("try"); es("cmd", d.v[0]); ea("a");
	for (i = 1; i < d.n; i++) if (is_int(d.v[i])) eai(atoi(d.v[i])); else eas(d.v[i]);
	eaclose(); es("end", buf); ee();
}

static char **lines; static long nlines;

static void load(const char *fn)
{
	FILE *f = fopen(fn, "r");
	char *l = NULL; size_t cap = 0; long m = 0;
	if (!f) die("cannot open %s", fn);
	while (getline(&l, &cap, f) > 0) {
		if (nlines >= m) lines = realloc(lines, (m = m ? 2 * m : 1024) * sizeof(char *));
		lines[nlines++] = l; l = NULL; cap = 0;
	}
	fclose(f);
}

static volatile sig_atomic_t timed_out; static pid_t runner;
static void on_alarm(int s) { (void)s; timed_out = 1; __real_kill(-runner, SIGKILL); __real_kill(runner, SIGKILL); }

int main(int argc, char **argv)
{
	long i, j;
	int st, tmo, bad = 0;
	static cmd_t c;

	if (argc > 1 && *argv[1] == '@') return child_main(argc, argv);
	if (argc != 5) die("usage");
	load(argv[1]);
	{	/* well above the descriptors the library will get */
		int fd = open(argv[2], O_WRONLY | O_APPEND | O_CREAT, 0600), hi;
		if (fd < 0 || (hi = fcntl(fd, F_DUPFD, 900)) < 0 || !(out = fdopen(hi, "a"))) die("cannot open %s", argv[2]);
		close(fd);
	}
	scratch = argv[3];
	tmo = atoi(argv[4]);
	setenv("TZ", "UTC", 1);
	signal(SIGALRM, on_alarm);
	for (i = 0; i < nlines; i = j) {
		for (j = i + 1; j < nlines && strncmp(lines[j], "reset", 5); j++);
		ev("reset"); ee();
		timed_out = 0;
		fflush(NULL);
		if (!(runner = fork())) {
			long k;
			setpgid(0, 0);
			signal(SIGALRM, SIG_DFL);
			for (k = i + 1; k < j; k++) {
				if (*lines[k] == '\n' || *lines[k] == '#') continue;
				split(lines[k], &c);
				if (!c.n) continue;
				if (*c.v[0] == '!') attempt(&c);
				else find(c.v[0])(&c);
				if (lent_on) lent_done();
			}
			fflush(NULL);
			_exit(0);
		}
		setpgid(runner, runner);
		alarm(tmo);
		while (__real_waitpid(runner, &st, 0) < 0 && errno == EINTR);
		alarm(0);
		__real_kill(-runner, SIGKILL);         /* whatever the scenario left running */
		if (timed_out) { fseek(out, 0, SEEK_END); ev("hang"); ee(); break; }
		else if (!WIFEXITED(st) || WEXITSTATUS(st)) {
			if (WIFEXITED(st) && WEXITSTATUS(st) == 98) die("driver error");
			fputc('\n', out);
			ev("crash"); ei("exit", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
			ei("signal", WIFSIGNALED(st) ? WTERMSIG(st) : 0); ee();
			if (++bad == 5) break;
		}
	}
	return 0;
}

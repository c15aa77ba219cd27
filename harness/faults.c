/* faults.c -- what happens when memory, descriptors or processes run out (C37).
   Each fault strikes in a process of its own. */
#define _GNU_SOURCE
#include "drv.h"
#include "wrap.h"
#include <sys/mman.h>

static struct shared { int hit; } *sh;
static int k_, mode_, done_;
static void arm(void) { w_oom = k_; w_oom_all = mode_; w_oom_hit = &sh->hit; }
static int cmp(const void *a, const void *b) { return strcmp(a, b); }
static const void *kf(const void *d) { return d; }
static int it1(const void *a) { (void)a; return 0; }
static char *key(int i) { static char b[16384][12]; sprintf(b[i], "key%04d", i); return b[i]; }

static hsh_HashTable mkh(int n) { int i; hsh_HashTable t = hsh_create(NULL, NULL); for (i = 0; i < n; i++) hsh_insert(t, key(i), key(i)); return t; }
static set_Set mks(int a, int n) { int i; set_Set t = set_create(NULL, NULL); for (i = a; i < a + n; i++) set_insert(t, key(i)); return t; }
static lst_List mkl(int n) { int i; lst_List t = lst_create(); for (i = 0; i < n; i++) lst_append(t, key(i)); return t; }
static sl_List mky(int n) { int i; sl_List t = sl_create(cmp, kf, NULL); for (i = 0; i < n; i++) sl_insert(t, key(i)); return t; }
static stk_Stack mkk(int n) { int i; stk_Stack t = stk_create(); for (i = 0; i < n; i++) stk_push(t, key(i)); return t; }
static mem_Object mko(int n) { int i; mem_Object t = mem_create_objects(24); for (i = 0; i < n; i++) mem_get_object(t); return t; }
static mem_String mkm(int n) { int i; mem_String t = mem_create_strings(); for (i = 0; i < n; i++) mem_strcpy(t, key(i)); return t; }
static str_Pool mkp(int n) { int i; str_Pool t = str_pool_create(); for (i = 0; i < n; i++) str_pool_find(t, key(i)); return t; }
static arg_List mka(int n) { int i; arg_List t = arg_create(); for (i = 0; i < n; i++) arg_add(t, key(i)); return t; }
static void mkg(int n) { int i; for (i = 0; i < n; i++) str_find(key(i)); }
static void mkt(int n) { int i; for (i = 0; i < n; i++) tim_start(key(i)); }
static void mkq(int n) { int i; for (i = 0; i < n; i++) src_line("one line\n", 9); }
static void mkr(int n) { int i; for (i = 0; i < n; i++) prs_register_concrete(key(i), key(i)); }

#define O(name, setup, call) if (!strcmp(f, #name)) { setup; arm(); call; done_ = 1; }
static void run(const char *f, int n)
{
	void *p = NULL, *q = NULL; char buf[200]; int a, b;
	done_ = 0;
	O(xmalloc, , if (!xmalloc(n + 1)) _exit(90))
	O(xcalloc, , if (!xcalloc(n + 1, 8)) _exit(90))
	O(xrealloc, p = xmalloc(n + 1), if (!xrealloc(p, 2 * n + 2)) _exit(90))
	O(xstrdup, , if (strcmp(xstrdup("some text"), "some text")) _exit(90))
	O(hsh_create, , hsh_create(NULL, NULL))
	O(hsh_insert, p = mkh(n), hsh_insert(p, "new", "x"))
	O(hsh_get_stats, p = mkh(n), hsh_get_stats(p))
	O(set_create, , set_create(NULL, NULL))
	O(set_insert, p = mks(0, n), set_insert(p, "new"))
	O(set_add, p = mks(0, n); q = mks(n / 2, n), set_add(p, q))
	O(set_union, p = mks(0, n); q = mks(n / 2, n), set_union(p, q))
	O(set_inter, p = mks(0, n); q = mks(n / 2, n), set_inter(p, q))
	O(set_diff, p = mks(0, n); q = mks(n / 2, n), set_diff(p, q))
	O(set_get_stats, p = mks(0, n), set_get_stats(p))
	O(lst_create, , lst_create())
	O(lst_append, p = mkl(n), lst_append(p, "x"))
	O(lst_push, p = mkl(n), lst_push(p, "x"))
	O(lst_pop, p = mkl(n), lst_pop(p))
	O(lst_truncate, p = mkl(n), lst_truncate(p, n / 2))
	O(sl_create, , sl_create(cmp, kf, NULL))
	O(sl_insert, p = mky(n), sl_insert(p, "new"))
	O(sl_iterate, p = mky(n), sl_iterate(p, it1))
	O(sl_destroy, p = mky(n), sl_destroy(p))
	O(stk_create, , stk_create())
	O(stk_push, p = mkk(n), stk_push(p, "x"))
	O(mem_create_objects, , mem_create_objects(24))
	O(mem_get_object, p = mko(n), mem_get_object(p))
	O(mem_get_empty_object, p = mko(n), mem_get_empty_object(p))
	O(mem_free_object, p = mko(n); q = mem_get_object(p), mem_free_object(p, q))
	O(mem_get_object_stats, p = mko(n), mem_get_object_stats(p))
	O(mem_create_strings, , mem_create_strings())
	O(mem_strcpy, p = mkm(n), mem_strcpy(p, "text"))
	O(mem_strncpy, p = mkm(n), mem_strncpy(p, "text", 2))
	O(mem_grow, p = mkm(n), { mem_grow(p, "text", 4); mem_grow(p, "more", 3); mem_finish(p); })
	O(mem_get_string_stats, p = mkm(n), mem_get_string_stats(p))
	O(str_pool_create, , str_pool_create())
	O(str_pool_find, p = mkp(n), str_pool_find(p, "new"))
	O(str_pool_copy, p = mkp(n), str_pool_copy(p, "new"))
	O(str_pool_copyn, p = mkp(n), str_pool_copyn(p, "new", 2))
	O(str_pool_grow, p = mkp(n), { str_pool_grow(p, "new", 3); str_pool_finish(p); })
	O(str_pool_get_stats, p = mkp(n), str_pool_get_stats(p))
	O(str_find, mkg(n), str_find("new"))
	O(str_findn, mkg(n), str_findn("new", 2))
	O(str_copy, mkg(n), str_copy("new"))
	O(str_grow, mkg(n), { str_grow("new", 3); str_finish(); })
	O(str_exists, mkg(n), str_exists("new"))
	O(str_unique, mkg(n), str_unique("new"))
	O(arg_create, , arg_create())
	O(arg_add, p = mka(n), arg_add(p, "new"))
	O(arg_addn, p = mka(n), arg_addn(p, "new", 2))
	O(arg_grow, p = mka(n), { arg_grow(p, "new", 3); arg_grow(p, "er", 2); arg_finish(p); })
	O(arg_argify, , arg_argify("a list \"of words\" and 'more' words 1 2 3 4 5 6 7 8 9", 0))
	O(tim_start, mkt(n), tim_start("new"))
	O(dbg_register, , dbg_register(1, "new"))
	O(flg_register, , flg_register(1, "new"))
	O(err_set_program_name, , err_set_program_name("some/name"))
	O(prs_register_concrete, mkr(n), prs_register_concrete("new", "x"))
	O(src_line, mkq(n), src_line("another\n", 8))
	O(src_get, mkq(n + 1), src_get(3))
	O(src_cpp_line, mkq(n), src_cpp_line("# 5 \"file.c\"\n", 13))
	O(src_get_stats, mkq(n), src_get_stats())
	O(log_file, sprintf(buf, "%s/oom.%d/x.log", scratch, n), { log_file("me", buf); log_info("hello\n"); log_file(NULL, NULL); })
	O(log_stream, , log_stream("me", stderr))
	O(maa_init, , maa_init("me"))
	O(pr_open, , { p = NULL; a = b = -1; pr_open("cat", PR_CREATE_STDIN | PR_CREATE_STDOUT, &a, &b, NULL); close(a); pr_close_nowait(a); pr_close(b); })
	O(pr_spawn, , pr_spawn("true"))
	if (!done_) die("function %s", f);
	w_oom = 0;
}
static int ended(pid_t p, char *buf)
{
	int st;
	while (__real_waitpid(p, &st, 0) < 0 && errno == EINTR);
	if (WIFEXITED(st) && !WEXITSTATUS(st)) strcpy(buf, "ok");
	else if (WIFEXITED(st)) sprintf(buf, "exit%d", WEXITSTATUS(st));
	else if (WTERMSIG(st) == SIGABRT) strcpy(buf, "abort");
	else sprintf(buf, "sig%d", WTERMSIG(st));
	return 0;
}
static char errname[4096];
static pid_t start(void)
{
	pid_t p;
	if (!sh) sh = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(sh, 0, sizeof *sh);
	sprintf(errname, "%s/faults.err", scratch);
	fflush(NULL);
	if (!(p = fork())) {
		int fd = open(errname, O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(fd, 2); close(fd);
		ev_off = 1; alarm(60);
	}
	return p;
}
static int said(const char *what)
{
	static char b[65536]; int n, fd = open(errname, O_RDONLY);
	n = read(fd, b, sizeof b - 1); close(fd); unlink(errname);
	b[n < 0 ? 0 : n] = 0;
	return strcasestr(b, what) != NULL;
}
static int one(const char *f, int n, int mode, int k)
{
	char end[32]; pid_t p;
	k_ = k; mode_ = mode;
	if (!(p = start())) { run(f, n); _exit(0); }
	ended(p, end);
	ev("oom"); es("f", f); ei("n", n); ei("mode", mode); ei("k", k); ei("hit", sh->hit); es("end", end); ei("said", said("memory")); ee();
	return sh->hit;
}
static void oom(cmd_t *c) { one(cs(c,1), ci(c,2), ci(c,3), ci(c,4)); }
/* every allocation in turn (every so many after the first 40) */
static void oomall(cmd_t *c) { int k; for (k = 1; k < 4000 && one(cs(c,1), ci(c,2), ci(c,3), k); k += k < 40 ? 1 : k / 10); }

static void xfree0(cmd_t *c)
{
	char end[32]; pid_t p;
	(void)c;
	if (!(p = start())) { xfree(NULL); _exit(0); }
	ended(p, end);
	ev("xfree0"); es("end", end); ei("said", said("free")); ee();
}
/* huge W: more memory than there can be is asked for; the caller has something already that is to grow */
static void huge(cmd_t *c)
{
	static volatile size_t top = (size_t)1 << 63;
	char end[32], *p = xmalloc(8); int w = ci(c,1); pid_t q;
	if (!(q = start())) {
		void *r = w == 0 ? xcalloc(top + 8, 2) : w == 1 ? xcalloc(2, top + 8) : w == 2 ? xcalloc((top >> 31) + 1, (top >> 31)) : w == 3 ? xmalloc(top) : w == 4 ? xmalloc(top - 100)
			: w == 5 ? xrealloc(p, top + 8) : w == 6 ? xmalloc(top + (top - 1)) : xcalloc(top - 1, 1);
		_exit(r ? 0 : 3);
	}
	ended(q, end);
	xfree(p);
	ev("huge"); ei("w", w); es("end", end); ei("said", said("memory")); ee();
}
/* opens (a log, or a child with the streams in mask: 1 in, 2 out, 4 err) with so many descriptors left */
static void nofd(cmd_t *c)
{
	const char *f = cs(c,1); int mask = ci(c,2), left = ci(c,3), q; char end[32], buf[4096]; pid_t p;
	if (!(p = start())) {
		int a = -1, b = -1, e = -1, fl = 0, fd; struct rlimit r;
		sprintf(buf, "%s/nofd.log", scratch);
		if (mask & 1) fl |= PR_CREATE_STDIN;
		if (mask & 2) fl |= PR_CREATE_STDOUT;
		if (mask & 4) fl |= PR_CREATE_STDERR;
		/* fill the table: then free as many */
		getrlimit(RLIMIT_NOFILE, &r); r.rlim_cur = 1000; setrlimit(RLIMIT_NOFILE, &r);
		fcntl(2, F_DUPFD, 990); if ((fd = open("/dev/null", O_RDONLY)) < 0) die("null");
		while (dup(fd) >= 0);
		for (q = 0; q < left; q++) close(500 + q);
		if (!strcmp(f, "log")) log_file("me", buf);
		else {
			pr_open("true", fl, &a, &b, &e);
			if ((mask & 1) && write(a, "", 0) < 0) _exit(91);
			if (((mask & 1) && a < 0) || ((mask & 2) && b < 0) || ((mask & 4) && e < 0)) _exit(92);
		}
		_exit(0);
	}
	ended(p, end);
	ev("nofd"); es("f", f); ei("mask", mask); ei("left", left); es("end", end); ei("said", said(strerror(EMFILE))); ee();
}
/* fork fails */
static void nofork(cmd_t *c)
{
	const char *f = cs(c,1); char end[32], buf[10]; pid_t p; int a, b;
	if (!(p = start())) {
		w_nofork = 1;
		if (!strcmp(f, "open")) pr_open("true", PR_CREATE_STDIN | PR_CREATE_STDOUT, &a, &b, NULL);
		else if (!strcmp(f, "spawn")) pr_spawn("true");
		else pr_filter("cat", "abc", 3, buf, 10);
		_exit(0);
	}
	ended(p, end);
	ev("nofork"); es("f", f); es("end", end); ei("said", said(strerror(EAGAIN))); ee();
}
/* a log file that cannot be opened, at once (0) or when its name changes (1), with another log open (2, 3) */
static void nolog(cmd_t *c)
{
	int how = ci(c,1), n = 0, fd; char end[32], buf[4096], o[4096], t[20000] = ""; pid_t p;
	sprintf(o, "%s/nolog.out", scratch);
	if (!(p = start())) {
		FILE *s = fopen(o, "w");
		sprintf(buf, "%s/plain", scratch); fd = open(buf, O_WRONLY | O_CREAT, 0600); close(fd);
		w_time = 1; w_now = how & 1 ? 3600 : 7200;
		sprintf(buf, "%s/dir01", scratch); mkdir(buf, 0700);
		sprintf(buf, "%s/dir02", scratch); fd = open(buf, O_WRONLY | O_CREAT, 0600); close(fd);
		sprintf(buf, "%s/dir%%H/x", scratch);
		if (how & 2) log_stream("me", s);
		log_file("me", buf);
		w_now = 7200;
		log_info("lost\n");
		_exit(0);
	}
	ended(p, end);
	if ((fd = open(o, O_RDONLY)) >= 0) { n = read(fd, t, sizeof t - 1); t[n < 0 ? 0 : n] = 0; close(fd); }
	unlink(o);
	ev("nolog"); ei("how", how); es("end", end); ei("said", said(strerror(ENOTDIR))); ei("logged", strstr(t, strerror(ENOTDIR)) != NULL); ee();
}
op_t ops_faults[] = { { "oom", oom }, { "oomall", oomall }, { "xfree0", xfree0 }, { "huge", huge }, { "nofd", nofd }, { "nofork", nofork }, { "nolog", nolog }, { NULL, NULL } };

/* scale.c -- the same operations on hundreds of thousands of elements and on
   texts of megabytes (C38).  A unit is a number of elements; element i is
   known by the text key(i).  Objects of one kind hold elements lo..hi-1. */
#include "drv.h"

static int  U = 60000, TU = 700000, base_stk;
static struct kind { const char *name; void *p; int lo, hi; } K[] = {
	{ "hash", 0, 0, 0 }, { "set", 0, 0, 0 }, { "list", 0, 0, 0 }, { "skip", 0, 0, 0 }, { "stack", 0, 0, 0 }, { "objs", 0, 0, 0 },
	{ "strs", 0, 0, 0 }, { "pool", 0, 0, 0 }, { "glob", 0, 0, 0 }, { "args", 0, 0, 0 }, { "src", 0, 0, 0 }, { "prs", 0, 0, 0 }, { NULL, 0, 0, 0 } };
static struct kind *kd(cmd_t *c) { struct kind *k; for (k = K; k->name; k++) if (!strcmp(k->name, cs(c,1))) return k; die("kind %s", cs(c,1)); return NULL; }
#define KEYS 1000000
static char *arena;
static char *key(int i)
{
	if (!arena) { int j; arena = malloc(9 * KEYS); for (j = 0; j < KEYS; j++) sprintf(arena + 9 * j, "k%07d", j); }
	if (i < 0 || i >= KEYS) die("key %d", i);
	return arena + 9 * i;
}
static int num(const void *k) { return k ? atoi((const char *)k + 1) : -9; }
static int cmp(const void *a, const void *b) { return strcmp(a, b); }
static const void *kf(const void *d) { return d; }
/* pages of run-time stack that were ever used, in kB */
static int stk(void)
{
	FILE *f = fopen("/proc/self/status", "r"); char b[256]; int n = 0;
	while (f && fgets(b, sizeof b, f)) if (sscanf(b, "VmStk: %d", &n) == 1) break;
	if (f) fclose(f);
	return n;
}
static void end(void) { ei("stk", stk() - base_stk); ee(); }

/* what was seen, as runs of consecutive numbers */
static int run_a, run_b, run_n, run_d, run_t;
static void run_start(void) { run_n = run_t = 0; ea("runs"); }
static void run_out(void) { if (run_n++ < 6) { eaa(); eai(run_a); eai(run_b); eaend(); } }
static void run_put(int i)
{
	if (!run_t++) { run_a = run_b = i; run_d = 0; return; }
	if (run_d ? i == run_b + run_d : (i == run_b + 1 || i == run_b - 1)) { run_d = i - run_b; run_b = i; return; }
	run_out(); run_a = run_b = i; run_d = 0;
}
static void run_end(void) { if (run_t) run_out(); eaclose(); ei("n", run_t); }
/* the same for those who come in any order */
static unsigned char *seen; static int twice, visits;
static void see(int i) { ++visits; if (i < 0 || i >= KEYS || seen[i]++) ++twice; }
static void see_start(void) { seen = calloc(KEYS, 1); twice = visits = 0; }
static void see_end(void)
{
	int i;
	run_start(); for (i = 0; i < KEYS; i++) if (seen[i]) run_put(i); run_end();
	ei("visits", visits); ei("twice", twice); free(seen);
}
static int s1(const void *a) { see(num(a)); return 0; }
static int s1a(const void *a, void *x) { (void)x; return s1(a); }
static int s2(const void *a, const void *b) { see(a == b ? num(a) : -1); return 0; }
static int s2a(const void *a, const void *b, void *x) { (void)x; return s2(a, b); }
static int r1(const void *a) { run_put(num(a)); return 0; }
static int r1a(const void *a, void *x) { (void)x; return r1(a); }
static int ssp(const char *a) { see(num(a)); return 0; }

static void **objs;                     /* live objects by number */
static const char **strs;
static src_Type *toks;
#define IS(s) (!strcmp(k->name, s))
static void make(struct kind *k)
{
	if (IS("hash")) k->p = hsh_create(NULL, NULL);
	else if (IS("set")) k->p = set_create(NULL, NULL);
	else if (IS("list")) k->p = lst_create();
	else if (IS("skip")) k->p = sl_create(cmp, kf, NULL);
	else if (IS("stack")) k->p = stk_create();
	else if (IS("objs")) { k->p = mem_create_objects(9); if (!objs) objs = malloc(KEYS * sizeof *objs); }
	else if (IS("strs")) { k->p = mem_create_strings(); if (!strs) strs = malloc(KEYS * sizeof *strs); }
	else if (IS("pool")) k->p = str_pool_create();
	else if (IS("glob") || IS("prs")) k->p = "";
	else if (IS("src")) { src_create(); k->p = ""; if (!toks) toks = malloc(KEYS * sizeof *toks); }
	else k->p = arg_create();
	k->lo = k->hi = 0;
}
static int count(struct kind *k)
{
	int n = -1;
	if (IS("hash")) { hsh_Stats s = hsh_get_stats(k->p); n = s->entries; xfree(s); }
	else if (IS("set")) n = set_count(k->p);
	else if (IS("list")) n = lst_length(k->p);
	else if (IS("objs")) { mem_ObjectStats s = mem_get_object_stats(k->p); n = s->used; xfree(s); }
	else if (IS("strs")) { mem_StringStats s = mem_get_string_stats(k->p); n = s->count; xfree(s); }
	else if (IS("pool")) { str_Stats s = str_pool_get_stats(k->p); n = s->count; xfree(s); }

	else if (IS("args")) n = arg_count(k->p);
	else if (IS("src")) { src_Stats s = src_get_stats(); n = s->lines_used; xfree(s); }
	return n;
}
static void unit(cmd_t *c)
{
	U = ci(c,1); TU = ci(c,2); key(0); base_stk = stk();
	ev("unit"); ei("u", U); ei("t", TU); end();
}
static void grow(struct kind *k, int m, int odd)
{
	int i, e = k->hi + m;
	for (i = k->hi; i < e; i++) {
		char *s = key(i);
		if (IS("hash")) hsh_insert(k->p, s, s);
		else if (IS("set")) set_insert(k->p, s);
		else if (IS("list")) lst_append(k->p, s);
		else if (IS("skip")) sl_insert(k->p, key(odd ? e - 1 - (i - k->hi) : i));
		else if (IS("stack")) stk_push(k->p, s);
		else if (IS("objs")) { objs[i] = mem_get_object(k->p); memcpy(objs[i], s, 9); }
		else if (IS("strs")) {
			if (odd) { mem_grow(k->p, s, 3); mem_grow(k->p, s + 3, 5); strs[i] = mem_finish(k->p); }
			else strs[i] = mem_strcpy(k->p, s);
		}
		else if (IS("pool")) str_pool_find(k->p, s);
		else if (IS("glob")) str_find(s);
		else if (IS("src")) { char b[16]; src_line(b, sprintf(b, "%s\n", s)); src_advance(3); toks[i] = src_get(5); }
		else if (IS("prs")) prs_register_concrete(s, s);
		else arg_add(k->p, s);
	}
	k->hi = e;
}
static void zadd(cmd_t *c)
{
	struct kind *k = kd(c); int m = ci(c,2);
	if (!k->p) make(k);
	grow(k, m * U, ci(c,3));
	ev("zadd"); es("k", k->name); ei("m", m); ei("n", count(k)); end();
}
/* take the oldest (stack: the youngest) away; tell which came out */
static void zcut(cmd_t *c)
{
	struct kind *k = kd(c); int m = ci(c,2), j, t = m * U;
	ev("zcut"); es("k", k->name); ei("m", m); run_start();
	if (IS("list") && ci(c,3)) {        /* from the end */
		lst_truncate(k->p, k->hi - k->lo - t); k->hi -= t;
		run_end(); ei("from", 1); ei("n", count(k)); end(); return;
	}
	for (j = 0; j < t; j++) {
		int i = IS("stack") ? k->hi - 1 - j : k->lo + j;
		if (IS("hash")) { if (!hsh_delete(k->p, key(i))) run_put(i); }
		else if (IS("set")) { if (!set_delete(k->p, key(i))) run_put(i); }
		else if (IS("list")) run_put(num(lst_pop(k->p)));
		else if (IS("skip")) { sl_delete(k->p, key(i)); run_put(i); }
		else if (IS("stack")) run_put(num(stk_pop(k->p)));
		else if (IS("objs")) { run_put(num(objs[i])); mem_free_object(k->p, objs[i]); }
	}
	if (IS("stack")) k->hi -= t; else k->lo += t;
	run_end(); ei("from", IS("stack") ? 1 : 0); ei("n", count(k)); end();
}
static void zwalk(cmd_t *c)
{
	struct kind *k = kd(c); int how = ci(c,2), i;
	ev("zwalk"); es("k", k->name);
	if (IS("hash") || IS("set") || IS("pool") || IS("glob")) {
		see_start();
		if (IS("hash")) {
			if (how == 0) hsh_iterate(k->p, s2);
			else if (how == 1) hsh_iterate_arg(k->p, s2a, NULL);
			else { hsh_Position p; void *x, *y; HSH_ITERATE(k->p, p, x, y) s2(x, y); HSH_ITERATE_END(k->p); }
		} else if (IS("set")) {
			if (how == 0) set_iterate(k->p, s1);
			else if (how == 1) set_iterate_arg(k->p, s1a, NULL);
			else { set_Position p; void *x; SET_ITERATE(k->p, p, x) s1(x); SET_ITERATE_END(k->p); }
		} else if (IS("pool")) str_pool_iterate(k->p, ssp);
		else for (i = k->lo; i < k->hi; i++) if (str_exists(key(i))) see(i);
		see_end();
	} else {
		run_start();
		if (IS("list")) {
			if (how == 0) lst_iterate(k->p, r1);
			else if (how == 1) lst_iterate_arg(k->p, r1a, NULL);
			else { lst_Position p; void *x; LST_ITERATE(k->p, p, x) r1(x); }
		} else if (IS("skip")) { if (how == 1) sl_iterate_arg(k->p, r1a, NULL); else sl_iterate(k->p, r1); }
		else if (IS("objs")) for (i = k->lo; i < k->hi; i++) run_put(num(objs[i]));
		else if (IS("strs")) for (i = k->lo; i < k->hi; i++) run_put(num(strs[i]));
		else if (IS("stack")) { if (!stk_isempty(k->p)) run_put(num(stk_top(k->p))); }
		else if (IS("src")) for (i = k->lo; i < k->hi; i++) run_put(src_linenumber(toks[i]) == i + 1 && src_offset(toks[i]) == 3 && src_length(toks[i]) == 5 ? num(src_source_line(toks[i])) : -1);
		else if (IS("prs")) for (i = k->lo; i < k->hi; i++) run_put(num(prs_concrete(key(i))));
		else if (how == 1) { int n; char **v; arg_get_vector(k->p, &n, &v); for (i = 0; i < n; i++) run_put(num(v[i])); if (v[n]) run_put(-7); }
		else for (i = 0; i < arg_count(k->p); i++) run_put(num(arg_get(k->p, i)));
		i = run_t; run_end(); ei("visits", i); ei("twice", 0);
	}
	end();
}
/* look for what is there and for a neighbourhood of it */
static void zfind(cmd_t *c)
{
	struct kind *k = kd(c); int i, a = k->lo - U / 2, b = k->hi + U / 2, step = 1;
	if (a < 0) a = 0;
	ev("zfind"); es("k", k->name); run_start();
	if (IS("list")) {                   /* from both ends and the middle */
		int n = k->hi - k->lo, q[5] = { 1, 2, n / 2, n - 1, n };
		run_end();
		ea("at"); for (i = 0; i < 5; i++) eai(n ? num(lst_nth_get(k->p, q[i])) - k->lo : -9); eaclose();
		ea("in"); eai(lst_member(k->p, key(k->lo))); eai(lst_member(k->p, key(k->hi - !!n))); eai(lst_member(k->p, key(k->hi))); eaclose();
		end(); return;
	}
	for (i = a; i < b; i += step)
		if (IS("hash") ? hsh_retrieve(k->p, key(i)) == key(i) : IS("set") ? set_member(k->p, key(i)) : IS("skip") ? sl_find(k->p, key(i)) == key(i)
			: IS("pool") ? str_pool_exists(k->p, key(i)) : IS("prs") ? prs_concrete(key(i)) != NULL : str_exists(key(i))) run_put(i);
	run_end(); ea("at"); eaclose(); ea("in"); eaclose(); end();
}
static void zdrop(cmd_t *c)
{
	struct kind *k = kd(c); int n = k->hi - k->lo;
	if (IS("hash")) hsh_destroy(k->p); else if (IS("set")) set_destroy(k->p); else if (IS("list")) lst_destroy(k->p);
	else if (IS("skip")) sl_destroy(k->p); else if (IS("stack")) stk_destroy(k->p); else if (IS("objs")) mem_destroy_objects(k->p);
	else if (IS("strs")) mem_destroy_strings(k->p); else if (IS("pool")) str_pool_destroy(k->p); else if (IS("glob")) str_destroy();
	else if (IS("src")) src_destroy(); else if (IS("prs")) _prs_shutdown();
	else arg_destroy(k->p);
	k->p = NULL; k->lo = k->hi = 0;
	ev("zdrop"); es("k", k->name); (void)n; end();
}
/* the set with one whose elements are m units further up */
static void zset(cmd_t *c)
{
	struct kind *k = &K[1], o = { "set", NULL, 0, 0 }; const char *f = cs(c,1); int m = ci(c,2), r = -1; set_Set s = NULL;
	make(&o); o.lo = o.hi = k->lo + m * U; grow(&o, k->hi - k->lo, 0);
	if (!strcmp(f, "union")) s = set_union(k->p, o.p);
	else if (!strcmp(f, "inter")) s = set_inter(k->p, o.p);
	else if (!strcmp(f, "diff")) s = set_diff(k->p, o.p);
	else if (!strcmp(f, "add")) set_add(k->p, o.p);
	else if (!strcmp(f, "del")) set_del(k->p, o.p);
	else r = set_equal(k->p, o.p);
	ev("zset"); es("f", f); ei("m", m); ei("r", r); see_start(); set_iterate(s ? s : k->p, s1); see_end(); end();
	if (!strcmp(f, "add") && k->hi > k->lo) k->hi += m * U;
	if (!strcmp(f, "del")) { k->hi = k->lo + m * U < k->hi ? k->lo + m * U : k->hi; }
	if (s) set_destroy(s);
	set_destroy(o.p);
}
/* one text of n units and a bit; is it handled whole? */
static void ztext(cmd_t *c)
{
	const char *f = cs(c,1), *r = NULL; int n = ci(c,2) * TU + ci(c,3), i, len = -1; char *s = malloc(n + 40), *t; long h = n;
	for (i = 0; i < n; i++) s[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[(h = (h * 1103515245 + 12345) & 0x7fffffff) >> 16 & 31];
	s[n] = 0;
	t = malloc(n + 40); memcpy(t, s, n + 1);
#define T(x) else if (!strcmp(f, #x))
	if (0) ;
	T(xstrdup) r = xstrdup(s);
	T(str_find) r = str_find(s);
	T(str_findn) { s[n] = 'x'; r = str_findn(s, n); }
	T(str_copy) r = str_copy(s);
	T(str_copyn) { s[n] = 'x'; r = str_copyn(s, n); }
	T(str_grow) { str_grow(s, n / 2); str_grow(s + n / 2, n - n / 2); r = str_finish(); }
	T(str_pool_find) { str_Pool p = str_pool_create(); r = str_pool_find(p, s); if (str_pool_exists(p, t) != 1 || str_pool_find(p, t) != r) r = NULL; }
	T(str_pool_copyn) { str_Pool p = str_pool_create(); s[n] = 'x'; r = str_pool_copyn(p, s, n); }
	T(str_pool_grow) { str_Pool p = str_pool_create(); str_pool_grow(p, s, n); r = str_pool_finish(p); }
	T(str_unique) { r = str_unique(s); i = strlen(r); if (i > n && !strncmp(r, t, n)) { len = n; r = t; } else r = NULL; }
	T(mem_strcpy) r = mem_strcpy(mem_create_strings(), s);
	T(mem_strncpy) { s[n] = 'x'; r = mem_strncpy(mem_create_strings(), s, n); }
	T(mem_grow) { mem_String m = mem_create_strings(); for (i = 0; i < n; i += 1000) mem_grow(m, s + i, n - i < 1000 ? n - i : 1000); r = mem_finish(m); }
	T(arg_add) { arg_List a = arg_create(); arg_add(a, s); r = arg_get(a, 0); }
	T(arg_addn) { arg_List a = arg_create(); s[n] = 'x'; arg_addn(a, s, n); r = arg_get(a, 0); }
	T(arg_grow) { arg_List a = arg_create(); arg_grow(a, s, n); arg_finish(a); r = arg_get(a, 0); }
	T(arg_argify) { arg_List a = arg_argify(s, 0); if (arg_count(a) == (n > 0)) r = n ? arg_get(a, 0) : ""; }
	T(arg_quoted) { arg_List a; memmove(s + 1, s, n); s[0] = s[n + 1] = '"'; s[n + 2] = 0; a = arg_argify(s, 0); if (arg_count(a) == 1) r = arg_get(a, 0); }
	T(hsh_insert) { hsh_HashTable t1 = hsh_create(NULL, NULL); hsh_insert(t1, s, s); r = hsh_retrieve(t1, t); }
	T(src_line) { src_create(); s[n] = '\n'; src_line(s, n + 1); { src_Type y = src_get(1); r = strdup(src_source_line(y)); } if (r && strlen(r) > (size_t)n) { if (r[n] == '\n' && !r[n + 1]) r = strndup(r, n); } src_destroy(); }
	T(src_cpp_line) {
		char *q = malloc(n + 40); i = sprintf(q, "# 17 \""); memcpy(q + i, s, n); strcpy(q + i + n, "\"");
		src_create(); src_cpp_line(q, i + n + 1); src_line("x\n", 2); { src_Type y = src_get(1); r = strdup(src_filename(y)); if (src_linenumber(y) != 17) r = NULL; } src_destroy();
	}
	T(err_set_program_name) { err_set_program_name(s); r = strdup(err_program_name()); err_set_program_name("drv"); }
	T(prs_register_concrete) { prs_register_concrete(t, s); r = prs_concrete(t); }
	T(txt_soundex) { for (i = 0; i < n; i++) s[i] = "aeiouhwy"[s[i] & 7]; if (n > 1) s[n - 1] = 'b'; if (n) s[0] = 'q'; txt_soundex2(s, t); r = !strcmp(txt_soundex(s), n > 1 ? "Q100" : n ? "Q000" : "Z000") ? s : NULL; free(t); t = strdup(s); }
	else die("text %s", f);
	ev("ztext"); es("f", f); ei("u", ci(c,2)); ei("x", ci(c,3)); ei("len", r ? (len >= 0 ? len : (int)strlen(r)) : -1); ei("same", r && !strncmp(r, t, n)); end();
}
op_t ops_scale[] = { { "unit", unit }, { "zadd", zadd }, { "zcut", zcut }, { "zwalk", zwalk }, { "zfind", zfind }, { "zdrop", zdrop }, { "zset", zset }, { "ztext", ztext }, { NULL, NULL } };

/* cost.c -- how much an operation does: comparisons, hash values computed and
   memory held, however many elements there are and however often an object is
   used (C40).  A unit is a number of elements; an object of one kind holds
   elements lo..hi-1. */
#include "drv.h"

extern long vm_bytes;
static int U = 1000;
static long cmps, hashes, alien; static int counting;
static const void *mine;                 /* the key of the operation: hashing any other is counted apart */
int __real_strcmp(const char *a, const char *b);
int __wrap_strcmp(const char *a, const char *b) { if (counting) cmps++; return __real_strcmp(a, b); }

static struct kind { const char *name; void *p; int lo, hi; long base; } K[] = {
	{ "hash", 0, 0, 0, 0 }, { "hstr", 0, 0, 0, 0 }, { "hptr", 0, 0, 0, 0 }, { "set", 0, 0, 0, 0 }, { "sstr", 0, 0, 0, 0 }, { "sptr", 0, 0, 0, 0 },
	{ "skip", 0, 0, 0, 0 }, { "pool", 0, 0, 0, 0 }, { "glob", 0, 0, 0, 0 }, { "list", 0, 0, 0, 0 }, { "stack", 0, 0, 0, 0 }, { "objs", 0, 0, 0, 0 },
	{ "strs", 0, 0, 0, 0 }, { "args", 0, 0, 0, 0 }, { NULL, 0, 0, 0, 0 } };
static struct kind *kd(cmd_t *c) { struct kind *k; for (k = K; k->name; k++) if (!__real_strcmp(k->name, cs(c,1))) return k; die("kind %s", cs(c,1)); return NULL; }
#define IS(s) (!__real_strcmp(k->name, s))
#define KEYS 800000
static char *arena; static void **objs;
static char *key(int i)
{
	if (!arena) { int j; arena = malloc(8 * KEYS); objs = malloc(KEYS * sizeof *objs); for (j = 0; j < KEYS; j++) sprintf(arena + 8 * j, "c%06d", j); }
	if (i < 0 || i >= KEYS) die("key %d", i);
	return arena + 8 * i;
}
#define HASHING hashes++; if (mine && p != mine) alien++
static unsigned long h_num(const void *p) { HASHING; return (unsigned long)(((const char *)p - arena) / 8) * 2654435761UL; }
static int c_num(const void *a, const void *b) { cmps++; return a != b; }
static unsigned long h_ptr(const void *p) { HASHING; return hsh_pointer_hash(p); }
static int c_ptr(const void *a, const void *b) { cmps++; return hsh_pointer_compare(a, b); }
static unsigned long h_str(const void *p) { HASHING; return hsh_string_hash(p); }
static int c_ord(const void *a, const void *b) { cmps++; return a < b ? -1 : a > b; }
static const void *kf(const void *d) { return d; }

static void *made(struct kind *k)
{
	if (IS("hash")) return hsh_create(h_num, c_num);
	if (IS("hstr")) return hsh_create(h_str, NULL);
	if (IS("hptr")) return hsh_create(h_ptr, c_ptr);
	if (IS("set")) return set_create(h_num, c_num);
	if (IS("sstr")) return set_create(NULL, NULL);
	if (IS("sptr")) return set_create(h_ptr, c_ptr);
	if (IS("skip")) return sl_create(c_ord, kf, NULL);
	if (IS("pool")) return str_pool_create();
	if (IS("list")) return lst_create();
	if (IS("stack")) return stk_create();
	if (IS("objs")) return mem_create_objects(24);
	if (IS("strs")) return mem_create_strings();
	if (IS("args")) return arg_create();
	return "";
}
static void unmade(struct kind *k, void *p)
{
	if (k->name[0] == 'h') hsh_destroy(p);
	else if (IS("set") || IS("sstr") || IS("sptr")) set_destroy(p);
	else if (IS("skip")) sl_destroy(p);
	else if (IS("pool")) str_pool_destroy(p);
	else if (IS("list")) lst_destroy(p);
	else if (IS("stack")) stk_destroy(p);
	else if (IS("objs")) mem_destroy_objects(p);
	else if (IS("strs")) mem_destroy_strings(p);
	else if (IS("args")) arg_destroy(p);
	else str_destroy();
}
/* 1: it was new */
static int add(struct kind *k, void *p, int i)
{
	char *s = key(i); const char *t;
	mine = s;
	if (k->name[0] == 'h') return !hsh_insert(p, s, s);
	if (IS("set") || IS("sstr") || IS("sptr")) return !set_insert(p, s);
	if (IS("skip")) { sl_insert(p, s); return 1; }
	if (IS("pool")) { t = str_pool_find(p, s); return t && !__real_strcmp(t, s); }
	if (IS("glob")) { t = str_find(s); return t && !__real_strcmp(t, s); }
	if (IS("list")) { lst_append(p, s); return 1; }
	if (IS("stack")) { stk_push(p, s); return 1; }
	if (IS("objs")) return (objs[i] = mem_get_object(p)) != NULL;
	if (IS("strs")) { t = mem_strcpy(p, s); return t && !__real_strcmp(t, s); }
	arg_add(p, s); return 1;
}
static int del(struct kind *k, void *p, int i)
{
	char *s = key(i);
	mine = s;
	if (k->name[0] == 'h') return !hsh_delete(p, s);
	if (IS("set") || IS("sstr") || IS("sptr")) return !set_delete(p, s);
	if (IS("skip")) { sl_delete(p, s); return 1; }
	if (IS("list")) return lst_pop(p) != NULL;
	if (IS("stack")) return stk_pop(p) != NULL;
	if (IS("objs")) { mem_free_object(p, objs[i]); return 1; }
	die("no removal from a %s", k->name); return 0;
}
static int has(struct kind *k, void *p, int i)
{
	char *s = key(i);
	mine = s;
	if (k->name[0] == 'h') return hsh_retrieve(p, s) == s;
	if (IS("set") || IS("sstr") || IS("sptr")) return set_member(p, s) != 0;
	if (IS("skip")) return sl_find(p, s) == s;
	if (IS("pool")) return str_pool_exists(p, s) != 0;
	if (IS("glob")) return str_exists(s) != 0;
	die("no lookup in a %s", k->name); return 0;
}
/* the j-th of n, upwards, downwards or scattered */
static int nth(int n, int j, int how) { return how == 0 ? j : how == 1 ? n - 1 - j : (int)((long long)j * 7919 % n); }
static long more;                       /* bytes kept by all rounds but the first ten */
static void begin(void) { more = vm_bytes; cmps = hashes = alien = 0; counting = 1; }
static void out(struct kind *k, const char *f, int m, int hit)
{
	counting = 0;
	ev("cost"); es("f", f); es("k", k->name); ei("m", m); ei("hit", hit); ei("cmps", cmps); ei("hashes", hashes); ei("alien", alien);
	ei("kb", k->p ? (vm_bytes - k->base) / 1024 : 0); ei("more", !__real_strcmp(f, "turn") || !__real_strcmp(f, "life") ? more / 1024 : 0); ee();
}
static void cunit(cmd_t *c) { U = ci(c,1); key(0); ev("cunit"); ei("u", U); ee(); }
static void cadd(cmd_t *c)
{
	struct kind *k = kd(c); int n = ci(c,2) * U, how = ci(c,3), j, hit = 0;
	key(0);
	if (!k->p) { k->base = vm_bytes; k->p = made(k); k->lo = k->hi = 0; }
	begin();
	for (j = 0; j < n; j++) hit += add(k, k->p, k->hi + nth(n, j, how));
	k->hi += n;
	out(k, "add", n, hit);
}
static void ccut(cmd_t *c)
{
	struct kind *k = kd(c); int n = ci(c,2) * U, how = ci(c,3), j, hit = 0;
	begin();
	for (j = 0; j < n; j++) hit += del(k, k->p, k->lo + nth(n, j, how));
	k->lo += n;
	out(k, "cut", n, hit);
}
/* everything that is there, and as many that are not */
static void cfind(cmd_t *c)
{
	struct kind *k = kd(c); int n = k->hi - k->lo, how = ci(c,2), j, hit = 0;
	begin();
	for (j = 0; j < n; j++) hit += has(k, k->p, k->lo + nth(n, j, how));
	for (j = 0; j < n; j++) hit += has(k, k->p, j < k->lo ? j : k->hi + nth(n, j, how));
	out(k, "find", n, hit);
}
/* one element comes and goes, again and again: at the front of a list too */
static void cturn(cmd_t *c)
{
	struct kind *k = kd(c); int m = ci(c,2) * U, how = ci(c,3), j, hit = 0;
	begin();
	for (j = 0; j < m; j++) {
		int i = k->hi + (how ? j % U : 0);
		if (j == 10) more = vm_bytes;
		if (IS("list") && how) { lst_push(k->p, key(i)); hit += lst_pop(k->p) == key(i); }
		else if (IS("list")) { lst_append(k->p, key(i)); lst_truncate(k->p, k->hi - k->lo); hit += lst_length(k->p) == (unsigned)(k->hi - k->lo); }
		else if (IS("pool") || IS("glob")) { if (k->hi > k->lo) hit += add(k, k->p, k->lo + j % (k->hi - k->lo)); else hit++; }
		else hit += add(k, k->p, i) && del(k, k->p, i);
	}
	more = vm_bytes - more;
	out(k, "turn", m, hit);
}
/* another object of the kind is made, filled a little and destroyed, again and again */
static void clife(cmd_t *c)
{
	struct kind *k = kd(c); int m = ci(c,2) * U, j, i, hit = 0; void *old = objs ? objs[0] : NULL, *o1 = objs ? objs[1] : NULL, *o2 = objs ? objs[2] : NULL;
	if (IS("glob")) die("there is one only");
	begin();
	for (j = 0; j < m; j++) { void *p; if (j == 10) more = vm_bytes; p = made(k); for (i = 0; i < 3; i++) hit += add(k, p, i); unmade(k, p); }
	more = vm_bytes - more;
	objs[0] = old; objs[1] = o1; objs[2] = o2;
	out(k, "life", m, hit);
}
/* the set with one whose elements are m units further up */
static void calg(cmd_t *c)
{
	struct kind *k = kd(c); int m = ci(c,3) * U, n = k->hi - k->lo, j, r; const char *f = cs(c,2); void *o = made(k); set_Set s = NULL;
	for (j = 0; j < n; j++) add(k, o, k->lo + m + j);
	begin(); mine = NULL;
	if (!__real_strcmp(f, "union")) s = set_union(k->p, o);
	else if (!__real_strcmp(f, "inter")) s = set_inter(k->p, o);
	else if (!__real_strcmp(f, "diff")) s = set_diff(k->p, o);
	else if (!__real_strcmp(f, "sadd")) { set_Set t = set_union(k->p, k->p); begin(); set_add(t, o); s = t; }
	else if (!__real_strcmp(f, "sdel")) { set_Set t = set_union(k->p, k->p); begin(); set_del(t, o); s = t; }
	counting = 0;
	if (s) { r = set_count(s); set_destroy(s); } else { counting = 1; r = set_equal(k->p, o) ? n : -1; }
	set_destroy(o);
	out(k, f, m, r);
}
static void cdrop(cmd_t *c)
{
	struct kind *k = kd(c);
	begin(); unmade(k, k->p); k->p = NULL; k->lo = k->hi = 0;
	out(k, "drop", 0, 0);
}
/* the same done again and again: what is kept, once it was done a few times? */
static int u1(const void *a) { return a == NULL; }
static int u2(const void *a, const void *b) { return a == NULL || b == NULL; }
static void cuse(cmd_t *c)
{
	const char *f = cs(c,1); int m = ci(c,2) * U, j, r = 0; long was = vm_bytes;
	hsh_HashTable t = hsh_create(NULL, NULL); set_Set s = set_create(NULL, NULL); lst_List l = lst_create(); str_Pool sp = str_pool_create(); sl_List y = sl_create(c_ord, kf, NULL);
	FILE *o = fopen("/dev/null", "w");
	key(0);
	for (j = 0; j < 9; j++) { hsh_insert(t, key(j), key(j)); set_insert(s, key(j)); lst_append(l, key(j)); str_pool_find(sp, key(j)); sl_insert(y, key(j)); }
#define F(x) else if (!__real_strcmp(f, #x))
	for (j = 0; j < m + 10; j++) {
		if (j == 10) was = vm_bytes;
		if (0) ;
		F(argify) { arg_List a = arg_argify("a 'b c' \"d\" e", 0); r += arg_count(a) == 4; arg_destroy(a); }
		F(argvec) { arg_List a = arg_create(); int n; char **v; arg_add(a, "x"); arg_grow(a, "y", 1); arg_finish(a); arg_get_vector(a, &n, &v); r += n == 2; arg_destroy(a); }
		F(timer) { tim_start("cost"); tim_stop("cost"); tim_reset("cost"); r += tim_get_real("cost") >= 0; }
		F(flags) { if (!j) dbg_register(1 << 4, "cost"); dbg_set("cost"); r += dbg_test(1 << 4) != 0; dbg_set("-cost"); }
		F(symbol) { prs_register_concrete("cost", "x"); r += prs_concrete("cost") != NULL; }
		F(source) { src_Type q; src_create(); src_line("abc\n", 4); src_advance(1); q = src_get(1); r += src_linenumber(q) == 1; src_destroy(); }
		F(stats) { hsh_Stats x = hsh_get_stats(t); set_Stats z = set_get_stats(s); str_Stats w = str_pool_get_stats(sp); r += x->entries == 9 && z->entries == 9 && w->count == 9; xfree(x); xfree(z); xfree(w); }
		F(print) { hsh_print_stats(t, o); set_print_stats(s, o); str_pool_print_stats(sp, o); r++; }
		F(walk) { hsh_iterate(t, u2); set_iterate(s, u1); lst_iterate(l, u1); sl_iterate(y, u1); r++; }
		F(loops) {
			hsh_Position p; set_Position q; lst_Position z; void *a, *b; int n = 0;
			HSH_ITERATE(t, p, a, b) n += a == b; HSH_ITERATE_END(t);
			SET_ITERATE(s, q, a) n++; SET_ITERATE_END(s);
			LST_ITERATE(l, z, a) n++;
			r += n == 27;
		}
		F(member) { lst_member(l, key(3)); lst_nth_set(l, 2, key(1)); lst_length(l); r += lst_nth_get(l, 2) == key(1); }
		F(truncate) { lst_append(l, key(20)); lst_truncate(l, 9); r += lst_length(l) == 9; }
		F(cutoff) { lst_append(l, key(20)); lst_append(l, key(21)); lst_append(l, key(22)); lst_truncate_position(l, lst_nth_position(l, 9)); r += lst_length(l) == 9; }
		F(emptied) { lst_List q = lst_create(); int i; for (i = 0; i < 5; i++) lst_push(q, key(i)); lst_truncate(q, 0); lst_append(q, key(1)); lst_truncate_position(q, NULL); lst_append(q, key(1)); r += lst_pop(q) == key(1); lst_destroy(q); }
		F(union) { set_Set x = set_union(s, s), z = set_inter(s, x), w = set_diff(s, x); r += set_count(x) == 9 && set_count(z) == 9 && set_count(w) == 0; set_destroy(x); set_destroy(z); set_destroy(w); }
		F(equal) r += set_equal(s, s);
		F(poolstr) { str_pool_find(sp, key(j % 9)); str_pool_exists(sp, key(30)); r++; }
		F(string) { mem_String q = mem_create_strings(); mem_grow(q, "abc", 3); mem_strcpy(q, "x"); mem_StringStats z = mem_get_string_stats(q); r++; xfree(z); mem_destroy_strings(q); }
		F(growth) { mem_String q = mem_create_strings(); int i; for (i = 0; i < 40; i++) mem_grow(q, arena, 200); r += strlen(mem_finish(q)) > 0; mem_destroy_strings(q); }
		F(message) { log_stream("cost", fopen("/dev/null", "w")); log_info("x%d\n", j); log_close(); r++; }
		F(number) { r += prm_next_prime(20) == 23 && b64_decode(b64_encode(77)) == 77 && b26_decode(b26_encode(77)) == 77; }
		F(soundex) { char b[8]; txt_soundex2("Robert", b); r += !__real_strcmp(b, "R163") && !__real_strcmp(txt_soundex("Rupert"), "R163"); }
		F(name) { err_set_program_name(j % 2 ? "drv" : "drv2"); r++; }
		F(memory) { void *x = xmalloc(100); x = xrealloc(x, 200); xfree(x); x = xcalloc(3, 5); xfree(x); x = xstrdup("abc"); xfree(x); r++; }
		else die("use of %s", f);
	}
	was = vm_bytes - was;
	err_set_program_name("drv");
	ev("cuse"); es("f", f); ei("m", m); ei("hit", r - 10); ei("kb", was / 1024); ee();
	hsh_destroy(t); set_destroy(s); lst_destroy(l); str_pool_destroy(sp); sl_destroy(y); fclose(o);
}
op_t ops_cost[] = { { "cunit", cunit }, { "cadd", cadd }, { "ccut", ccut }, { "cfind", cfind }, { "cturn", cturn }, { "clife", clife }, { "calg", calg }, { "cuse", cuse }, { "cdrop", cdrop }, { NULL, NULL } };

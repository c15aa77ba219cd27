/* lent.c -- what is handed to the library lies in memory that can only be
   read, ends at a page that cannot, and is gone when the caller takes it back */
#include "drv.h"
#include "wrap.h"
#include <sys/mman.h>
#undef free
#undef strdup
#define PG 4096
int lent_on;
static struct { char *p, *base; size_t size; } *L; static int nl, cl_;

static char *pages(const void *v, size_t n, int prot)
{
	size_t body = (n + PG - 1) / PG * PG;
	char *b = mmap(NULL, body + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (b == MAP_FAILED) die("mmap");
	if (v) memcpy(b + body - n, v, n);
	if (body) mprotect(b, body, prot);
	mprotect(b + body, PG, PROT_NONE);
	if (nl == cl_) L = realloc(L, (cl_ = cl_ ? 2 * cl_ : 64) * sizeof *L);
	L[nl].p = b + body - n; L[nl].base = b; L[nl++].size = body + PG;
	return b + body - n;
}
/* instead of free: 1 if it was lent */
static int back(void *p)
{
	int i;
	for (i = nl - 1; i >= 0; i--) if (L[i].p == p) { munmap(L[i].base, L[i].size); L[i] = L[--nl]; return 1; }
	return 0;
}
void lent_free(void *p) { if (!lent_on || !back(p)) free(p); }
char *lent_strdup(const char *s) { return lent_on ? pages(s, strlen(s) + 1, PROT_READ) : strdup(s); }
/* the n bytes at a heap block P, which is gone afterwards */
void *lent_seal(void *p, size_t n)
{
	char *r;
	if (!lent_on) return p;
	r = pages(p, n, PROT_READ);
	free(p);
	return r;
}
/* a text for this command only */
static char *once[64]; static int nonce;
const char *lent_text(const char *s) { return !lent_on || nonce == 64 ? s : (once[nonce++] = lent_strdup(s)); }
void lent_done(void) { while (nonce) lent_free(once[--nonce]); }
/* the caller has done with P: it may become anything */
void lent_spoil(void *p, size_t n) { if (!lent_on) { memset(p, '#', n); free(p); } else lent_free(p); }

static void lend(cmd_t *c) { (void)c; lent_on = 1; ev("lend"); ee(); }

/* ---- things given ---- */
#define NG 4096
struct g { char text[80]; void *given; const void *got; int x; };
static struct kind { const char *name; void *o; struct g *g; int n; } KD[] = {
	{ "strs" }, { "strn" }, { "pool" }, { "pooln" }, { "glob" }, { "globn" }, { "grown" }, { "arg" }, { "argn" }, { "argify" }, { "dflag" }, { "flag" }, { "timer" },
	{ "line" }, { "file" }, { "cpp" }, { "symbol" }, { "concrete" }, { "hash" }, { "hstr" }, { "set" }, { "sstr" }, { "skip" }, { "progname" },
	{ "hptr" }, { "hdatum" }, { "sptr" }, { "list" }, { "stack" }, { "skipd" }, { "sarg" }, { NULL } };
static struct kind *kind(const char *s)
{
	struct kind *k;
	for (k = KD; k->name; k++) if (!strcmp(k->name, s)) return k;
	die("kind %s", s); return NULL;
}
#define IS(x) (!strcmp(k->name, x))
static int seqno, lines_in;
static int text_cmp(const void *a, const void *b) { return strcmp(a, b); }
static int addr_cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static const void *whole(const void *d) { return d; }
static int same(const char *a, const char *b) { return a && !strcmp(a, b); }
static void *make(struct kind *k)
{
	if (IS("strs") || IS("strn")) return mem_create_strings();
	if (IS("pool") || IS("pooln")) return str_pool_create();
	if (IS("arg") || IS("argn")) return arg_create();
	if (IS("hash") || IS("hdatum")) return hsh_create(hsh_string_hash, hsh_string_compare);
	if (IS("hstr")) return hsh_create(NULL, NULL);
	if (IS("hptr")) return hsh_create(hsh_pointer_hash, hsh_pointer_compare);
	if (IS("set")) return set_create(hsh_string_hash, hsh_string_compare);
	if (IS("sstr")) return set_create(NULL, NULL);
	if (IS("sptr")) return set_create(hsh_pointer_hash, hsh_pointer_compare);
	if (IS("skip")) return sl_create(text_cmp, whole, NULL);
	if (IS("skipd")) return sl_create(addr_cmp, whole, NULL);
	if (IS("list") || IS("sarg")) return lst_create();
	if (IS("stack")) return stk_create();
	return NULL;
}
static void unmake(struct kind *k)
{
	void *p = k->o;
	if (!p) return;
	if (IS("strs") || IS("strn")) mem_destroy_strings(p);
	else if (IS("pool") || IS("pooln")) str_pool_destroy(p);
	else if (IS("arg") || IS("argn")) arg_destroy(p);
	else if (k->name[0] == 'h') hsh_destroy(p);
	else if (IS("set") || IS("sstr") || IS("sptr")) set_destroy(p);
	else if (k->name[0] == 's' && k->name[1] == 'k') sl_destroy(p);
	else if (IS("list") || IS("sarg")) lst_destroy(p);
	else if (IS("stack")) stk_destroy(p);
	k->o = NULL;
}
static int copied(struct kind *k) { return k < kind("hash"); }
static int address(struct kind *k) { return k >= kind("hptr"); }
static void lgive(cmd_t *c)
{
	struct kind *k = kind(cs(c,1));
	struct g *g; char *s; const char *t = NULL; int n, r = 1;

	if (!k->g) k->g = calloc(NG, sizeof *k->g);
	if (!k->o) k->o = make(k);
	if (k->n == NG) die("too many");
	g = &k->g[k->n];
	sprintf(g->text, "%c%s%d", "tzq"[seqno % 3], k->name, seqno); seqno++;
	n = strlen(g->text);
	if (address(k)) s = pages(NULL, 1 + seqno % 40, PROT_NONE);
	else if (IS("argify")) { sprintf(g->text, "a%d 'b c' \"d\"\t\\e%d", seqno, seqno); s = pages(g->text, strlen(g->text) + 1, PROT_READ); }
	else if (IS("file")) { sprintf(g->text, "dir/%d.c", seqno); s = pages(g->text, strlen(g->text) + 1, PROT_READ); }
	else if (IS("cpp")) { char b[80]; sprintf(g->text, "f%d.h", seqno); sprintf(b, "# %d \"%s\" 1\n", seqno, g->text); n = strlen(b); s = pages(b, n, PROT_READ); }
	else if (IS("line")) { sprintf(g->text, "int\tx%d;\n", seqno); n = strlen(g->text); s = pages(g->text, n, PROT_READ); }
	else if (IS("strn") || IS("pooln") || IS("globn") || IS("argn") || IS("grown")) s = pages(g->text, n, PROT_READ);
	else if (IS("progname")) { sprintf(g->text, "/bin/p%d", seqno); s = pages(g->text, strlen(g->text) + 1, PROT_READ); }
	else s = pages(g->text, n + 1, PROT_READ);
	g->given = s; g->got = NULL; g->x = 0;
	if (IS("strs")) g->got = mem_strcpy(k->o, s);
	else if (IS("strn")) g->got = mem_strncpy(k->o, s, n);
	else if (IS("pool")) g->got = str_pool_find(k->o, s);
	else if (IS("pooln")) g->got = str_pool_copyn(k->o, s, n);
	else if (IS("glob")) g->got = str_find(s);
	else if (IS("globn")) g->got = str_findn(s, n);
	else if (IS("grown")) { str_grow(s, n); g->got = str_finish(); }
	else if (IS("arg")) arg_add(k->o, s);
	else if (IS("argn")) arg_addn(k->o, s, n);
	else if (IS("argify")) { arg_List l = arg_argify(s, 0); int a; char **v; arg_get_vector(l, &a, &v); r = a == 4 && same(v[1], "b c") && !v[4]; g->got = l; }
	else if (IS("dflag") || IS("flag")) {
		static unsigned long next[2]; int w = IS("flag");
		g->x = next[w]++ % 24;
		if (next[w] > 24) die("flags");
		if (w) flg_register(1UL << g->x, s); else dbg_register(1UL << g->x, s);
	}
	else if (IS("timer")) tim_start(s);
	else if (IS("line")) { src_line(s, n); g->x = ++lines_in; g->got = src_get(1); }
	else if (IS("file")) { src_new_file(s); if (!lines_in++) src_line("x\n", 2); g->got = src_get(1); }
	else if (IS("cpp")) { src_cpp_line(s, n); lines_in++; src_line("y\n", 2); g->got = src_get(1); }
	else if (IS("symbol")) prs_register_concrete(s, "concrete text");
	else if (IS("concrete")) prs_register_concrete(g->text, s);
	else if (IS("hash") || IS("hstr") || IS("hptr")) hsh_insert(k->o, s, g);
	else if (IS("hdatum")) hsh_insert(k->o, g->text, s);
	else if (IS("set") || IS("sstr") || IS("sptr")) set_insert(k->o, s);
	else if (IS("skip") || IS("skipd")) sl_insert(k->o, s);
	else if (IS("list") || IS("sarg")) { if (seqno & 1) lst_append(k->o, s); else lst_push(k->o, s); }
	else if (IS("stack")) stk_push(k->o, s);
	else if (IS("progname")) err_set_program_name(s);
	else die("give %s", k->name);
	(void)t;
	if (copied(k)) { back(s); g->given = NULL; }
	k->n++;
	ev("lgive"); es("k", k->name); ei("r", r); ee();
}
static struct kind *walking; static int met;
static int mark(const void *p)
{
	int i;
	for (i = 0; i < walking->n; i++) if (walking->g[i].given == p) { if (!walking->g[i].x++) met++; return 0; }
	met = -1000000;
	return 0;
}
static int mark1(const void *p, void *arg) { if (arg != walking) met = -1000000; return mark(p); }
static int mark2(const void *p, const void *d) { (void)d; return mark(p); }
static int markd(const void *p, const void *d) { (void)p; return mark(d); }
static void luse(cmd_t *c)
{
	struct kind *k = kind(cs(c,1)); int i, good = 0, a; char **v;
	walking = k; met = 0;
	if (!IS("dflag") && !IS("flag") && k->g) for (i = 0; i < k->n; i++) k->g[i].x = 0;
	for (i = 0; i < k->n; i++) {
		struct g *g = &k->g[i]; const char *t = NULL;
		if (IS("arg") || IS("argn")) { arg_get_vector(k->o, &a, &v); t = a == k->n ? v[i] : NULL; good += same(t, g->text) && same(arg_get(k->o, i), g->text); }
		else if (IS("argify")) {
			char x[4][40]; int j, ok = 1;
			sscanf(g->text, "%39s", x[0]); strcpy(x[1], "b c"); strcpy(x[2], "d"); sprintf(x[3], "e%s", strrchr(g->text, 'e') + 1);
			arg_get_vector((arg_List)g->got, &a, &v);
			for (j = 0; j < 4; j++) ok = ok && a == 4 && same(v[j], x[j]);
			good += ok;
		}
		else if (IS("dflag")) { dbg_set(g->text); t = dbg_test(1UL << g->x) ? "" : NULL; dbg_unset_flag(1UL << g->x); good += t && !dbg_test(1UL << g->x); }
		else if (IS("flag")) { flg_set(g->text); good += flg_test(1UL << g->x) && same(flg_name(1UL << g->x), g->text); }
		else if (IS("timer")) { tim_stop(g->text); tim_reset(g->text); good += tim_get_real(g->text) == 0; tim_start(g->text); }
		else if (IS("line")) { char *q = strdup(g->text), *p = strchr(q, '\t'); *p = ' '; good += same(src_source_line((src_Type)g->got), q); free(q); }
		else if (IS("file") || IS("cpp")) good += same(src_filename((src_Type)g->got), g->text);
		else if (IS("symbol")) good += same(prs_concrete(g->text), "concrete text");
		else if (IS("concrete")) good += same(prs_concrete(g->text), g->text);
		else if (IS("hash") || IS("hstr") || IS("hptr")) good += hsh_retrieve(k->o, g->given) == g;
		else if (IS("hdatum")) good += hsh_retrieve(k->o, g->text) == g->given;
		else if (IS("set") || IS("sstr") || IS("sptr")) good += set_member(k->o, g->given) == 1;
		else if (IS("skip")) good += sl_find(k->o, g->text) == g->given;
		else if (IS("skipd")) good += sl_find(k->o, g->given) == g->given;
		else if (IS("list") || IS("sarg")) good += lst_member(k->o, g->given) == 1;
		else if (IS("progname")) good += i < k->n - 1 || same(err_program_name(), g->text + 5);
		else if (!IS("stack")) good += same(g->got, g->text);
	}
	/* and in a walk */
	if (IS("hash") || IS("hstr") || IS("hptr")) { hsh_iterate(k->o, mark2); good = met == k->n ? good : -1; }
	else if (IS("hdatum")) { hsh_iterate(k->o, markd); good = met == k->n ? good : -1; }
	else if (IS("set") || IS("sstr") || IS("sptr")) { set_Set s = set_union(k->o, k->o); set_iterate(s, mark); good = met == k->n && set_equal(s, k->o) ? good : -1; set_destroy(s); }
	else if (IS("skip") || IS("skipd")) { sl_iterate(k->o, mark); good = met == k->n ? good : -1; }
	else if (IS("list")) { lst_List b = lst_create(); lst_append(b, lst_top(k->o)); lst_iterate(k->o, mark); good = met == k->n && lst_nth_get(k->o, 1) == lst_top(k->o) ? good : -1; lst_destroy(b); }
	else if (IS("sarg")) { lst_iterate_arg(k->o, mark1, k); good = met == k->n ? good : -1; }
	else if (IS("stack")) {
		void *t[NG];
		for (i = 0; i < k->n; i++) if ((t[i] = stk_pop(k->o)) == k->g[k->n - 1 - i].given) good++;
		for (i = k->n - 1; i >= 0; i--) stk_push(k->o, t[i]);
	}
	ev("luse"); es("k", k->name); ei("n", k->n); ei("good", good); ee();
}
static void ldrop(cmd_t *c)
{
	struct kind *k = kind(cs(c,1)); int i;
	if (IS("progname")) err_set_program_name(NULL);
	if (IS("argify")) for (i = 0; i < k->n; i++) arg_destroy((arg_List)k->g[i].got);
	unmake(k);
	for (i = 0; i < k->n; i++) if (k->g[i].given) back(k->g[i].given);
	k->n = 0;
	ev("ldrop"); es("k", k->name); ee();
}

/* ---- functions that only read ---- */
#define RO(x) lent_text(x)
static const char *out_of(FILE *f, char **b) { fclose(f); return *b; }
static int upto(const void *e, void *arg) { (void)e; (void)arg; return 0; }
static void lread(cmd_t *c)
{
	const char *f = cs(c,1); int r = 0, was = lent_on, n; char *b = NULL; size_t z; FILE *m;
	lent_on = 1;
#define F(x) else if (!strcmp(f, x))
	if (!strcmp(f, "soundex")) r = same(txt_soundex(RO("Robert")), "R163") && same(txt_soundex(RO("")), "Z000");
	F("b26") r = b26_decode(RO(b26_encode(123456))) == 123456;
	F("b64") r = b64_decode(RO(b64_encode(123456))) == 123456 && b64_decode_buf(pages("abcd", 4, PROT_READ), 4) == b64_decode("abcd");
	F("hashes") r = hsh_string_hash(RO("a key")) == hsh_string_hash("a key") && hsh_string_hash(RO("a key")) == hsh_string_hash("a key") && !hsh_string_compare(RO("x"), "x") && hsh_string_compare(RO("x"), "y");
	F("dbgset") { static int once1; if (!once1++) dbg_register(1UL << 28, RO("vflag")); dbg_set(RO("vflag")); r = dbg_test(1UL << 28) != 0; dbg_set(RO("-vflag")); r = r && !dbg_test(1UL << 28); dbg_set(RO("none")); }
	F("flgset") { static int once2; if (!once2++) flg_register(1UL << 27, RO("wflag")); flg_set(RO("wflag")); r = flg_test(1UL << 27) != 0; flg_set(RO("-wflag")); r = r && !flg_test(1UL << 27); }
	F("loginfo") { m = open_memstream(&b, &z); log_option(2); log_stream(RO("id"), m); log_info(RO("%s-%d\n"), RO("text"), 7); r = same(b, "text-7\n\n"); log_stream(NULL, NULL); }
	F("logerror") { m = open_memstream(&b, &z); log_option(2); log_stream(RO("id"), m); log_error(RO("routine"), RO("%s-%d"), RO("text"), 7); r = same(b, "(routine) text-7\n"); log_stream(NULL, NULL); }
	F("warning") { int fd = dup(2), p[2]; char t[256]; fflush(stderr); if (pipe(p)) die("pipe"); dup2(p[1], 2); err_warning(RO("rout"), RO("%s!%c"), RO("w"), 'x'); fflush(stderr); dup2(fd, 2); close(p[1]); close(fd);
		n = read(p[0], t, 255); t[n > 0 ? n : 0] = 0; close(p[0]); r = strstr(t, "w!x\n") != NULL && strstr(t, "rout") != NULL; }
	F("srcerror") { src_line("abc\n", 4); lines_in++; m = open_memstream(&b, &z); src_print_error(m, src_get(2), RO("bad %s"), RO("thing")); r = strstr(out_of(m, &b), "bad thing\n") != NULL; }
	F("srcmsg") { src_line("abc\n", 4); lines_in++; m = open_memstream(&b, &z); src_print_message(m, src_get(2), RO("note %s"), RO("thing")); r = strstr(out_of(m, &b), "note thing\n") != NULL; }
	F("parse") { prs_register_concrete(RO("T_SEMI"), RO(";")); src_line("abc\n", 4); lines_in++; m = open_memstream(&b, &z); src_parse_error(m, src_get(2), RO("parse error, expecting `T_SEMI' or ``x''")); r = strstr(out_of(m, &b), "expecting `;' or `x'\n") != NULL; }
	F("cppline") { const char *s = "# 12 \"a b.h\" 1 3"; src_cpp_line(pages(s, strlen(s), PROT_READ), strlen(s)); src_line("z\n", 2); lines_in++; r = src_linenumber(src_get(1)) == 12; }
	F("exists") { str_find("there"); r = str_exists(RO("there")) && !str_exists(RO("not there")) && same(str_unique(RO("pre")), b = strdup(str_unique("pre"))) == 0; }
	F("argify") { arg_List l = arg_argify(RO("one 'two three' \\four \"fi've\""), 0); r = arg_count(l) == 4 && same(arg_get(l, 3), "fi've") && same(arg_get(l, 2), "four"); arg_destroy(l); }
	F("argquote") { arg_List l = arg_argify(RO("a\\b 'c d'"), ARG_NO_ESCAPE | ARG_NO_QUOTE); r = arg_count(l) == 3 && same(arg_get(l, 0), "a\\b") && same(arg_get(l, 1), "'c"); arg_destroy(l); }
	F("spawn") r = pr_spawn(RO("  /bin/sh -c 'exit 3' \t ")) == 3;
	F("filter") { char o[16]; n = pr_filter(RO("/bin/cat  "), pages("pass", 4, PROT_READ), 4, o, 16); r = n == 4 && !memcmp(o, "pass", 4); }
	F("concrete") { prs_register_concrete(RO("T_Y"), RO("why")); r = same(prs_concrete(RO("T_Y")), "why") && !prs_concrete(RO("T_NONE")); }
	F("retrieve") { hsh_HashTable t = hsh_create(NULL, NULL); hsh_insert(t, "key", "v"); r = same(hsh_retrieve(t, RO("key")), "v") && !hsh_retrieve(t, RO("kez")) && !hsh_delete(t, RO("key")) && hsh_delete(t, RO("key")); hsh_destroy(t); }
	F("member") { set_Set t = set_create(NULL, NULL); set_insert(t, "key"); r = set_member(t, RO("key")) && !set_member(t, RO("kez")) && !set_delete(t, RO("key")); set_destroy(t); }
	F("find") { sl_List t = sl_create(text_cmp, whole, NULL); sl_insert(t, "key"); r = same(sl_find(t, RO("key")), "key") && !sl_find(t, RO("kez")); sl_delete(t, RO("key")); r = r && !sl_find(t, RO("key")); sl_destroy(t); }
	F("facility") { log_set_facility(RO("local3")); r = same(log_get_facility(), "local3"); }
	F("timers") { tim_start(RO("zz")); tim_stop(RO("zz")); m = open_memstream(&b, &z); tim_print_timer(m, RO("zz")); tim_reset(RO("zz")); r = strncmp(out_of(m, &b), "zz ", 3) == 0 && tim_get_user(RO("zz")) == 0; }
	F("bits") { unsigned long w = 5, *q = (unsigned long *)pages(&w, sizeof w, PROT_READ); r = bit_tst(q, 0) && !bit_tst(q, 1) && bit_cnt(q) == 2; }
	else die("reader %s", f);
	free(b); (void)upto;
	lent_done();
	lent_on = was;
	ev("lread"); es("f", f); ei("r", r); ee();
}
op_t ops_lent[] = { { "lend", lend }, { "lgive", lgive }, { "luse", luse }, { "ldrop", ldrop }, { "lread", lread }, { NULL, NULL } };

/* mem.c -- object and string memory, string pools, argument lists */
#include "drv.h"
#include "wrap.h"

/* run-length coded byte strings: "97x3,98x1", "-" is empty; the buffer is
   exactly as long as the data (plus a NUL if asked) so that ASan sees any
   byte read beyond */
static char *crle(cmd_t *c, int i, int *len, int nul)
{
	const char *s = cs(c, i), *p;
	long n = 0; int b, k; char *r, *q;
	if (*s != '-') for (p = s; p && *p; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL) {
		if (sscanf(p, "%dx%d", &b, &k) != 2) die("rle %s", s);
		n += k;
	}
	q = r = malloc(n + (nul ? 1 : 0));
	if (*s != '-') for (p = s; p && *p; p = strchr(p, ',') ? strchr(p, ',') + 1 : NULL) {
		sscanf(p, "%dx%d", &b, &k);
		memset(q, b, k); q += k;
	}
	if (nul) r[n] = 0;
	*len = n;
	return lent_seal(r, n + !!nul);
}
static void erle(const char *k, const char *v, int len)
{
	int i, j;
	if (k) ea(k); else eaa();
	for (i = 0; i < len; i = j) {
		for (j = i; j < len && v[j] == v[i]; j++);
		eaa(); eai((unsigned char)v[i]); eai(j - i); eaend();
	}
	eaclose();
}

/* ---- object memory ---- */
#define NOM 16
typedef struct { char *p; int id, use; } obj_t;
static struct { mem_Object m; int size; obj_t *o; int n, cap; } OM[NOM];
static int nobj;

static void onew(cmd_t *c)
{
	int t = ci(c,1);
	OM[t].m = mem_create_objects(OM[t].size = ci(c,2)); OM[t].n = 0;
	ev("onew"); ei("t", t); ei("size", OM[t].size); ee();
}
static void odel(cmd_t *c) { mem_destroy_objects(OM[ci(c,1)].m); OM[ci(c,1)].n = 0; ev("odel"); ei("t", ci(c,1)); ee(); }
/* all bytes equal: that byte; else -1 */
static int uniform(const char *p, int n)
{
	int i;
	for (i = 1; i < n; i++) if (p[i] != p[0]) return -1;
	return (unsigned char)p[0];
}
/* oget T EMPTY */
static void oget(cmd_t *c)
{
	int t = ci(c,1), i, u, id = -1, over = 0;
	char *p = ci(c,2) ? mem_get_empty_object(OM[t].m) : mem_get_object(OM[t].m);
	ev("oget"); ei("t", t); ei("z", ci(c,2)); ei("val", ci(c,2) ? uniform(p, OM[t].size) : -1);
	for (u = 0; u < NOM; u++)
		for (i = 0; i < OM[u].n; i++) {
			obj_t *o = &OM[u].o[i];
			if (o->p == p && u == t) { id = o->id; o->use++; }
			else if (p < o->p + OM[u].size && o->p < p + OM[t].size) over++;
		}
	if (id < 0) {
		if (OM[t].n == OM[t].cap) OM[t].o = realloc(OM[t].o, (OM[t].cap = 2 * OM[t].cap + 8) * sizeof(obj_t));
		OM[t].o[OM[t].n].p = p; OM[t].o[OM[t].n].use = 1;
		id = OM[t].o[OM[t].n++].id = ++nobj;
	}
	ei("id", id); ei("over", over); ee();
}
/* the N-th object in use of T: the scripts do not name objects by identity,
   which only the run decides */
static obj_t *onth(int t, int n)
{
	int i, k = 0;
	for (i = 0; i < OM[t].n; i++) if (OM[t].o[i].use) k++;
	if (!k) return NULL;
	n %= k;
	for (i = 0; i < OM[t].n; i++) if (OM[t].o[i].use && !n--) return &OM[t].o[i];
	return NULL;
}
static void ofree(cmd_t *c)
{
	obj_t *o = onth(ci(c,1), ci(c,2));
	if (!o) return;
	o->use--;
	mem_free_object(OM[ci(c,1)].m, o->p);
	ev("ofree"); ei("t", ci(c,1)); ei("id", o->id); ee();
}
static void ofill(cmd_t *c)
{
	obj_t *o = onth(ci(c,1), ci(c,2));
	if (!o) return;
	memset(o->p, ci(c,3), OM[ci(c,1)].size);
	ev("ofill"); ei("t", ci(c,1)); ei("id", o->id); ei("v", ci(c,3)); ee();
}
static void ochk(cmd_t *c)
{
	int t = ci(c,1), i;
	ev("ochk"); ei("t", t);
	ea("ids"); for (i = 0; i < OM[t].n; i++) if (OM[t].o[i].use) eai(OM[t].o[i].id); eaclose();
	ea("val"); for (i = 0; i < OM[t].n; i++) if (OM[t].o[i].use) eai(uniform(OM[t].o[i].p, OM[t].size)); eaclose();
	ee();
}
static void postat(void *o, FILE *f) { mem_print_object_stats(o, f); }
static void ostat(cmd_t *c)
{
	mem_ObjectStats s = mem_get_object_stats(OM[ci(c,1)].m);
	ev("ostat"); ei("t", ci(c,1)); ei("total", s->total); ei("used", s->used); ei("reused", s->reused); ei("size", s->size);
	eprinted("p", postat, OM[ci(c,1)].m, ci(c,2)); ee();
	xfree(s);
}

/* ---- string memory ---- */
#define NSM 16
typedef struct { const char *p; int len, id; } str_t;
static struct { mem_String m; str_t *s; int n, cap, grow; } SM[NSM];
static int nstr;

static void mnew(cmd_t *c) { SM[ci(c,1)].m = mem_create_strings(); SM[ci(c,1)].n = SM[ci(c,1)].grow = 0; ev("mnew"); ei("t", ci(c,1)); ee(); }
static void mdel(cmd_t *c) { mem_destroy_strings(SM[ci(c,1)].m); SM[ci(c,1)].n = 0; ev("mdel"); ei("t", ci(c,1)); ee(); }
static int mreg(int t, const char *p, int len)
{
	int i;
	for (i = 0; i < SM[t].n; i++) if (SM[t].s[i].p == p) return SM[t].s[i].id;
	if (SM[t].n == SM[t].cap) SM[t].s = realloc(SM[t].s, (SM[t].cap = 2 * SM[t].cap + 8) * sizeof(str_t));
	SM[t].s[SM[t].n].p = p; SM[t].s[SM[t].n].len = len;
	return SM[t].s[SM[t].n++].id = ++nstr;
}
/* mput T N BYTES: N = 1 by length */
static void mput(cmd_t *c)
{
	int t = ci(c,1), len; char *b = crle(c, 3, &len, !ci(c,2));
	const char *r = ci(c,2) ? mem_strncpy(SM[t].m, b, len) : mem_strcpy(SM[t].m, b);
	ev("mput"); ei("t", t); ei("n", ci(c,2)); erle("in", b, len); ei("id", mreg(t, r, len)); erle("out", r, len + 1); ee();
	free(b);
}
static void mgrow(cmd_t *c)
{
	int t = ci(c,1), len; char *b = crle(c, 2, &len, 0);
	mem_grow(SM[t].m, b, len);
	SM[t].grow += len;
	ev("mgrow"); ei("t", t); erle("in", b, len); ee();
	free(b);
}
static void mfin(cmd_t *c)
{
	int t = ci(c,1), len = SM[t].grow;
	const char *r = mem_finish(SM[t].m);
	SM[t].grow = 0;
	ev("mfin"); ei("t", t); ei("id", mreg(t, r, len)); erle("out", r, len + 1); ee();
}
static void mchk(cmd_t *c)
{
	int t = ci(c,1), i;
	ev("mchk"); ei("t", t);
	ea("ids"); for (i = 0; i < SM[t].n; i++) eai(SM[t].s[i].id); eaclose();
	ea("val"); for (i = 0; i < SM[t].n; i++) erle(NULL, SM[t].s[i].p, SM[t].s[i].len + 1); eaclose();
	ee();
}
static void pmstat(void *o, FILE *f) { mem_print_string_stats(o, f); }
static void mstat(cmd_t *c)
{
	mem_StringStats s = mem_get_string_stats(SM[ci(c,1)].m);
	ev("mstat"); ei("t", ci(c,1)); ei("count", s->count); ei("bytes", s->bytes);
	eprinted("p", pmstat, SM[ci(c,1)].m, ci(c,2)); ee();
	xfree(s);
}

/* ---- string pools; pool 99 is the global one ---- */
#define GLOBAL 99
static str_Pool P[100];
static struct ptr { const char *p; int id, pool; } *PT; static int npt, cpt, ptid;

static int preg(int pool, const char *p)
{
	int i;
	for (i = 0; i < npt; i++) if (PT[i].p == p) return PT[i].id;
	if (npt == cpt) PT = realloc(PT, (cpt = 2 * cpt + 64) * sizeof *PT);
	PT[npt].p = p; PT[npt].pool = pool;
	return PT[npt++].id = ++ptid;
}
void pforget(int pool)
{
	int i, j = 0;
	for (i = 0; i < npt; i++) if (PT[i].pool != pool) PT[j++] = PT[i];
	npt = j;
}
static void pnew(cmd_t *c) { P[ci(c,1)] = str_pool_create(); ev("pnew"); ei("t", ci(c,1)); ee(); }
void pforget_global(void) { pforget(GLOBAL); }
static void pdel(cmd_t *c)
{
	int t = ci(c,1);
	if (t == GLOBAL) str_destroy(); else str_pool_destroy(P[t]);
	pforget(t);
	ev("pdel"); ei("t", t); ee();
}
static void pev(const char *op, int t, const char *s, int len, const char *r, int rlen)
{
	ev(op); ei("t", t); ehex("s", s, len); ei("id", r ? preg(t, r) : 0); ehex("out", r ? r : "", r ? (rlen < 0 ? (int)strlen(r) : rlen) : 0); ee();
}
static void pfind(cmd_t *c)
{
	int t = ci(c,1), n; char *s = cb(c, 2, &n, 1);
	const char *r = t == GLOBAL ? str_find(s) : str_pool_find(P[t], s);
	pev("pfind", t, s, n, r, -1); free(s);
}
/* pfindn BYTES LEN [NUL]: global only */
static void pfindn(cmd_t *c)
{
	int n, len; char *s = cb(c, 1, &n, ci(c,3)); const char *r;
	len = ci(c,2);
	r = str_findn(s, len);
	pev("pfind", GLOBAL, s, len < n ? len : n, r, -1); free(s);
}
static void pex(cmd_t *c)
{
	int t = ci(c,1), n; char *s = cb(c, 2, &n, 1);
	int r = t == GLOBAL ? str_exists(s) : str_pool_exists(P[t], s);
	ev("pex"); ei("t", t); ehex("s", s, n); ei("r", r != 0); ee(); free(s);
}
static void pcopy(cmd_t *c)
{
	int t = ci(c,1), n; char *s = cb(c, 2, &n, 1);
	const char *r = t == GLOBAL ? str_copy(s) : str_pool_copy(P[t], s);
	pev("pcopy", t, s, n, r, n + 1); free(s);
}
static void pcopyn(cmd_t *c)
{
	int t = ci(c,1), n; char *s = cb(c, 2, &n, 0);
	const char *r = t == GLOBAL ? str_copyn(s, n) : str_pool_copyn(P[t], s, n);
	pev("pcopy", t, s, n, r, n + 1); free(s);
}
static void pgrow(cmd_t *c)
{
	int t = ci(c,1), n; char *s = cb(c, 2, &n, 0);
	if (t == GLOBAL) str_grow(s, n); else str_pool_grow(P[t], s, n);
	ev("pgrow"); ei("t", t); ehex("s", s, n); ee(); free(s);
}
static void pfin(cmd_t *c)
{
	int t = ci(c,1);
	const char *r = t == GLOBAL ? str_finish() : str_pool_finish(P[t]);
	ev("pfin"); ei("t", t); ei("id", preg(t, r)); ehex("out", r, strlen(r)); ee();
}
static void puniq(cmd_t *c)
{
	int n; char *s = cb(c, 1, &n, 1);
	const char *r = str_unique(s);
	pev("puniq", GLOBAL, s, n, r, -1); free(s);
}
static struct { int n, stop, *id, cap; int pool; } PI;
static int pitf(const char *s)
{
	if (PI.n == PI.cap) PI.id = realloc(PI.id, (PI.cap = 2 * PI.cap + 64) * sizeof(int));
	PI.id[PI.n++] = preg(PI.pool, s);
	return PI.n == PI.stop ? (PI.stop % 2 ? 3 : -1) : 0;
}
static int pitfa(const char *s, void *arg) { if (arg != &PI) wrong("arg"); return pitf(s); }
/* pit T MODE STOP: 0 callback, 1 with argument, 2 positions to the end, 3 positions, ended early */
static void pit(cmd_t *c)
{
	int t = ci(c,1), r = 0, i; 
	PI.n = 0; PI.stop = ci(c,3); PI.pool = t;
	if (ci(c,2) == 0) r = str_pool_iterate(P[t], pitf);
	else if (ci(c,2) == 1) r = str_pool_iterate_arg(P[t], pitfa, &PI);
	else {
		str_Position p; const char *s;
		if (ci(c,2) == 2) PI.stop = 0;
		STR_ITERATE (P[t], p, s) {
			if (pitf(s)) { STR_ITERATE_END(P[t]); r = 1; break; }
			if (PI.n > 100000) wrong("endless");
		}
	}
	ev("pit"); ei("t", t); ei("stop", PI.stop); ei("r", r != 0); ea("ids"); for (i = 0; i < PI.n; i++) eai(PI.id[i]); eaclose(); ee();
}
static void pro(cmd_t *c)
{
	int r = str_pool_readonly(P[ci(c,1)], truth(ci(c,2)));
	ev("pro"); ei("t", ci(c,1)); ei("f", ci(c,2)); ei("r", !!r); ee();
}
static void ppstat(void *o, FILE *f) { if (o) str_pool_print_stats(o, f); else str_print_stats(f); }
static void pstat(cmd_t *c)
{
	int t = ci(c,1);
	str_Stats s = t == GLOBAL ? str_get_stats() : str_pool_get_stats(P[t]);
	ev("pstat"); ei("t", t); ei("count", s->count); ei("bytes", s->bytes); ei("retr", s->retrievals); ei("hits", s->hits); ei("misses", s->misses);
	eprinted("p", ppstat, t == GLOBAL ? NULL : P[t], ci(c,2)); ee();
	xfree(s);
}
/* every pointer ever returned, with what it holds now */
static void pchk(cmd_t *c)
{
	int t = ci(c,1), i;
	ev("pchk"); ei("t", t);
	ea("ids"); for (i = 0; i < npt; i++) if (PT[i].pool == t) eai(PT[i].id); eaclose();
	ea("val"); 
	for (i = 0; i < npt; i++) if (PT[i].pool == t) {
		int n = strlen(PT[i].p), j; char *b = malloc(2 * n + 1);
		for (j = 0; j < n; j++) sprintf(b + 2 * j, "%02x", (unsigned char)PT[i].p[j]);
		b[2 * n] = 0; eas(b); free(b);
	}
	eaclose(); ee();
}

/* ---- argument lists ---- */
static struct { arg_List a; int len[20000], n, grow; } A[16];
static void anew(cmd_t *c) { A[ci(c,1)].a = arg_create(); A[ci(c,1)].n = A[ci(c,1)].grow = 0; ev("anew"); ei("t", ci(c,1)); ee(); }
static void adel(cmd_t *c) { arg_destroy(A[ci(c,1)].a); ev("adel"); ei("t", ci(c,1)); ee(); }
/* aadd T N BYTES */
static void aadd(cmd_t *c)
{
	int t = ci(c,1), n; char *s = cb(c, 3, &n, !ci(c,2));
	arg_List r = ci(c,2) ? arg_addn(A[t].a, s, n) : arg_add(A[t].a, s);
	A[t].len[A[t].n++] = n;
	ev("aadd"); ei("t", t); ehex("s", s, n); ei("same", r == A[t].a); ee(); free(s);
}
static void agrow(cmd_t *c)
{
	int t = ci(c,1), n; char *s = cb(c, 2, &n, 0);
	arg_grow(A[t].a, s, n); A[t].grow += n;
	ev("agrow"); ei("t", t); ehex("s", s, n); ee(); free(s);
}
static void afin(cmd_t *c)
{
	int t = ci(c,1);
	arg_List r = arg_finish(A[t].a);
	A[t].len[A[t].n++] = A[t].grow; A[t].grow = 0;
	ev("afin"); ei("t", t); ei("same", r == A[t].a); ee();
}
static void acnt(cmd_t *c) { ev("acnt"); ei("t", ci(c,1)); ei("r", arg_count(A[ci(c,1)].a)); ee(); }
static void aget(cmd_t *c)
{
	int t = ci(c,1), n = ci(c,2);
	const char *r = arg_get(A[t].a, n);
	ev("aget"); ei("t", t); ei("n", n); ehex("out", r, (n < A[t].n && n >= 0 ? A[t].len[n] : (int)strlen(r)) + 1); ee();
}
static void avec(cmd_t *c)
{
	int t = ci(c,1), n = -1, i; char **v = NULL;
	arg_get_vector(A[t].a, &n, &v);
	ev("avec"); ei("t", t); ei("n", n); ea("items");
	for (i = 0; i < n; i++) {
		int j, l = (i < A[t].n ? A[t].len[i] : (int)strlen(v[i])) + 1; char *b = malloc(2 * l + 1);
		for (j = 0; j < l; j++) sprintf(b + 2 * j, "%02x", (unsigned char)v[i][j]);
		eas(b); free(b);
	}
	eaclose(); ei("end", v[n] == NULL); ee();
}
static int qstyle(int s) { return (s & 1 ? ARG_NO_ESCAPE : 0) | (s & 2 ? ARG_NO_QUOTE : 0); }
/* argify STYLE BYTES */
static void argify(cmd_t *c)
{
	int n, i, k = -1; char *s = cb(c, 2, &n, 1), **v = NULL;
	arg_List a = arg_argify(s, qstyle(ci(c,1)));
	arg_get_vector(a, &k, &v);
	ev("argify"); ei("style", ci(c,1)); ebytes("s", s, n); ei("n", arg_count(a)); ea("w");
	for (i = 0; i < k; i++) eab(v[i], strlen(v[i]));
	eaclose(); ei("end", v[k] == NULL); ee();
	arg_destroy(a); free(s);
}
/* argall STYLE ALPHABET LEN: all strings of that length over the alphabet */
static void argall(cmd_t *c)
{
	int m, len = ci(c,3), i, tot = 1, j, x; char *al = cb(c, 2, &m, 0);
	for (i = 0; i < len; i++) tot *= m;
	ev("argall"); ei("style", ci(c,1)); ea("cases");
	for (j = 0; j < tot; j++) {
		char *s = malloc(len + 1), **v; int k; arg_List a;
		for (x = j, i = 0; i < len; i++) { s[i] = al[x % m]; x /= m; }
		s[len] = 0;
		a = arg_argify(s, qstyle(ci(c,1)));
		arg_get_vector(a, &k, &v);
		eaa(); eab(s, len); eaa(); for (i = 0; i < k; i++) eab(v[i], strlen(v[i])); eaend(); eai(v[k] == NULL && arg_count(a) == k); eaend();
		arg_destroy(a); free(s);
	}
	eaclose(); ee(); free(al);
}

op_t ops_mem[] = {
	{ "onew", onew }, { "odel", odel }, { "oget", oget }, { "ofree", ofree }, { "ofill", ofill }, { "ochk", ochk }, { "ostat", ostat },
	{ "mnew", mnew }, { "mdel", mdel }, { "mput", mput }, { "mgrow", mgrow }, { "mfin", mfin }, { "mchk", mchk }, { "mstat", mstat },
	{ "pnew", pnew }, { "pdel", pdel }, { "pfind", pfind }, { "pfindn", pfindn }, { "pro", pro }, { "pex", pex }, { "pcopy", pcopy }, { "pcopyn", pcopyn },
	{ "pgrow", pgrow }, { "pfin", pfin }, { "puniq", puniq }, { "pit", pit }, { "pchk", pchk }, { "pstat", pstat },
	{ "anew", anew }, { "adel", adel }, { "aadd", aadd }, { "agrow", agrow }, { "afin", afin }, { "acnt", acnt }, { "aget", aget }, { "avec", avec },
	{ "argify", argify }, { "argall", argall },
	{ NULL, NULL }
};

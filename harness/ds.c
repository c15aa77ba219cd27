/* ds.c -- containers: hash tables, sets, lists, skip lists, stacks */
#include "drv.h"
#include "wrap.h"
#include <sys/mman.h>

/* Key and element objects.  Objects 2c and 2c+1 belong to class c: they are
   different pointers which the comparison calls equal (kind 8, comparison by
   pointer: every object is a class of its own). */
#define NKEY 262144
typedef struct { char s[24]; int id; } keyobj;
static keyobj *K;
static char   *D;                       /* data are pointers into D; 0 is NULL */
#define NDATA 1048576

static void prep(void)
{
	int i;
	if (K) return;
	K = lent_on ? mmap(NULL, NKEY * sizeof(keyobj), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) : malloc(NKEY * sizeof(keyobj));
	D = lent_on ? mmap(NULL, NDATA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0) : malloc(NDATA);
	for (i = 0; i < NKEY; i++) { K[i].id = i; K[i].s[0] = 0; }
}
/* Keys 240000..240255 are long strings: equal up to their last digits, in groups of 8 classes
   of one length.  Keys 250000..250063 and data 1000000..1000063 are addresses which are never
   followed and differ in the upper half only (keys: for kind 8). */
#define LKEY 240000
#define NLKEY 256
#define LSTRIDE 8220
#define FKEY 250000
#define FDATA 1000000
#define NFAR 64
#define FARK ((char *)0x10000040UL)
#define FARD ((char *)0x20000040UL)
static char *LK;
static const int lzero[] = { 10, 56, 120, 250, 506, 1018, 4090, 8186 };
static int far(const char *b, const void *p)
{
	unsigned long d = (unsigned long)p - (unsigned long)b;
	return (d & 0xffffffffUL) || d >> 32 >= NFAR ? -1 : (int)(d >> 32);
}
static const char *longkey(int id)
{
	char *s;
	int c = (id - LKEY) / 2, z = lzero[c / 8 % 8];
	if (!LK) LK = calloc(NLKEY, LSTRIDE);
	s = LK + (long)(id - LKEY) * LSTRIDE;
	if (!*s) { memcpy(s, "key", 3); memset(s + 3, '0', z); sprintf(s + 3 + z, "%d", id / 2); }
	return s;
}
static const void *kp(int id)
{
	prep();
	if (id < 0 || id >= NKEY) die("key %d", id);
	if (id >= LKEY && id < LKEY + NLKEY) return longkey(id);
	if (id >= FKEY && id < FKEY + NFAR) return FARK + ((unsigned long)(id - FKEY) << 32);
	if (!K[id].s[0]) {
		if (lent_on) mprotect(K, NKEY * sizeof(keyobj), PROT_READ | PROT_WRITE);
		sprintf(K[id].s, "key%d", id / 2);
		if (lent_on) mprotect(K, NKEY * sizeof(keyobj), PROT_READ);
	}
	return &K[id];
}
static int kid(const void *p)
{
	const keyobj *k = p;
	if (!p) return -1;
	if (LK && (const char *)p >= LK && (const char *)p < LK + (long)NLKEY * LSTRIDE)
		return ((const char *)p - LK) % LSTRIDE ? -2 : LKEY + ((const char *)p - LK) / LSTRIDE;
	if (far(FARK, p) >= 0) return FKEY + far(FARK, p);
	if (k < K || k >= K + NKEY || ((const char *)p - (const char *)K) % sizeof(keyobj)) return -2;
	return k - K;
}
static void *dp(int d) { prep(); if (d < 0 || d >= NDATA) die("datum"); if (d >= FDATA && d < FDATA + NFAR) return FARD + ((unsigned long)(d - FDATA) << 32); return d ? D + d : NULL; }
static int did(const void *p)
{
	const char *q = p;
	if (!p) return 0;
	if (far(FARD, p) >= 0) return FDATA + far(FARD, p);
	if (q <= D || q >= D + NDATA) return -2;
	return q - D;
}
static unsigned long cls(const void *k) { return kid(k) / 2; }

static unsigned long h0(const void *k) { (void)k; return 5; }
static unsigned long h1(const void *k) { return cls(k); }
static unsigned long h2(const void *k) { return cls(k) % 3; }
static unsigned long h3(const void *k) { return cls(k) * 0x9E3779B97F4A7C15UL; }
static unsigned long h4(const void *k) { return cls(k) << 40; }
static unsigned long h5(const void *k) { return ~0UL - cls(k); }
static unsigned long h6(const void *k) { return cls(k) * 1221; } /* 3*11*37 */
static int c1(const void *a, const void *b) { long x = cls(a), y = cls(b); return x < y ? -1 : x > y; }
static int c2(const void *a, const void *b) { return cls(a) == cls(b) ? 0 : 256; }
static int c3(const void *a, const void *b) { return cls(a) == cls(b) ? 0 : INT_MIN; }
static unsigned long (*HF[])(const void *) = { h0, h1, h2, h3, h4, h5, h6, NULL, hsh_pointer_hash, h1 };
static int (*CF[])(const void *, const void *) = { c1, c1, c2, c1, c3, c1, c2, NULL, hsh_pointer_compare, c2 };

#define NT 64
#define NPOS 64

/* ---- hash tables ---- */
static hsh_HashTable H[NT];
static hsh_Position HP[NPOS];

static void hnew(cmd_t *c) { H[ci(c,1)] = hsh_create(HF[ci(c,2)], CF[ci(c,2)]); ev("hnew"); ei("t", ci(c,1)); ei("kind", ci(c,2)); ee(); }
static void hdel(cmd_t *c) { hsh_destroy(H[ci(c,1)]); ev("hdel"); ei("t", ci(c,1)); ee(); }
static void hins(cmd_t *c)
{
	int r = hsh_insert(H[ci(c,1)], kp(ci(c,2)), dp(ci(c,3)));
	ev("hins"); ei("t", ci(c,1)); ei("k", ci(c,2)); ei("d", ci(c,3)); ei("r", r); ee();
}
static void hrem(cmd_t *c)
{
	int r = hsh_delete(H[ci(c,1)], kp(ci(c,2)));
	ev("hrem"); ei("t", ci(c,1)); ei("k", ci(c,2)); ei("r", r); ee();
}
static void hget(cmd_t *c)
{
	const void *r = hsh_retrieve(H[ci(c,1)], kp(ci(c,2)));
	ev("hget"); ei("t", ci(c,1)); ei("k", ci(c,2)); ei("r", did(r)); ee();
}
static void hro(cmd_t *c)
{
	int r = hsh_readonly(H[ci(c,1)], truth(ci(c,2)));
	ev("hro"); ei("t", ci(c,1)); ei("f", ci(c,2)); ei("r", !!r); ee();
}
static void hposev(const char *op, int t, int p)
{
	void *k = &H, *d = NULL;               /* (at the end the key is NULL, whatever it was) */
	d = hsh_get_position(HP[p], &k);
	ev(op); ei("t", t); ei("p", p); ei("k", kid(k)); ei("d", did(d)); ei("ok", HP[p] != NULL); ee();
}
static void hpi(cmd_t *c) { HP[ci(c,2)] = hsh_init_position(H[ci(c,1)]); hposev("hpi", ci(c,1), ci(c,2)); }
static void hpn(cmd_t *c) { HP[ci(c,2)] = hsh_next_position(H[ci(c,1)], HP[ci(c,2)]); hposev("hpn", ci(c,1), ci(c,2)); }
/* hwalk T P [N]: enumerate by positions in slot P, at most N further steps */
static void hwalk(cmd_t *c)
{
	int t = ci(c,1), p = ci(c,2), i, n = c->n > 3 ? ci(c,3) : INT_MAX;
	HP[p] = hsh_init_position(H[t]); hposev("hpi", t, p);
	for (i = 0; i < n && HP[p]; i++) {
		HP[p] = hsh_next_position(H[t], HP[p]); hposev("hpn", t, p);
		if (i > 300000) wrong("endless");
	}
}
/* hit T MODE STOP KEY...: iterate (0 a function, 1 a function with argument, 2 HSH_ITERATE,
   3 HSH_ITERATE_KEYS); stop with non-zero at visit STOP (0: never); delete the KEYs when visited
   (modes 0 and 1; a table that is read-only or being enumerated is not walked by positions) */
static struct { int n, stop, ret; cmd_t *c; hsh_HashTable h; int *vk, *vd, *dr; int cap; } I;
static void imore(void)
{
	if (I.n < I.cap) return;
	I.cap = I.cap ? 2 * I.cap : 1024;
	I.vk = realloc(I.vk, I.cap * sizeof(int)); I.vd = realloc(I.vd, I.cap * sizeof(int)); I.dr = realloc(I.dr, I.cap * sizeof(int));
}
static int hitf(const void *k, const void *d)
{
	int j;
	imore();
	I.vk[I.n] = kid(k); I.vd[I.n] = did(d); I.dr[I.n] = -1;
	for (j = 4; j < I.c->n; j++) if (ci(I.c, j) == kid(k)) I.dr[I.n] = hsh_delete(I.h, k);
	I.n++;
	return I.n == I.stop ? I.ret : 0;
}
static int hitfa(const void *k, const void *d, void *arg) { if (arg != &I) wrong("arg"); return hitf(k, d); }
static void hit(cmd_t *c)
{
	int r, i;
	I.n = 0; I.stop = ci(c,3); I.c = c; I.h = H[ci(c,1)];
	I.ret = I.stop % 2 ? 1 : -7;
	i = hsh_readonly(I.h, 0); hsh_readonly(I.h, i);
	if (ci(c,2) < 2 || c->n > 4 || i) r = ci(c,2) & 1 ? hsh_iterate_arg(I.h, hitfa, &I) : hsh_iterate(I.h, hitf);
	else {
		hsh_Position p; void *k, *k2, *d;
		r = 0;
		if (ci(c,2) == 2) HSH_ITERATE (I.h, p, k, d) { if ((r = hitf(k, d))) break; if (I.n > 300000) wrong("endless"); }
		else HSH_ITERATE_KEYS (I.h, p, k) { if ((r = hitf(k, hsh_get_position(p, &k2)))) break; if (I.n > 300000) wrong("endless"); }
		HSH_ITERATE_END (I.h);
	}
	ev("hit"); ei("t", ci(c,1)); ei("stop", I.stop); ei("r", r);
	ea("k"); for (i = 0; i < I.n; i++) eai(I.vk[i]); eaclose();
	ea("d"); for (i = 0; i < I.n; i++) eai(I.vd[i]); eaclose();
	ea("del"); for (i = 4; i < c->n; i++) eai(ci(c, i)); eaclose();
	ea("dr"); for (i = 0; i < I.n; i++) eai(I.dr[i]); eaclose();
	ee();
}
static void phst(void *o, FILE *f) { hsh_print_stats(o, f); }
static void hst(cmd_t *c)
{
	hsh_Stats s = hsh_get_stats(H[ci(c,1)]);
	ev("hst"); ei("t", ci(c,1)); ei("size", s->size); ei("rez", s->resizings); ei("entries", s->entries);
	ei("used", s->buckets_used); ei("single", s->singletons); ei("maxlen", s->maximum_length);
	ei("retr", s->retrievals); ei("hits", s->hits); ei("misses", s->misses);
	eprinted("p", phst, H[ci(c,1)], ci(c,2)); ee();
	xfree(s);
}
/* hbulk T OP FROM TO STEP: OP i/d/g over many keys; one event with the results */
static void hbulk(cmd_t *c)
{
	int t = ci(c,1), i, f = ci(c,3), to = ci(c,4), st = ci(c,5);
	const char *o = cs(c,2);
	ev("hbulk"); ei("t", t); es("o", o); ei("from", f); ei("to", to); ei("step", st);
	ea("r");
	for (i = f; i <= to; i += st) {
		const void *k = kp(i);
		if (*o == 'i') eai(hsh_insert(H[t], k, dp(i + 1)));
		else if (*o == 'd') eai(hsh_delete(H[t], k));
		else eai(did(hsh_retrieve(H[t], k)));
	}
	eaclose(); ee();
}
/* ---- sets ---- */
static set_Set S[NT];
static set_Position SP[NPOS];

static void snew(cmd_t *c) { S[ci(c,1)] = set_create(HF[ci(c,2)], CF[ci(c,2)]); ev("snew"); ei("t", ci(c,1)); ei("kind", ci(c,2)); ee(); }
static void sdel(cmd_t *c) { set_destroy(S[ci(c,1)]); ev("sdel"); ei("t", ci(c,1)); ee(); }
static void sins(cmd_t *c) { int r = set_insert(S[ci(c,1)], kp(ci(c,2))); ev("sins"); ei("t", ci(c,1)); ei("k", ci(c,2)); ei("r", r); ee(); }
static void srem(cmd_t *c) { int r = set_delete(S[ci(c,1)], kp(ci(c,2))); ev("srem"); ei("t", ci(c,1)); ei("k", ci(c,2)); ei("r", r); ee(); }
static void smem(cmd_t *c) { int r = set_member(S[ci(c,1)], kp(ci(c,2))); ev("smem"); ei("t", ci(c,1)); ei("k", ci(c,2)); ei("r", r); ee(); }
static void scount(cmd_t *c) { int r = set_count(S[ci(c,1)]); ev("scount"); ei("t", ci(c,1)); ei("r", r); ee(); }
static void sro(cmd_t *c) { int r = set_readonly(S[ci(c,1)], truth(ci(c,2))); ev("sro"); ei("t", ci(c,1)); ei("f", ci(c,2)); ei("r", !!r); ee(); }
static void sposev(const char *op, int t, int p)
{
	void *k = set_get_position(SP[p]);
	ev(op); ei("t", t); ei("p", p); ei("k", kid(k)); ei("ok", SP[p] != NULL); ee();
}
static void spi(cmd_t *c) { SP[ci(c,2)] = set_init_position(S[ci(c,1)]); sposev("spi", ci(c,1), ci(c,2)); }
static void spn(cmd_t *c) { SP[ci(c,2)] = set_next_position(S[ci(c,1)], SP[ci(c,2)]); sposev("spn", ci(c,1), ci(c,2)); }
static void swalk(cmd_t *c)
{
	int t = ci(c,1), p = ci(c,2), i, n = c->n > 3 ? ci(c,3) : INT_MAX;
	SP[p] = set_init_position(S[t]); sposev("spi", t, p);
	for (i = 0; i < n && SP[p]; i++) {
		SP[p] = set_next_position(S[t], SP[p]); sposev("spn", t, p);
		if (i > 300000) wrong("endless");
	}
}
/* sit T MODE STOP ACTION...: iterate (mode 2: SET_ITERATE, if the set is not read-only); at the first visit perform the actions:
   mN member N; iN/rN attempt to insert/delete N (forked); x attempt to destroy (forked) */
static int satt[256][3], nsatt;
static int forked(void (*f)(set_Set, int), set_Set s, int k)
{
	int st, pid;
	fflush(NULL);
	if (!(pid = fork())) {
		int fd = open("/dev/null", O_WRONLY);
		dup2(fd, 2);
		alarm(20);
		f(s, k);
		_exit(0);
	}
	while (__real_waitpid(pid, &st, 0) < 0 && errno == EINTR);
	if (WIFEXITED(st)) return WEXITSTATUS(st);
	return WTERMSIG(st) == SIGABRT ? 1000 : 2000 + WTERMSIG(st);
}
static void fsi(set_Set s, int k) { set_insert(s, kp(k)); }
static void fsr(set_Set s, int k) { set_delete(s, kp(k)); }
static void fsx(set_Set s, int k) { (void)k; set_destroy(s); }
static set_Set IS;
static int sitf(const void *k)
{
	int j;
	imore();
	I.vk[I.n] = kid(k); I.n++;
	if (I.n == 1) for (j = 4; j < I.c->n && nsatt < 256; j++) {
		const char *a = cs(I.c, j);
		int e = atoi(a + 1), r;
		kp(e);
		r = *a == 'm' ? set_member(IS, kp(e)) : forked(*a == 'i' ? fsi : *a == 'r' ? fsr : fsx, IS, e);
		satt[nsatt][0] = *a; satt[nsatt][1] = e; satt[nsatt][2] = r; nsatt++;
	}
	return I.n == I.stop ? I.ret : 0;
}
static int sitfa(const void *k, void *arg) { if (arg != &I) wrong("arg"); return sitf(k); }
static int mark(set_Set s) { int r = set_readonly(s, 0); set_readonly(s, r); return !!r; }
static void sit(cmd_t *c)
{
	int r, i;
	I.n = 0; I.stop = ci(c,3); I.c = c; nsatt = 0; IS = S[ci(c,1)];
	I.ret = I.stop % 2 ? 1 : -7;
	if (ci(c,2) == 2 && !mark(IS)) {
		set_Position p; const void *k;
		r = 0;
		SET_ITERATE (IS, p, k) { if ((r = sitf(k))) break; if (I.n > 300000) wrong("endless"); }
		SET_ITERATE_END (IS);
	} else r = ci(c,2) & 1 ? set_iterate_arg(IS, sitfa, &I) : set_iterate(IS, sitf);
	ev("sit"); ei("t", ci(c,1)); ei("stop", I.stop); ei("r", r);
	ea("k"); for (i = 0; i < I.n; i++) eai(I.vk[i]); eaclose();
	ea("act"); for (i = 0; i < nsatt; i++) { char b[2] = { satt[i][0], 0 }; eaa(); eas(b); eai(satt[i][1]); eai(satt[i][2]); eaend(); } eaclose();
	ee();
}
static void psst(void *o, FILE *f) { set_print_stats(o, f); }
static void sst(cmd_t *c)
{
	set_Stats s = set_get_stats(S[ci(c,1)]);
	ev("sst"); ei("t", ci(c,1)); ei("size", s->size); ei("rez", s->resizings); ei("entries", s->entries);
	ei("used", s->buckets_used); ei("single", s->singletons); ei("maxlen", s->maximum_length);
	ei("retr", s->retrievals); ei("hits", s->hits); ei("misses", s->misses);
	eprinted("p", psst, S[ci(c,1)], ci(c,2)); ee();
	xfree(s);
}
static void dump(const char *name, set_Set s)
{
	int i;
	static cmd_t none;
	I.n = 0; I.stop = 0; I.c = &none; IS = s;
	set_iterate(s, sitf);
	ea(name); for (i = 0; i < I.n; i++) eai(I.vk[i]); eaclose();
}
/* salg OP Z A B: OP u/i/d into new set Z; + - in place (Z is the returned set, = A) */
static void salg(cmd_t *c)
{
	const char *o = cs(c,1);
	int z = ci(c,2), a = ci(c,3), b = ci(c,4), same = 0;
	set_Set r = NULL;
	switch (*o) {
	case 'u': r = set_union(S[a], S[b]); break;
	case 'i': r = set_inter(S[a], S[b]); break;
	case 'd': r = set_diff(S[a], S[b]); break;
	case '+': r = set_add(S[a], S[b]); break;
	case '-': r = set_del(S[a], S[b]); break;
	}
	same = r == S[a];
	if (*o != '+' && *o != '-') S[z] = r;
	ev("salg"); es("o", o); ei("z", z); ei("a", a); ei("b", b); ei("same", same);
	dump("ez", r); ei("cz", set_count(r)); ei("mz", mark(r));
	dump("ea", S[a]); ei("ca", set_count(S[a])); ei("ma", mark(S[a]));
	dump("eb", S[b]); ei("cb", set_count(S[b])); ei("mb", mark(S[b]));
	ee();
}
static void seq(cmd_t *c)
{
	int a = ci(c,1), b = ci(c,2), r = set_equal(S[a], S[b]);
	ev("seq"); ei("a", a); ei("b", b); ei("r", r); ei("ma", mark(S[a])); ei("mb", mark(S[b])); ee();
}
static void sbulk(cmd_t *c)
{
	int t = ci(c,1), i, f = ci(c,3), to = ci(c,4), st = ci(c,5);
	const char *o = cs(c,2);
	ev("sbulk"); ei("t", t); es("o", o); ei("from", f); ei("to", to); ei("step", st);
	ea("r");
	for (i = f; i <= to; i += st) {
		const void *k = kp(i);
		eai(*o == 'i' ? set_insert(S[t], k) : *o == 'd' ? set_delete(S[t], k) : set_member(S[t], k));
	}
	eaclose(); ee();
}

/* which functions the set works with */
static void sfun(cmd_t *c)
{
	static const char *hn[] = { "h0", "h1", "h2", "h3", "h4", "h5", "h6" }, *cn[] = { "c1", "c2", "c3" };
	static int (*cf[])(const void *, const void *) = { c1, c2, c3 };
	set_HashFunction h = set_get_hash(S[ci(c,1)]); set_CompareFunction f = set_get_compare(S[ci(c,1)]);
	const char *a = h == hsh_string_hash ? "string" : h == hsh_pointer_hash ? "pointer" : "?";
	const char *b = f == hsh_string_compare ? "string" : f == hsh_pointer_compare ? "pointer" : "?";
	int i;
	for (i = 0; i < 7; i++) if (h == HF[i]) a = hn[i];
	for (i = 0; i < 3; i++) if (f == cf[i]) b = cn[i];
	ev("sfun"); ei("t", ci(c,1)); es("h", a); es("c", b); ee();
}
/* hfun A B: the library's own hash and comparison functions on two strings (in blocks of their own) */
static void hfun(cmd_t *c)
{
	int n, m; char *a = cb(c, 1, &n, 1), *b = cb(c, 2, &m, 1);
	ev("hfun"); ehex("a", a, n); ehex("b", b, m);
	ei("sh", hsh_string_hash(a) == hsh_string_hash(b)); ei("sc", hsh_string_compare(a, b) == 0);
	ei("again", hsh_string_hash(a) == hsh_string_hash(a) && hsh_pointer_hash(a) == hsh_pointer_hash(a));
	ei("pc", hsh_pointer_compare(a, b) == 0 || hsh_pointer_compare(a, a + (1UL << 32)) == 0 || hsh_pointer_compare(FARK, FARK + (1UL << 63)) == 0);
	ei("pe", hsh_pointer_compare(a, a) == 0);
	ee(); free(a); free(b);
}
/* the printed keys (they are all called key<number>) */
static void phkeys(void *o, FILE *f) { (void)f; hsh_key_strings(o); }
static void hkeys(cmd_t *c)
{
	char *buf = NULL, *p; size_t n; FILE *f = so_open(1, &buf, &n);
	phkeys(H[ci(c,1)], f);
	so_close(1, f, &buf, &n);
	ev("hkeys"); ei("t", ci(c,1)); ea("n");
	for (p = strtok(buf, " \t\n"); p; p = strtok(NULL, " \t\n")) eai(strncmp(p, "key", 3) ? -1 : atoi(p + 3));
	eaclose(); ee(); free(buf);
}

/* ---- lists ---- */
static lst_List L[NT];
static lst_Position LP[NPOS];
static void lnew(cmd_t *c) { L[ci(c,1)] = lst_create(); ev("lnew"); ei("t", ci(c,1)); ee(); }
static void ldel(cmd_t *c) { lst_destroy(L[ci(c,1)]); ev("ldel"); ei("t", ci(c,1)); ee(); }
static void lapp(cmd_t *c) { lst_append(L[ci(c,1)], dp(ci(c,2))); ev("lapp"); ei("t", ci(c,1)); ei("d", ci(c,2)); ee(); }
static void lpush(cmd_t *c) { lst_push(L[ci(c,1)], dp(ci(c,2))); ev("lpush"); ei("t", ci(c,1)); ei("d", ci(c,2)); ee(); }
static void lpop(cmd_t *c) { void *r = lst_pop(L[ci(c,1)]); ev("lpop"); ei("t", ci(c,1)); ei("r", did(r)); ee(); }
static void ltop(cmd_t *c) { void *r = lst_top(L[ci(c,1)]); ev("ltop"); ei("t", ci(c,1)); ei("r", did(r)); ee(); }
static void lget(cmd_t *c) { void *r = lst_nth_get(L[ci(c,1)], ci(c,2)); ev("lget"); ei("t", ci(c,1)); ei("n", ci(c,2)); ei("r", did(r)); ee(); }
static void lset(cmd_t *c) { lst_nth_set(L[ci(c,1)], ci(c,2), dp(ci(c,3))); ev("lset"); ei("t", ci(c,1)); ei("n", ci(c,2)); ei("d", ci(c,3)); ee(); }
static void lmem(cmd_t *c) { int r = lst_member(L[ci(c,1)], dp(ci(c,2))); ev("lmem"); ei("t", ci(c,1)); ei("d", ci(c,2)); ei("r", r != 0); ee(); }
static void llen(cmd_t *c) { unsigned r = lst_length(L[ci(c,1)]); ev("llen"); ei("t", ci(c,1)); ei("r", r); ee(); }
static int litf(const void *d)
{
	imore();
	I.vd[I.n++] = did(d);
	return I.n == I.stop ? I.ret : 0;
}
static int litfa(const void *d, void *arg) { if (arg != &I) wrong("arg"); return litf(d); }
static void liter(cmd_t *c)
{
	int r, i;
	I.n = 0; I.stop = ci(c,3); I.ret = I.stop % 2 ? 1 : -7;
	if (ci(c,2) == 2) {
		lst_Position p; void *d;
		r = 0;
		LST_ITERATE (L[ci(c,1)], p, d) { if ((r = litf(d))) break; if (I.n > 1000000) wrong("endless"); }
	} else r = ci(c,2) ? lst_iterate_arg(L[ci(c,1)], litfa, &I) : lst_iterate(L[ci(c,1)], litf);
	ev("liter"); ei("t", ci(c,1)); ei("stop", I.stop); ei("r", r != 0);
	ea("v"); for (i = 0; i < I.n; i++) eai(I.vd[i]); eaclose(); ee();
}
/* the figure of memory ever allocated for lists */
static void ltot(cmd_t *c) { (void)c; ev("ltot"); ei("r", lst_total_allocated()); ee(); }
/* what lst_dump prints: a pointer in every line */
static void ldump(cmd_t *c)
{
	char nm[] = "/tmp/vldumpXXXXXX", b[256], *p;
	int fd = mkstemp(nm), old, bad = 0;
	FILE *f;
	unlink(nm);
	fflush(stdout); old = dup(1); dup2(fd, 1);
	lst_dump(L[ci(c,1)]);
	fflush(stdout); dup2(old, 1); close(old);
	lseek(fd, 0, SEEK_SET); f = fdopen(fd, "r");
	ev("ldump"); ei("t", ci(c,1)); ea("v");
	while (fgets(b, sizeof b, f)) {
		if (!(p = strrchr(b, 'x')) && !(p = strstr(b, "(nil)"))) { bad = 1; continue; }
		eai(did((void *)(*p == 'x' ? strtoul(p + 1, NULL, 16) : 0)));
	}
	eaclose(); ei("bad", bad); ee();
	fclose(f);
}
static void ltrunc(cmd_t *c) { lst_truncate(L[ci(c,1)], (unsigned)cl(c,2)); ev("ltrunc"); ei("t", ci(c,1)); ei("n", ci(c,2)); ee(); }
static void ltp(cmd_t *c) { int p = ci(c,2); lst_truncate_position(L[ci(c,1)], p < 0 ? NULL : LP[p]); ev("ltp"); ei("t", ci(c,1)); ei("p", p); ee(); }
static void lposev(const char *op, int t, int p, int n)
{
	ev(op); ei("t", t); ei("p", p); ei("n", n); ei("ok", LP[p] != NULL); ei("d", did(lst_get_position(LP[p]))); ee();
}
static void lpi(cmd_t *c) { LP[ci(c,2)] = lst_init_position(L[ci(c,1)]); lposev("lpi", ci(c,1), ci(c,2), 0); }
static void lpl(cmd_t *c) { LP[ci(c,2)] = lst_last_position(L[ci(c,1)]); lposev("lpl", ci(c,1), ci(c,2), 0); }
static void lpt(cmd_t *c) { LP[ci(c,2)] = lst_nth_position(L[ci(c,1)], ci(c,3)); lposev("lpt", ci(c,1), ci(c,2), ci(c,3)); }
/* lpn P Q: position Q becomes the successor of P */
static void lpn(cmd_t *c) { int p = ci(c,1), q = ci(c,2); LP[q] = lst_next_position(LP[p]); ev("lpn"); ei("p", p); ei("q", q); ei("ok", LP[q] != NULL); ei("d", did(lst_get_position(LP[q]))); ee(); }
static void lpg(cmd_t *c) { int p = ci(c,1); void *r = lst_get_position(LP[p]); ev("lpg"); ei("p", p); ei("r", did(r)); ee(); }
static void lps(cmd_t *c) { int p = ci(c,1); lst_set_position(LP[p], dp(ci(c,2))); ev("lps"); ei("p", p); ei("d", ci(c,2)); ee(); }
/* two lists in lock step (LST_ITERATE2) */
static void lit2(cmd_t *c)
{
	lst_Position p, q; void *x, *y; int i;
	I.n = 0;
	LST_ITERATE2(L[ci(c,1)], L[ci(c,2)], p, q, x, y) { imore(); I.vk[I.n] = did(x); I.vd[I.n++] = did(y); if (I.n > 1000000) break; }
	ev("lit2"); ei("a", ci(c,1)); ei("b", ci(c,2));
	ea("x"); for (i = 0; i < I.n; i++) eai(I.vk[i]); eaclose();
	ea("y"); for (i = 0; i < I.n; i++) eai(I.vd[i]); eaclose(); ee();
}

/* ---- stacks ---- */
static stk_Stack T[NT];
static void knew(cmd_t *c) { T[ci(c,1)] = stk_create(); ev("knew"); ei("t", ci(c,1)); ee(); }
static void kdel(cmd_t *c) { stk_destroy(T[ci(c,1)]); ev("kdel"); ei("t", ci(c,1)); ee(); }
static void kpush(cmd_t *c) { stk_push(T[ci(c,1)], dp(ci(c,2))); ev("kpush"); ei("t", ci(c,1)); ei("d", ci(c,2)); ee(); }
static void kpop(cmd_t *c) { void *r = stk_pop(T[ci(c,1)]); ev("kpop"); ei("t", ci(c,1)); ei("r", did(r)); ee(); }
static void ktop(cmd_t *c) { void *r = stk_top(T[ci(c,1)]); ev("ktop"); ei("t", ci(c,1)); ei("r", did(r)); ee(); }
static void kemp(cmd_t *c) { int r = stk_isempty(T[ci(c,1)]); ev("kemp"); ei("t", ci(c,1)); ei("r", r != 0); ee(); }

/* ---- skip lists ---- */
static sl_List SL[NT];
static int  bitq[4096], nbit, cbit, real_random = 1;
long __real_random(void);
long __wrap_random(void)
{
	if (real_random) return __real_random();
	return cbit < nbit && bitq[cbit++] ? 0x7fffffffL & ~0L : 0x7fffff7fL;
}
/* a datum is a key object; datum 2c and 2c+1 have the key of class c */
static int slcmp(const void *a, const void *b) { long x = cls(a), y = cls(b); return x < y ? -1 : x > y; }
static int slcmpr(const void *a, const void *b) { return slcmp(b, a); }
static int slcmpb(const void *a, const void *b) { long x = cls(a), y = cls(b); return x < y ? INT_MIN : x > y ? 0x7fff0000 : 0; }
static const void *slkey(const void *d) { return d; }
static const char *slprint(const void *d) { static char b[32]; sprintf(b, "<%d>", kid(d)); return b; }
static void ynew(cmd_t *c)
{
	int k = ci(c,2);
	SL[ci(c,1)] = sl_create(k == 1 ? slcmpr : k == 2 ? slcmpb : slcmp, slkey, k == 2 ? NULL : slprint);
	ev("ynew"); ei("t", ci(c,1)); ei("kind", k); ee();
}
static void setbits(int level) { nbit = 0; cbit = 0; real_random = level < 0; while (level-- > 1) bitq[nbit++] = 1; }
static void ydel(cmd_t *c) { sl_destroy(SL[ci(c,1)]); ev("ydel"); ei("t", ci(c,1)); ee(); }
/* yins T K LEVEL (-1: the real random source) */
static void yins(cmd_t *c) { kp(ci(c,2)); setbits(ci(c,3)); sl_insert(SL[ci(c,1)], kp(ci(c,2))); ev("yins"); ei("t", ci(c,1)); ei("k", ci(c,2)); ei("l", ci(c,3)); ee(); }
static void yrem(cmd_t *c) { sl_delete(SL[ci(c,1)], kp(ci(c,2))); ev("yrem"); ei("t", ci(c,1)); ei("k", ci(c,2)); ee(); }
static void yget(cmd_t *c) { const void *r = sl_find(SL[ci(c,1)], kp(ci(c,2))); ev("yget"); ei("t", ci(c,1)); ei("k", ci(c,2)); ei("r", kid(r)); ee(); }
/* yit T ARG STOP RET VISIT:+K:L VISIT:-K ...: iterate; at visit number VISIT
   insert or delete K (in the order given); return RET at visit STOP */
static sl_List YL;
static int yitf(const void *d)
{
	int j, n;
	imore();
	n = ++I.n;
	I.vk[n - 1] = kid(d);
	for (j = 5; j < I.c->n; j++) {
		int v, k, l = 1;
		char o;
		if (sscanf(cs(I.c, j), "%d:%c%d:%d", &v, &o, &k, &l) < 3) die("yit");
		if (v != n) continue;
		if (o == '+') { setbits(l); sl_insert(YL, kp(k)); }
		else sl_delete(YL, kp(k));
	}
	return n == I.stop ? I.ret : 0;
}
static int yitfa(const void *d, void *arg) { if (arg != &I) wrong("arg"); return yitf(d); }
static void yit(cmd_t *c)
{
	int r, i;
	I.n = 0; I.stop = ci(c,3); I.ret = ci(c,4); I.c = c; YL = SL[ci(c,1)];
	r = ci(c,2) ? sl_iterate_arg(YL, yitfa, &I) : sl_iterate(YL, yitf);
	ev("yit"); ei("t", ci(c,1)); ei("stop", I.stop); ei("ret", I.ret); ei("r", r);
	ea("k"); for (i = 0; i < I.n; i++) eai(I.vk[i]); eaclose();
	ea("act");
	for (i = 5; i < c->n; i++) {
		int v, k, l = 1; char o;
		sscanf(cs(c, i), "%d:%c%d:%d", &v, &o, &k, &l);
		eaa(); eai(v); eas(o == '+' ? "i" : "d"); eai(k); eaend();
	}
	eaclose(); ee();
}
/* yfill T FROM TO STEP: insert many with the real random source */
static void yfill(cmd_t *c)
{
	int i;
	real_random = 1;
	for (i = ci(c,2); ci(c,4) > 0 ? i <= ci(c,3) : i >= ci(c,3); i += ci(c,4)) sl_insert(SL[ci(c,1)], kp(i));
	ev("yfill"); ei("t", ci(c,1)); ei("from", ci(c,2)); ei("to", ci(c,3)); ei("step", ci(c,4)); ee();
}

/* what _sl_dump prints: the number of data and a line for each entry, the head first */
static void ydump(cmd_t *c)
{
	char *buf = NULL, *p; size_t n; FILE *f = so_open(1, &buf, &n); int first = 1;
	_sl_dump(SL[ci(c,1)]);
	so_close(1, f, &buf, &n);
	p = strstr(buf, "count = ");
	ev("ydump"); ei("t", ci(c,1)); ei("count", p ? atoi(p + 8) : -1); ea("k");
	for (p = strtok(buf, "\n"); p; p = strtok(NULL, "\n")) {
		char *q = strchr(p, '/');
		if (!strstr(p, "Entry") || !q) continue;
		if (first) { first = 0; continue; }
		eai(kid((void *)strtoul(q + 1, NULL, 16)));
	}
	eaclose(); ee(); free(buf);
}

op_t ops_ds[] = {
	{ "hnew", hnew }, { "hdel", hdel }, { "hins", hins }, { "hrem", hrem }, { "hget", hget }, { "hro", hro },
	{ "hpi", hpi }, { "hpn", hpn }, { "hwalk", hwalk }, { "hit", hit }, { "hst", hst }, { "hbulk", hbulk }, { "hfun", hfun }, { "hkeys", hkeys }, { "sfun", sfun },
	{ "snew", snew }, { "sdel", sdel }, { "sins", sins }, { "srem", srem }, { "smem", smem }, { "scount", scount },
	{ "sro", sro }, { "spi", spi }, { "spn", spn }, { "swalk", swalk }, { "sit", sit }, { "sst", sst }, { "salg", salg }, { "seq", seq }, { "sbulk", sbulk },
	{ "lnew", lnew }, { "ldel", ldel }, { "lapp", lapp }, { "lpush", lpush }, { "lpop", lpop }, { "ltop", ltop },
	{ "lget", lget }, { "lset", lset }, { "lmem", lmem }, { "llen", llen }, { "liter", liter }, { "ltot", ltot }, { "ldump", ldump }, { "ltrunc", ltrunc },
	{ "ltp", ltp }, { "lpi", lpi }, { "lpl", lpl }, { "lpt", lpt }, { "lpn", lpn }, { "lpg", lpg }, { "lps", lps }, { "lit2", lit2 },
	{ "knew", knew }, { "kdel", kdel }, { "kpush", kpush }, { "kpop", kpop }, { "ktop", ktop }, { "kemp", kemp },
	{ "ynew", ynew }, { "ydel", ydel }, { "yins", yins }, { "yrem", yrem }, { "yget", yget }, { "yit", yit }, { "ydump", ydump }, { "yfill", yfill },
	{ NULL, NULL }
};

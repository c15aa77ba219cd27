#include "drv.h"
/* stacklimit KB: let the run-time stack grow by no more than KB from here */
static void stacklimit(cmd_t *c)
{
	struct rlimit r;
	char here, *top = NULL, line[512];
	FILE *f = fopen("/proc/self/maps", "r");
	unsigned long a, b;
	while (f && fgets(line, sizeof line, f))
		if (sscanf(line, "%lx-%lx", &a, &b) == 2 && (unsigned long)&here >= a && (unsigned long)&here < b) top = (char *)b;
	if (f) fclose(f);
	if (!top) die("stack");
	getrlimit(RLIMIT_STACK, &r);
	r.rlim_cur = (top - &here) + 1024L * ci(c,1);
	setrlimit(RLIMIT_STACK, &r);
}

/* ---- flags; W is "d" (debug) or "f" (run-time) ---- */
static int isd(cmd_t *c) { return *cs(c,1) == 'd'; }
static unsigned long fval(int g, int b, int b2) { return ((unsigned long)g << 30) | (b >= 0 ? 1UL << b : 0) | (b2 >= 0 ? 1UL << b2 : 0); }
/* freg W USER G B B2 NAME */
static void freg(cmd_t *c)
{
	unsigned long f = fval(ci(c,3), ci(c,4), ci(c,5));
	char *n = strdup(cs(c,6));
	if (!isd(c)) flg_register(f, n);
	else if (ci(c,2)) dbg_register(f, n);
	else _dbg_register(f, n);
	ev("freg"); es("w", cs(c,1)); ei("user", ci(c,2)); ei("g", ci(c,3)); ei("b", ci(c,4)); ei("b2", ci(c,5)); es("name", cs(c,6)); ee();
	lent_spoil(n, strlen(n));          /* the library must not depend on it */
}
static void fset(cmd_t *c)
{
	char *n = strdup(strcmp(cs(c,2), "@") ? cs(c,2) : "");
	if (isd(c)) dbg_set(n); else flg_set(n);
	ev("fset"); es("w", cs(c,1)); es("name", n); ee();
	free(n);
}
static void fset1(cmd_t *c)
{
	unsigned long f = fval(ci(c,2), ci(c,3), -1);
	if (ci(c,4)) dbg_set_flag(f); else dbg_unset_flag(f);
	ev("fset1"); es("w", cs(c,1)); ei("g", ci(c,2)); ei("b", ci(c,3)); ei("v", ci(c,4)); ee();
}
static int ftest(cmd_t *c, int g, int b) { return (isd(c) ? dbg_test(fval(g, b, -1)) : flg_test(fval(g, b, -1))) != 0; }
static void ftst(cmd_t *c) { ev("ftst"); es("w", cs(c,1)); ei("g", ci(c,2)); ei("b", ci(c,3)); ei("r", ftest(c, ci(c,2), ci(c,3))); ee(); }
static void fall(cmd_t *c)
{
	int g, b;
	ev("fall"); es("w", cs(c,1)); ea("on");
	for (g = 0; g < 4; g++) for (b = 0; b < 30; b++) if (ftest(c, g, b)) { eaa(); eai(g); eai(b); eaend(); }
	eaclose(); ee();
}
static void fname(cmd_t *c)
{
	const char *n = flg_name(fval(ci(c,2), ci(c,3), -1));
	ev("fname"); es("w", cs(c,1)); ei("g", ci(c,2)); ei("b", ci(c,3)); es("name", n); ee();
}
static void flist(cmd_t *c)
{
	char *buf = NULL, *p, *q, *bi; size_t n; FILE *f = open_memstream(&buf, &n);
	char *v[4096]; int b[4096], k = 0, i;
	if (isd(c)) dbg_list(f); else flg_list(f);
	fclose(f);
	for (p = buf; *p; p = q + 1) {
		if (!(q = strchr(p, '\n'))) { q = p + strlen(p) - 1; } else *q = 0;
		while (*p == ' ') p++;
		b[k] = isd(c) && (bi = strstr(p, " (builtin)")) ? (*bi = 0, 1) : 0;
		v[k++] = p;
	}
	ev("flist"); es("w", cs(c,1)); ea("names"); for (i = 0; i < k; i++) eas(v[i]); eaclose();
	ea("builtin"); for (i = 0; i < k; i++) eai(b[i]); eaclose(); ee();
	free(buf);
}
/* dtr REG: the library's own traces of processes and sources on (no event: they change nothing that is promised) */
static void dtr(cmd_t *c)
{
	if (ci(c,1)) { _dbg_register(MAA_PR, ".pr"); _dbg_register(MAA_SRC, ".src"); }
	dbg_set(".pr"); dbg_set(".src");
}
static void fdel(cmd_t *c) { if (isd(c)) dbg_destroy(); else flg_destroy(); ev("fdel"); es("w", cs(c,1)); ee(); }

/* ---- numbers.  A number below 2^32 is given and shown as two 16-bit halves,
   a word as the list of its bits. ---- */
static unsigned long two(cmd_t *c, int i) { return ((unsigned long)ci(c, i) << 16) | ci(c, i + 1); }
static void etwo(const char *k, unsigned long v) { ea(k); eai(v >> 16 > 0x7fffffffUL ? 0x7fffffffL : (long)(v >> 16)); eai(v & 0xffff); eaclose(); }
/* bend BASE HI LO: encode */
static void bend(cmd_t *c)
{
	unsigned long v = two(c, 2);
	const char *s = ci(c,1) == 26 ? b26_encode(v) : b64_encode(v);
	ev("bend"); ei("base", ci(c,1)); etwo("v", v); ebytes("s", s, strlen(s)); ee();
}
/* bdec BASE BUF HEX: decode text (BUF 1: b64_decode_buf on an unterminated buffer) */
static void bdec(cmd_t *c)
{
	int n; char *s = cb(c, 3, &n, !ci(c,2));
	unsigned long v = ci(c,1) == 26 ? b26_decode(s) : ci(c,2) ? b64_decode_buf(s, n) : b64_decode(s);
	ev("bdec"); ei("base", ci(c,1)); ebytes("s", s, n); etwo("v", v); ee();
	free(s);
}
static void elist(const char *k, unsigned long w)
{
	int i;
	if (k) ea(k); else eaa();
	for (i = 0; i < 64; i++) if (w >> i & 1) eai(i);
	eaclose();
}
/* bits HEX: everything the bit operations do with one word */
static void bits(cmd_t *c)
{
	unsigned long w = strtoul(cs(c,1) + 1, NULL, 16), x; int i;
	ev("bits"); elist("w", w);
	ea("set"); for (i = 0; i < 64; i++) { x = w; bit_set(&x, i); elist(NULL, x); } eaclose();
	ea("clr"); for (i = 0; i < 64; i++) { x = w; bit_clr(&x, i); elist(NULL, x); } eaclose();
	ea("tst"); for (i = 0; i < 64; i++) eai(bit_tst(&w, i) != 0); eaclose();
	ei("cnt", bit_cnt(&w)); elist("after", w); ee();
}
/* bitv W SEQ..: a history "s5 c3 t5 n" on one word */
static void bitv(cmd_t *c)
{
	unsigned long w = 0; int i;
	ev("bitv"); ea("h");
	for (i = 1; i < c->n; i++) {
		const char *o = cs(c, i); int b = atoi(o + 1), r = 0;
		if (*o == 's') bit_set(&w, b); else if (*o == 'c') bit_clr(&w, b);
		else if (*o == 't') r = bit_tst(&w, b) != 0; else r = bit_cnt(&w);
		eaa(); { char k[2] = { *o, 0 }; eas(k); } eai(b); eai(r); eaend();
	}
	eaclose(); ee();
}
/* prange FROM TO: the primes in a range of small numbers */
static void prange(cmd_t *c)
{
	int i;
	ev("prange"); ei("from", ci(c,1)); ei("to", ci(c,2)); ea("p");
	for (i = ci(c,1); i <= ci(c,2); i++) { int r = prm_is_prime(i); if (r == 1) eai(i); else if (r) eai(-i); }
	eaclose(); ee();
}
static void pis(cmd_t *c) { unsigned long v = two(c, 1); ev("pis"); etwo("v", v); ei("r", prm_is_prime(v)); ee(); }
static void pnext(cmd_t *c) { unsigned long v = two(c, 1); ev("pnext"); etwo("v", v); etwo("r", prm_next_prime(v)); ee(); }
/* sdx HEX: both forms */
static void sdx(cmd_t *c)
{
	int n; char *s = cb(c, 1, &n, 1), *r = malloc(5);
	const char *q;
	txt_soundex2(s, r);
	q = txt_soundex(s);
	ev("sdx"); ebytes("s", s, n); ebytes("r", r, 5); ebytes("q", q, strlen(q)); ee();
	free(s); free(r);
}
/* sdxall ALPHABET LEN */
static void sdxall(cmd_t *c)
{
	int m, len = ci(c,2), i, tot = 1, j, x; char *al = cb(c, 1, &m, 0);
	for (i = 0; i < len; i++) tot *= m;
	ev("sdxall"); ea("cases");
	for (j = 0; j < tot; j++) {
		char *s = malloc(len + 1); const char *q;
		for (x = j, i = 0; i < len; i++) { s[i] = al[x % m]; x /= m; }
		s[len] = 0;
		q = txt_soundex(s);
		eaa(); eab(s, len); eab(q, strlen(q)); eaend();
		free(s);
	}
	eaclose(); ee(); free(al);
}

op_t ops_misc[] = { { "stacklimit", stacklimit },
	{ "freg", freg }, { "fset", fset }, { "fset1", fset1 }, { "ftst", ftst }, { "fall", fall }, { "fname", fname }, { "flist", flist }, { "fdel", fdel }, { "dtr", dtr },
	{ "bend", bend }, { "bdec", bdec }, { "bits", bits }, { "bitv", bitv }, { "prange", prange }, { "pis", pis }, { "pnext", pnext },
	{ "sdx", sdx }, { "sdxall", sdxall },
	{ NULL, NULL } };

/* handles.c -- operations given every kind of object (C36) */
#include "drv.h"

static struct { void *p; char kind[8]; int n; } H[64];
static char   *keys[64];
static char   *k(int i) { char b[16]; if (!keys[i]) { sprintf(b, "key%02d", i); keys[i] = strdup(b); } return keys[i]; }
static int     cmp(const void *a, const void *b) { return strcmp(a, b); }
static const void *kf(const void *d) { return d; }
static int     it1(const void *a) { (void)a; return 0; }
static int     it1a(const void *a, void *x) { (void)a; (void)x; return 0; }
static int     it2(const void *a, const void *b) { (void)a; (void)b; return 0; }
static int     it2a(const void *a, const void *b, void *x) { (void)a; (void)b; (void)x; return 0; }

static void *make(const char *kind, int n)
{
	int i;
	if (!strcmp(kind, "hash")) { hsh_HashTable t = hsh_create(NULL, NULL); for (i = 0; i < n; i++) hsh_insert(t, k(i), k(i)); return t; }
	if (!strcmp(kind, "set"))  { set_Set t = set_create(NULL, NULL); for (i = 0; i < n; i++) set_insert(t, k(i)); return t; }
	if (!strcmp(kind, "list")) { lst_List t = lst_create(); for (i = 0; i < n; i++) lst_append(t, k(i)); return t; }
	if (!strcmp(kind, "skip")) { sl_List t = sl_create(cmp, kf, NULL); for (i = 0; i < n; i++) sl_insert(t, k(i)); return t; }
	if (!strcmp(kind, "objs")) { mem_Object t = mem_create_objects(24); for (i = 0; i < n; i++) mem_get_object(t); return t; }
	if (!strcmp(kind, "strs")) { mem_String t = mem_create_strings(); for (i = 0; i < n; i++) mem_strcpy(t, k(i)); return t; }
	if (!strcmp(kind, "args")) { arg_List t = arg_create(); for (i = 0; i < n; i++) arg_add(t, k(i)); return t; }
	if (!strcmp(kind, "other")) return calloc(1, 8 * (n + 1));
	die("kind %s", kind);
	return NULL;
}
static void xnew(cmd_t *c)
{
	int s = ci(c,1);
	H[s].p = make(cs(c,2), H[s].n = ci(c,3)); strcpy(H[s].kind, cs(c,2));
	ev("xnew"); ei("s", s); es("k", cs(c,2)); ei("n", H[s].n); ee();
}
static void xdel(cmd_t *c)
{
	int s = ci(c,1); const char *d = H[s].kind;
	if (!strcmp(d, "hash")) hsh_destroy(H[s].p);
	else if (!strcmp(d, "set")) set_destroy(H[s].p);
	else if (!strcmp(d, "list")) lst_destroy(H[s].p);
	else if (!strcmp(d, "skip")) sl_destroy(H[s].p);
	else if (!strcmp(d, "objs")) mem_destroy_objects(H[s].p);
	else if (!strcmp(d, "strs")) mem_destroy_strings(H[s].p);
	else if (!strcmp(d, "args")) arg_destroy(H[s].p);
	else free(H[s].p);
	ev("xdel"); ei("s", s); ee();
}
#define F(name) if (!strcmp(f, #name))
static void xuse(cmd_t *c)
{
	const char *f = cs(c,1); int a = ci(c,2), b = ci(c,3), n; char **v;
	void *h = a < 0 ? NULL : H[a].p, *g = b < 0 ? NULL : H[b].p, *x;
	FILE *o = fopen("/dev/null", "w");
	dup2(fileno(o), 1);
	F(hsh_destroy) hsh_destroy(h);
	else F(hsh_insert) hsh_insert(h, k(50), k(1));
	else F(hsh_delete) hsh_delete(h, k(0));
	else F(hsh_retrieve) hsh_retrieve(h, k(0));
	else F(hsh_iterate) hsh_iterate(h, it2);
	else F(hsh_iterate_arg) hsh_iterate_arg(h, it2a, NULL);
	else F(hsh_get_stats) hsh_get_stats(h);
	else F(hsh_print_stats) hsh_print_stats(h, o);
	else F(hsh_init_position) hsh_init_position(h);
	else F(hsh_next_position) hsh_next_position(h, NULL);
	else F(hsh_readonly) hsh_readonly(h, 1);
	else F(hsh_key_strings) hsh_key_strings(h);
	else F(set_destroy) set_destroy(h);
	else F(set_insert) set_insert(h, k(50));
	else F(set_delete) set_delete(h, k(0));
	else F(set_member) set_member(h, k(0));
	else F(set_iterate) set_iterate(h, it1);
	else F(set_iterate_arg) set_iterate_arg(h, it1a, NULL);
	else F(set_init_position) set_init_position(h);
	else F(set_next_position) set_next_position(h, NULL);
	else F(set_readonly) set_readonly(h, 1);
	else F(set_count) set_count(h);
	else F(set_get_stats) set_get_stats(h);
	else F(set_print_stats) set_print_stats(h, o);
	else F(set_get_hash) set_get_hash(h);
	else F(set_get_compare) set_get_compare(h);
	else F(set_add) set_add(h, g);
	else F(set_del) set_del(h, g);
	else F(set_union) set_union(h, g);
	else F(set_inter) set_inter(h, g);
	else F(set_diff) set_diff(h, g);
	else F(set_equal) set_equal(h, g);
	else F(lst_destroy) lst_destroy(h);
	else F(lst_append) lst_append(h, k(0));
	else F(lst_push) lst_push(h, k(0));
	else F(lst_pop) lst_pop(h);
	else F(lst_top) lst_top(h);
	else F(lst_nth_get) lst_nth_get(h, 1);
	else F(lst_nth_set) lst_nth_set(h, 1, k(2));
	else F(lst_member) lst_member(h, k(0));
	else F(lst_length) lst_length(h);
	else F(lst_truncate) lst_truncate(h, 1);
	else F(lst_truncate_position) lst_truncate_position(h, NULL);
	else F(lst_iterate) lst_iterate(h, it1);
	else F(lst_iterate_arg) lst_iterate_arg(h, it1a, NULL);
	else F(lst_dump) lst_dump(h);
	else F(lst_init_position) lst_init_position(h);
	else F(lst_last_position) lst_last_position(h);
	else F(lst_nth_position) lst_nth_position(h, 1);
	else F(sl_destroy) sl_destroy(h);
	else F(sl_insert) sl_insert(h, k(50));
	else F(sl_delete) sl_delete(h, k(0));
	else F(sl_find) sl_find(h, k(0));
	else F(sl_iterate) sl_iterate(h, it1);
	else F(sl_iterate_arg) sl_iterate_arg(h, it1a, NULL);
	else F(mem_destroy_objects) mem_destroy_objects(h);
	else F(mem_get_object) mem_get_object(h);
	else F(mem_get_empty_object) mem_get_empty_object(h);
	else F(mem_free_object) { x = malloc(24); mem_free_object(h, x); }
	else F(mem_get_object_stats) mem_get_object_stats(h);
	else F(mem_print_object_stats) mem_print_object_stats(h, o);
	else F(mem_destroy_strings) mem_destroy_strings(h);
	else F(mem_strcpy) mem_strcpy(h, "abc");
	else F(mem_strncpy) mem_strncpy(h, "abc", 2);
	else F(mem_grow) mem_grow(h, "abc", 2);
	else F(mem_finish) mem_finish(h);
	else F(mem_get_string_stats) mem_get_string_stats(h);
	else F(mem_print_string_stats) mem_print_string_stats(h, o);
	else F(arg_destroy) arg_destroy(h);
	else F(arg_add) arg_add(h, "abc");
	else F(arg_addn) arg_addn(h, "abc", 2);
	else F(arg_grow) arg_grow(h, "abc", 2);
	else F(arg_finish) arg_finish(h);
	else F(arg_get) arg_get(h, 0);
	else F(arg_count) arg_count(h);
	else F(arg_get_vector) arg_get_vector(h, &n, &v);
	else die("function %s", f);
	fclose(o);
}
op_t ops_handles[] = { { "xnew", xnew }, { "xdel", xdel }, { "xuse", xuse }, { NULL, NULL } };

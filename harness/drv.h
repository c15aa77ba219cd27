/* drv.h -- the conformance driver: executes scripted operations on the real
   libmaa and records what it observed as one JSON event per line.
   It judges nothing: TLC decides whether the recorded trace is a behaviour
   of the specification. */
#ifndef DRV_H
#define DRV_H

#include <sys/types.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/select.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdarg.h>
#include <string.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <time.h>
#include <dirent.h>
#include "maa.h"

typedef struct { int n; char *v[4096]; } cmd_t;
typedef void (*handler_t)(cmd_t *c);
typedef struct { const char *name; handler_t fn; } op_t;

void wrong(const char *what);
void die(const char *fmt, ...);
int  ci(cmd_t *c, int i);               /* integer argument (0 if absent) */
long long cl(cmd_t *c, int i);
const char *cs(cmd_t *c, int i);        /* raw token */
/* hex-encoded byte string argument ("-" is empty) in an exactly sized
   malloc'ed buffer with a NUL (x = 1) or without any terminator (x = 0),
   so that ASan sees every byte read too far */
char *cb(cmd_t *c, int i, int *len, int nul);

/* event writing */
void ev(const char *op);                /* begin */
void ei(const char *k, long long v);
void es(const char *k, const char *v);  /* JSON string (escaped), NULL -> "<null>" */
void ebytes(const char *k, const char *v, int len); /* array of byte values */
void ehex(const char *k, const char *v, int len);   /* hex string */
void ea(const char *k);                 /* begin array */
void eai(long long v);                  /* array item */
void eas(const char *v);
void eab(const char *v, int len);       /* byte-array item */
void eaa(void);                         /* nested array begin */
void eaend(void);                       /* nested array end */
void eaclose(void);
void ee(void);                          /* end, flush */
/* print with FN to a stream, or (so) to standard output, and record the numbers
   that follow the first line (a decimal in tenths) */
void eprinted(const char *k, void (*fn)(void *, FILE *), void *o, int so);
FILE *so_open(int so, char **buf, size_t *n);
void so_close(int so, FILE *f, char **buf, size_t *n);
extern int ev_off;                      /* in an attempt: record nothing */
extern const char *scratch;             /* private directory of this driver */

int child_main(int argc, char **argv);   /* a child of the process and filter tests */
/* what is handed to the library while "lend" is on: see lent.c */
extern int lent_on;
void lent_free(void *p), *lent_seal(void *p, size_t n), lent_spoil(void *p, size_t n), lent_done(void);
char *lent_strdup(const char *s);
const char *lent_text(const char *s);
int truth(int yes);                     /* 0, or one of the values that are not */
#define free lent_free
#define strdup lent_strdup
extern op_t ops_lent[], ops_cost[], ops_scale[], ops_faults[], ops_handles[], ops_ds[], ops_mem[], ops_misc[], ops_sys[];
#endif

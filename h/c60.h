/* what a description for tools/mkgetopt.py says, as a table */
#ifndef C60_H
#define C60_H
#include <stdint.h>
#include <stddef.h>
enum { K_INT, K_UINT, K_SIZE, K_DBL, K_STR, K_BOOL, K_CB };
struct c60_opt {
    const char *lng; int shrt; const char *var; int kind; int size; int arg;   /* arg: 0 none, 1 required, 2 optional */
    int off, poff;
    uint64_t iv; double dv; const char *sv;
    int hold;                                                                  /* placeholder: 1 without, 2 with a default */
    const char *help, *dtext;
};
struct c60_spec {
    const char *name; const struct c60_opt *o; int n; int size;
    int (*parse)(void *, int, char *const *);
    void (*setup)(void *);
    void (*rest)(void *, char *const **, int *);
    int noperm, nohelp, nover;
    const char *desc, *version, *usage, *broken;
};
void c60_called(void *, const char *, char *);
#endif

/* PKCS#11 module that forwards everything to KVREC_SO, except that C_CreateObject records its
 * template in KVREC_OUT and forwards it without the attributes that are arrays of attributes. */
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned long U;
typedef struct { U type; void *val; U len; } A;
typedef struct { unsigned char ver[8]; void *fn[68]; } FL;
static FL mine;
static FL *real;
static U n;
static void hex(FILE *f, const unsigned char *p, U len) {
    if (len > 65536) { fprintf(f, "len%lx", len); return; }
    for (U i = 0; i < len; i++) fprintf(f, "%02x", p[i]);
}
static int arr(U t) { return t == 0x40000211UL || t == 0x40000212UL || t == 0x40000213UL; }
static U create(U s, A *t, U cnt, U *h) {
    FILE *f = fopen(getenv("KVREC_OUT"), "a");
    A *o = malloc((cnt + 1) * sizeof(A));
    U k = 0;
    fprintf(f, "obj %lu\n", ++n);
    for (U i = 0; i < cnt; i++) {
        if (!arr(t[i].type)) {
            fprintf(f, "a %lx ", t[i].type);
            hex(f, t[i].val, t[i].len);
            fprintf(f, "\n");
            o[k++] = t[i];
            continue;
        }
        fprintf(f, "m %lx %lu %lu\n", t[i].type, t[i].len / sizeof(A), t[i].len % sizeof(A));
        if (t[i].len % sizeof(A) == 0)
            for (U j = 0; j < t[i].len / sizeof(A); j++) {
                A *x = (A *)t[i].val + j, y;
                memcpy(&y, x, sizeof y);
                fprintf(f, "s %lx ", y.type);
                fflush(f);
                hex(f, y.val, y.len);
                fprintf(f, "\n");
            }
    }
    U rv = ((U(*)(U, A *, U, U *))real->fn[20])(s, o, k, h);
    fprintf(f, "rv %lx\n", rv);
    fclose(f);
    free(o);
    return rv;
}
U C_GetFunctionList(FL **out) {
    void *d = dlopen(getenv("KVREC_SO"), RTLD_NOW | RTLD_LOCAL);
    if (!d) return 5;
    U (*g)(FL **) = (U(*)(FL **))dlsym(d, "C_GetFunctionList");
    if (!g) return 5;
    U rv = g(&real);
    if (rv) return rv;
    memcpy(&mine, real, sizeof mine);
    mine.fn[20] = create;
    *out = &mine;
    return 0;
}

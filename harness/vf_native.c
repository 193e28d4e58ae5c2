/* Native implementation of the harness API: parameters and input values come from a file, results go to stdout. */
#define _GNU_SOURCE
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

struct kv { char *k; double v; struct kv *next; };
#define NB 65537
static struct kv *tab[NB];
static unsigned hash(const char *s){ unsigned h = 5381; while(*s) h = h*33 + (unsigned char)*s++; return h % NB; }
static void put(const char *k, double v){ unsigned h = hash(k); struct kv *e = malloc(sizeof *e); e->k = strdup(k); e->v = v; e->next = tab[h]; tab[h] = e; }
static struct kv *get(const char *k){ for(struct kv *e = tab[hash(k)]; e; e = e->next) if(!strcmp(e->k, k)) return e; return NULL; }
static FILE *out;

int vf_param(const char *name, int d){ struct kv *e = get(name); return e ? (int) e->v : d; }
float vf_sym(const char *name, int i){ char b[200]; snprintf(b, sizeof b, "%s[%d]", name, i); struct kv *e = get(b); return e ? (float) e->v : 0.0f; }
static double h01(const char *s){ unsigned h = 17; while(*s) h = h*31 + (unsigned char)*s++; return (h % 1000) / 1000.0; }
float vf_uf(const char *name, float x){ double h = h01(name); return (float)(0.25 + 0.5*x + 0.3*sin(x + 3*h) + 0.2*h); }
float vf_uf2(const char *name, float x, float y){ double h = h01(name); return (float)(0.1 + 0.5*x + 0.4*y + 0.3*sin(x + 2*y + 3*h)); }
void *vf_alloc(size_t n, int mis){ char *p; if(mis == 0){ if(posix_memalign((void**)&p, 128, n + 64 + 1)) abort(); char *q = malloc(1); (void) q;
#ifdef VF_ASAN
        if(posix_memalign((void**)&p, 64, n ? n : 1)) abort(); return p;
#else
        return p + 64;
#endif
    }
    if(posix_memalign((void**)&p, 64, n + mis + 1)) abort(); return p + mis; }
void vf_readonly(const void *p, int on){ (void)p; (void)on; }
void vf_check_eq(const char *t, int i, float g, float w){ fprintf(out, "EQ %s %d %a %a\n", t, i, (double)g, (double)w); }
void vf_check(const char *t, int c){ fprintf(out, "CHK %s %d\n", t, !!c); }
void vf_assume(int c){ if(!c){ fprintf(out, "ASSUME-FAILED\n"); fflush(out); exit(0);} }
int vf_rand(void){ static unsigned long long k; return (int)((1103515245ull * (k++ + 12345) >> 3) & 0x7fffffff); }
void vf_mark(const char *t){ (void) t; }
int vf_heap_live(void){ return 0; }
int main(int argc, char **argv){
    (void) argc;
    FILE *f = fopen(argv[1], "r"); char k[256]; double v;
    if(!f) return 3;
    while(fscanf(f, "%255s %la", k, &v) == 2) put(k, v);
    fclose(f);
    out = fopen(argv[2], "w");
    if(!out) return 3;
    harness();
    fprintf(out, "DONE\n");
    fclose(out);
    return 0;
}

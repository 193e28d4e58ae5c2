/* Networks with uninterpreted activations, built through the public API. */
#ifndef NETS_H
#define NETS_H
#include "vf.h"
#include "neuralnet.h"
#include "activation.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <dlfcn.h>

/* user-supplied activations act0..act7, found by the library's own dlopen/dlsym path */
#define NACT 8
#define DEFACT(k) \
  static void act##k(const int n, float *ar){ for(int i = 0; i < n; i++) ar[i] = vf_uf("act" #k, ar[i]); } \
  static void act##k##_derivative(const int n, const float *a, float *g){ for(int i = 0; i < n; i++) g[i] *= vf_uf("der" #k, a[i]); }
DEFACT(0) DEFACT(1) DEFACT(2) DEFACT(3) DEFACT(4) DEFACT(5) DEFACT(6) DEFACT(7)

static int dl_handles;
static struct { const char *n; void *f; } dl_tab[] = {
  {"act0", (void*)act0}, {"act0_derivative", (void*)act0_derivative}, {"act1", (void*)act1}, {"act1_derivative", (void*)act1_derivative},
  {"act2", (void*)act2}, {"act2_derivative", (void*)act2_derivative}, {"act3", (void*)act3}, {"act3_derivative", (void*)act3_derivative},
  {"act4", (void*)act4}, {"act4_derivative", (void*)act4_derivative}, {"act5", (void*)act5}, {"act5_derivative", (void*)act5_derivative},
  {"act6", (void*)act6}, {"act6_derivative", (void*)act6_derivative}, {"act7", (void*)act7}, {"act7_derivative", (void*)act7_derivative} };
void *dlopen(const char *f, int flag){ (void) f; (void) flag; dl_handles++; return &dl_handles; }
int   dlclose(void *h){ (void) h; dl_handles--; return 0; }
char *dlerror(void){ return NULL; }
void *dlsym(void *restrict h, const char *restrict s){ (void) h; for(unsigned i = 0; i < sizeof dl_tab / sizeof dl_tab[0]; i++) if(!strcmp(dl_tab[i].n, s)) return dl_tab[i].f; return NULL; }

static char *act_names[] = { "act0@u.so", "act1@u.so", "act2@u.so", "act3@u.so", "act4@u.so", "act5@u.so", "act6@u.so", "act7@u.so" };
static const char *act_ufs[] = { "act0", "act1", "act2", "act3", "act4", "act5", "act6", "act7" };
static const char *der_ufs[] = { "der0", "der1", "der2", "der3", "der4", "der5", "der6", "der7" };

static int L;            /* number of layers */
static int S[16];        /* sizes */
static float *INIT[32];  /* copies of weights and biases as first given */

static void net_shape(void)
{
    static const char *nm[] = {"s0","s1","s2","s3","s4","s5","s6","s7","s8"};
    L = vf_param("L", 1);
    for(int i = 0; i <= L; i++) S[i] = vf_param(nm[i], 1);
}

/* the parameters of layer i: symbolic W<i>[k], B<i>[k] */
static float wval(int i, int k){ static const char *n[] = {"W0","W1","W2","W3","W4","W5","W6","W7"}; return vf_sym(n[i], k); }
static float bval(int i, int k){ static const char *n[] = {"B0","B1","B2","B3","B4","B5","B6","B7"}; return vf_sym(n[i], k); }

static neuralnet_t *net_make(char *acts[])
{
    neuralnet_t *nn = neuralnet_create(L, S, acts);
    vf_check("network created", nn != NULL);
    if(!nn) return NULL;
    for(int i = 0; i < L; i++){
        for(int k = 0; k < S[i]*S[i+1]; k++) nn->layer[i].weight[k] = wval(i, k);
        for(int k = 0; k < S[i+1]; k++)      nn->layer[i].bias[k]   = bval(i, k);
    }
    return nn;
}
/* every parameter still has the value it was given */
static void net_unchanged(neuralnet_t *nn, const char *tag)
{
    for(int i = 0; i < L; i++){
        for(int k = 0; k < S[i]*S[i+1]; k++) vf_check_eq(tag, 1000000 + i*100000 + k, nn->layer[i].weight[k], wval(i, k));
        for(int k = 0; k < S[i+1]; k++)      vf_check_eq(tag, 2000000 + i*100000 + k, nn->layer[i].bias[k], bval(i, k));
    }
}
static void net_readonly(neuralnet_t *nn, int on)
{
    for(int i = 0; i < L; i++){ vf_readonly(nn->layer[i].weight, on); vf_readonly(nn->layer[i].bias, on); }
    vf_readonly(nn->layer, on); vf_readonly(nn, on);
}
#endif

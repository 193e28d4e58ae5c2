/* Reference definitions of forward propagation and gradient (opaque activations, derivatives and loss). */
#ifndef REFERENCE_H
#define REFERENCE_H
#include "nets.h"
#include "loss.h"

static void op_loss(const unsigned int n, const float *p, const float *t, float *out){ for(unsigned int i = 0; i < n; i++) out[i] = vf_uf2("dloss", p[i], t[i]); }

typedef struct { float *w[9], *b[9]; } ref_t;          /* parameters, plain arrays */

static ref_t ref_make(void)
{
    ref_t r;
    for(int l = 0; l < L; l++){
        r.w[l] = malloc(S[l]*S[l+1]*sizeof(float)); r.b[l] = malloc(S[l+1]*sizeof(float));
        for(int k = 0; k < S[l]*S[l+1]; k++) r.w[l][k] = wval(l, k);
        for(int k = 0; k < S[l+1]; k++)      r.b[l][k] = bval(l, k);
    }
    return r;
}
static int ref_count(void){ int n = 0; for(int l = 0; l < L; l++) n += (S[l] + 1) * S[l+1]; return n; }
static float *ref_param(ref_t *r, int k)
{
    for(int l = 0; l < L; l++){
        if(k < S[l+1]) return &r->b[l][k];
        k -= S[l+1];
        if(k < S[l]*S[l+1]) return &r->w[l][k];
        k -= S[l]*S[l+1];
    }
    return NULL;
}
static void ref_forward(ref_t *r, const float *x, float **act)     /* act[0..L], allocated here */
{
    act[0] = malloc(S[0]*sizeof(float));
    for(int i = 0; i < S[0]; i++) act[0][i] = x[i];
    for(int l = 0; l < L; l++){
        act[l+1] = malloc(S[l+1]*sizeof(float));
        for(int j = 0; j < S[l+1]; j++){
            float z = r->b[l][j];
            for(int i = 0; i < S[l]; i++) z += act[l][i] * r->w[l][i*S[l+1]+j];
            act[l+1][j] = vf_uf(act_ufs[l], z);
        }
    }
}
/* derivative of the loss by every parameter, biases then weights per layer */
static void ref_gradient(ref_t *r, const float *x, const float *t, float *grad)
{
    float *act[10];
    ref_forward(r, x, act);
    float *delta = malloc(S[L]*sizeof(float));
    for(int j = 0; j < S[L]; j++) delta[j] = vf_uf2("dloss", act[L][j], t[j]) * vf_uf(der_ufs[L-1], act[L][j]);
    int end = ref_count();
    for(int l = L - 1; l >= 0; l--){
        int o = end - (S[l] + 1) * S[l+1];
        for(int j = 0; j < S[l+1]; j++) grad[o + j] = delta[j];
        for(int i = 0; i < S[l]; i++) for(int j = 0; j < S[l+1]; j++) grad[o + S[l+1] + i*S[l+1] + j] = act[l][i] * delta[j];
        end = o;
        if(l > 0){
            float *nd = malloc(S[l]*sizeof(float));
            for(int i = 0; i < S[l]; i++){
                float s = 0.0f;
                for(int j = 0; j < S[l+1]; j++) s += r->w[l][i*S[l+1]+j] * delta[j];
                nd[i] = s * vf_uf(der_ufs[l-1], act[l][i]);
            }
            free(delta); delta = nd;
        }
    }
    free(delta);
    for(int l = 0; l <= L; l++) free(act[l]);
}
static void net_same(neuralnet_t *nn, ref_t *r, const char *tag)
{
    for(int l = 0; l < L; l++){
        for(int k = 0; k < S[l+1]; k++)      vf_check_eq(tag, 2000000 + l*100000 + k, nn->layer[l].bias[k], r->b[l][k]);
        for(int k = 0; k < S[l]*S[l+1]; k++) vf_check_eq(tag, 1000000 + l*100000 + k, nn->layer[l].weight[k], r->w[l][k]);
    }
}
#endif

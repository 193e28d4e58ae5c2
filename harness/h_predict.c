/* C01: prediction equals the network definition. */
#include "nets.h"

/* built-in activations of layer l in scenario bi */
static const char *bname(int bi, int l){ return bi == 1 ? (l ? "linear" : "relu") : bi == 2 ? (l ? "hard_sigmoid" : "softsign") : (l ? "relu" : "linear"); }
static float bval_of(const char *n, float z)
{
    if(!strcmp(n, "relu")) return z > 0.0f ? z : 0.0f;
    if(!strcmp(n, "softsign")) return z / (1.0f + (z < 0.0f ? -z : z));
    if(!strcmp(n, "hard_sigmoid")) return z < -2.5f ? 0.0f : z > 2.5f ? 1.0f : 0.2f * z + 0.5f;
    return z;
}

void harness(void)
{
    net_shape();
    int n_in = S[0], n_out = S[L];
    neuralnet_t *nn = net_make(act_names);
    if(!nn) return;
    int mis_in = vf_param("mis_in", 0), mis_out = vf_param("mis_out", 0);
    int bi = vf_param("bi", 0);
    if(bi) for(int l = 0; l < L; l++) nn->layer[l].activation_func = get_activation_func(bname(bi, l));
    float *x = vf_alloc(n_in * sizeof(float), mis_in);
    float *y = vf_alloc(n_out * sizeof(float), mis_out);
    int zmask = vf_param("zmask", 0), omask = vf_param("omask", 0);
    for(int i = 0; i < n_in; i++) x[i] = (zmask >> (i % 16) & 1) ? 0.0f : (omask >> (i % 16) & 1) ? 1.0f : vf_sym("x", i);

    net_readonly(nn, 1); vf_readonly(x, 1);
    neuralnet_predict(nn, x, y);
    net_readonly(nn, 0); vf_readonly(x, 0);

    /* definition */
    float *cur = malloc(n_in * sizeof(float));
    for(int i = 0; i < n_in; i++) cur[i] = (zmask >> (i % 16) & 1) ? 0.0f : (omask >> (i % 16) & 1) ? 1.0f : vf_sym("x", i);
    for(int l = 0; l < L; l++){
        float *nxt = malloc(S[l+1] * sizeof(float));
        for(int j = 0; j < S[l+1]; j++){
            float z = bval(l, j);
            for(int i = 0; i < S[l]; i++) z += cur[i] * wval(l, i * S[l+1] + j);
            nxt[j] = bi ? bval_of(bname(bi, l), z) : vf_uf(act_ufs[l], z);
        }
        free(cur); cur = nxt;
    }
    for(int j = 0; j < n_out; j++) vf_check_eq("output", j, y[j], cur[j]);
    free(cur);
    neuralnet_free(nn);
}

/* C07: backpropagation returns the gradient of the loss. */
#include "reference.h"

void harness(void)
{
    net_shape();
    neuralnet_t *nn = net_make(act_names);
    if(!nn) return;
    neuralnet_set_loss(nn, "mean_squared_error");
    vf_check("loss set", nn->loss != NULL);
    int mse = vf_param("mse", 0);
    if(!mse) nn->loss = op_loss;
    int np = neuralnet_total_n_parameters(nn);
    vf_check("count", np == ref_count());
    float *x = vf_alloc(S[0]*sizeof(float), vf_param("mis_x", 0)), *t = vf_alloc(S[L]*sizeof(float), vf_param("mis_t", 0));
    float *g = vf_alloc(np*sizeof(float), 0);
    int zmask = vf_param("zmask", 0), omask = vf_param("omask", 0);
    for(int i = 0; i < S[0]; i++) x[i] = (zmask >> (i % 16) & 1) ? 0.0f : (omask >> (i % 16) & 1) ? 1.0f : vf_sym("x", i);
    for(int i = 0; i < S[L]; i++) t[i] = vf_sym("t", i);
    for(int i = 0; i < np; i++) g[i] = vf_sym("junk", i);
    net_readonly(nn, 1); vf_readonly(x, 1); vf_readonly(t, 1);
    neuralnet_backpropagation(nn, x, t, g);
    net_readonly(nn, 0);
    ref_t r = ref_make();
    float *w = malloc(np*sizeof(float));
    if(mse){            /* built-in loss, one layer */
        float *act[9];
        ref_forward(&r, x, act);
        for(int j = 0; j < S[1]; j++){
            float d = 2.0f * (act[1][j] - t[j]) / S[1] * vf_uf("der0", act[1][j]);
            w[j] = d;
            for(int i = 0; i < S[0]; i++) w[S[1] + i*S[1] + j] = x[i] * d;
        }
    } else ref_gradient(&r, x, t, w);
    for(int i = 0; i < np; i++) vf_check_eq("gradient", i, g[i], w[i]);
    neuralnet_free(nn);
}

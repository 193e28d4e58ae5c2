/* C17: batch prediction equals sample by sample prediction. */
#include "reference.h"
#include "neuralnet_predict_batch.h"

/* an activation that depends on the whole layer and its width */
static void act_layer(const int n, float *ar){ float s = 0.0f; for(int i = 0; i < n; i++) s += ar[i]; for(int i = 0; i < n; i++) ar[i] = vf_uf2("lay", ar[i], s + n); }

void harness(void)
{
    net_shape();
    int n = vf_param("n", 2), whole = vf_param("whole", 0);
    neuralnet_t *nn = net_make(act_names);
    if(!nn) return;
    if(whole) nn->layer[L-1].activation_func = act_layer;
    if(whole == 2) nn->layer[0].activation_func = act_layer;
    float *X = vf_alloc(n*S[0]*sizeof(float), vf_param("mis_x", 0)), *Y = vf_alloc(n*S[L]*sizeof(float), vf_param("mis_y", 0));
    for(int i = 0; i < n*S[0]; i++) X[i] = vf_sym("x", i);
    for(int i = 0; i < n*S[L]; i++) Y[i] = vf_sym("junk", i);
    net_readonly(nn, 1); vf_readonly(X, 1);
    neuralnet_predict_batch(nn, n, X, Y);
    net_readonly(nn, 0);
    float *one = vf_alloc(S[L]*sizeof(float), 0);
    for(int s = 0; s < n; s++){
        if(whole){
            neuralnet_predict(nn, X + s*S[0], one);
            for(int j = 0; j < S[L]; j++) vf_check_eq("output", s*S[L] + j, Y[s*S[L] + j], one[j]);
        } else {
            ref_t r = ref_make(); float *act[9];
            ref_forward(&r, X + s*S[0], act);
            for(int j = 0; j < S[L]; j++) vf_check_eq("output", s*S[L] + j, Y[s*S[L] + j], act[L][j]);
        }
    }
    neuralnet_free(nn);
}

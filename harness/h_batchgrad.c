/* C09: the batch gradient is the mean over exactly the samples of the batch. */
#include "train.h"

void harness(void)
{
    net_shape();
    neuralnet_t *nn = net_make(act_names);
    if(!nn) return;
    neuralnet_set_loss(nn, "mean_squared_error");
    nn->loss = op_loss;
    int n = vf_param("n", 3), bs = vf_param("batch", 2), start = vf_param("start", 0), perm = vf_param("perm", 0);
    int np = ref_count();
    float *X = data("X", n, S[0], vf_param("mis_x", 0)), *Y = data("Y", n, S[L], vf_param("mis_y", 0));
    float *g = vf_alloc(np * sizeof(float), 0);
    for(int i = 0; i < np; i++) g[i] = vf_sym("junk", i);
    optimizer_t *opt = OPTIMIZER(SGD_new(nn, OPTIMIZER_PROPERTIES(.batchsize = bs, .shuffle = false, .progress = NULL), SGD_PROPERTIES(.learning_rate = 0.1f)));
    vf_check("optimizer created", opt != NULL);
    if(!opt) return;
    /* some order of the samples */
    opt->n_pivot = n;
    opt->pivot = malloc(n * sizeof(unsigned int));
    for(int i = 0; i < n; i++) opt->pivot[i] = perm == 0 ? i : perm == 1 ? n - 1 - i : (unsigned)((i + perm) % n);
    unsigned int pos = start;
    net_readonly(nn, 1); vf_readonly(X, 1); vf_readonly(Y, 1); vf_readonly(opt->pivot, 1);
    optimizer_calc_batch_gradient(opt, n, X, Y, &pos, g);
    net_readonly(nn, 0); vf_readonly(opt->pivot, 0);
    int used = n - start < bs ? n - start : bs;
    vf_check("position", pos == (unsigned)(start + used));
    float *sum = malloc(np * sizeof(float)), *one = malloc(np * sizeof(float));
    for(int i = 0; i < np; i++) sum[i] = 0.0f;
    ref_t r = ref_make();
    for(int b = 0; b < used; b++){
        int s = opt->pivot[start + b];
        ref_gradient(&r, X + s * S[0], Y + s * S[L], one);
        for(int i = 0; i < np; i++) sum[i] += one[i];
    }
    for(int i = 0; i < np; i++) vf_check_eq("batch gradient", i, g[i], sum[i] / used);
    optimizer_free(opt);
    neuralnet_free(nn);
}

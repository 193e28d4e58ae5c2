/* C11-C14: the optimizers follow their update rule over a training history.
   opt: 0 SGD, 1 RMSprop, 2 adagrad, 3 adam.  Two optimizers may be alive and take turns. */
#include "train.h"
#include <math.h>

typedef struct {
    int kind, n, bs, np, steps;
    float lr, decay, mom, rho, b1, b2, wd, c1, c2;
    int nesterov;
    float *v, *r, *s;
    float *X, *Y;
    neuralnet_t *nn;
    optimizer_t *opt;
    ref_t ref;
} trainer;

static float h_param(const char *name, int k, int mode, float fixed)   /* mode 0: off, 1: symbolic, 2: the given number */
{ return mode == 0 ? 0.0f : mode == 1 ? vf_sym(name, k) : fixed; }

static trainer *make(int k, int kind)
{
    trainer *t = malloc(sizeof *t);
    t->kind = kind; t->steps = 0; t->np = ref_count();
    t->n = k == 0 ? vf_param("n", 1) : vf_param("n2", 1);
    t->bs = k == 0 ? vf_param("batch", 1) : vf_param("batch2", 1);
    int md = vf_param("decay", 0), mm = vf_param("momentum", 0), mw = vf_param("wd", 0);
    t->lr = vf_param("lrc", 0) ? 0.125f : vf_sym("lr", k);
    t->decay = h_param("decay", k, md, 0.25f); t->mom = h_param("mom", k, mm, 0.5f); t->nesterov = vf_param("nesterov", 0);
    t->rho = vf_param("rhoc", 0) ? 0.75f : vf_sym("rho", k);
    t->b1 = vf_param("rhoc", 0) ? 0.75f : vf_sym("b1", k); t->b2 = vf_param("rhoc", 0) ? 0.875f : vf_sym("b2", k); t->wd = h_param("wd", k, mw, 0.25f);
    if(md == 1) vf_assume(t->decay > 0.0f);
    if(mm == 1 && (kind == 0 || kind == 1)) vf_assume(t->mom > 0.0f);
    if(kind == 3){
        if(!vf_param("rhoc", 0)){ vf_assume(t->b1 > 0.0f); vf_assume(t->b1 < 1.0f); vf_assume(t->b2 > 0.0f); vf_assume(t->b2 < 1.0f); }
        if(mw == 1) vf_assume(t->wd > 0.0f);
    }
    t->c1 = t->c2 = 1.0f;
    t->X = data(k == 0 ? "X" : "X2", t->n, S[0], vf_param("mis_x", 0)); t->Y = data(k == 0 ? "Y" : "Y2", t->n, S[L], vf_param("mis_y", 0));
    t->nn = net_make(act_names);
    neuralnet_set_loss(t->nn, "mean_squared_error");
    optimizer_properties_t op = OPTIMIZER_PROPERTIES(.batchsize = t->bs, .shuffle = vf_param("shuffle", 0), .progress = NULL);
    switch(kind){
        case 0: t->opt = OPTIMIZER(SGD_new(t->nn, op, SGD_PROPERTIES(.learning_rate = t->lr, .decay = t->decay, .momentum = t->mom, .nesterov = t->nesterov))); break;
        case 1: t->opt = OPTIMIZER(RMSprop_new(t->nn, op, RMSPROP_PROPERTIES(.learning_rate = t->lr, .decay = t->decay, .momentum = t->mom, .nesterov = t->nesterov, .rho = t->rho))); break;
        case 2: t->opt = OPTIMIZER(adagrad_new(t->nn, op, ADAGRAD_PROPERTIES(.learning_rate = t->lr, .decay = t->decay))); break;
        default: t->opt = OPTIMIZER(adam_new(t->nn, op, ADAM_PROPERTIES(.learning_rate = t->lr, .beta_1 = t->b1, .beta_2 = t->b2, .weight_decay = t->wd))); break;
    }
    vf_check("optimizer created", t->opt != NULL);
    t->nn->loss = op_loss;
    t->ref = ref_make();
    t->v = malloc(t->np*sizeof(float)); t->r = malloc(t->np*sizeof(float)); t->s = malloc(t->np*sizeof(float));
    for(int i = 0; i < t->np; i++) t->v[i] = t->r[i] = t->s[i] = 0.0f;
    return t;
}

static void ref_epoch(trainer *t, const unsigned *order)
{
    float *g = malloc(t->np*sizeof(float)), *one = malloc(t->np*sizeof(float)), *d = malloc(t->np*sizeof(float));
    for(int pos = 0; pos < t->n; ){
        if(t->mom > 0.0f && t->kind <= 1){
            for(int i = 0; i < t->np; i++) t->v[i] = t->mom * t->v[i];
            if(t->nesterov) for(int i = 0; i < t->np; i++) *ref_param(&t->ref, i) += t->v[i];
        }
        int used = t->n - pos < t->bs ? t->n - pos : t->bs;
        for(int i = 0; i < t->np; i++) g[i] = 0.0f;
        for(int b = 0; b < used; b++){
            int s = order[pos + b];
            ref_gradient(&t->ref, t->X + s*S[0], t->Y + s*S[L], one);
            for(int i = 0; i < t->np; i++) g[i] += one[i];
        }
        for(int i = 0; i < t->np; i++) g[i] /= used;
        pos += used;
        if(t->kind != 3 && t->decay > 0.0f) t->lr = t->lr / (1.0f + t->decay * t->steps);
        t->steps++;
        for(int i = 0; i < t->np; i++) switch(t->kind){
            case 0: d[i] = -t->lr * g[i]; break;
            case 1: t->r[i] = t->rho * t->r[i] + (1.0f - t->rho) * g[i] * g[i]; d[i] = -t->lr * g[i] / (sqrtf(t->r[i]) + 1e-7f); break;
            case 2: t->r[i] += g[i] * g[i]; d[i] = -t->lr * g[i] / (sqrtf(t->r[i]) + 1e-7f); break;
            case 3: break;
        }
        if(t->kind == 3){
            t->c1 *= t->b1; t->c2 *= t->b2;
            for(int i = 0; i < t->np; i++){
                t->s[i] = t->b1 * t->s[i] + (1.0f - t->b1) * g[i];
                t->r[i] = t->b2 * t->r[i] + (1.0f - t->b2) * g[i] * g[i];
                float mh = t->s[i] / (1.0f - t->c1), vh = t->r[i] / (1.0f - t->c2);
                d[i] = -t->lr * mh / (sqrtf(vh) + 1e-8f);
                if(t->wd > 0.0f) d[i] -= t->wd * *ref_param(&t->ref, i);
            }
        }
        if(t->mom > 0.0f && t->kind <= 1){
            for(int i = 0; i < t->np; i++){
                t->v[i] += d[i];
                *ref_param(&t->ref, i) += t->nesterov ? d[i] : t->v[i];
            }
        } else for(int i = 0; i < t->np; i++) *ref_param(&t->ref, i) += d[i];
    }
    free(g); free(one); free(d);
}

void harness(void)
{
    net_shape();
    int kind = vf_param("opt", 0), epochs = vf_param("epochs", 1), two = vf_param("two", 0), full = vf_param("full", 0);
    trainer *a = make(0, kind), *b = two ? make(1, two == 2 ? vf_param("opt2", kind) : kind) : NULL;
    static const char *en[] = {"after epoch 1", "after epoch 2", "after epoch 3", "after epoch 4"};
    float res[8];
    for(int e = 0; e < epochs; e++){
        for(int w = 0; w < 1 + !!two; w++){
            trainer *t = w ? b : a;
            if(full) optimizer_run_epoch(t->opt, t->n, t->X, t->Y, 0, NULL, NULL, res);
            else {
                if(!t->opt->pivot){ t->opt->pivot = malloc(t->n * sizeof(unsigned)); t->opt->n_pivot = t->n; for(int i = 0; i < t->n; i++) t->opt->pivot[i] = (i + 1) % t->n; }
                t->opt->run_epoch(t->opt, t->n, t->X, t->Y);
            }
            ref_epoch(t, t->opt->pivot);
        }
        if(vf_param("each", 0)) net_same(a->nn, &a->ref, en[e]);
    }
    net_same(a->nn, &a->ref, "after training");
    if(b) net_same(b->nn, &b->ref, "other optimizer");
    optimizer_free(a->opt); neuralnet_free(a->nn);
    if(b){ optimizer_free(b->opt); neuralnet_free(b->nn); }
}

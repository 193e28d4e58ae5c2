/* C10: the order of the samples.  Real optimizers run epochs; backpropagation, which the library calls once per sample, is
   replaced by a function that records which sample is being used (and the arithmetic around it by nothing). */
#include "cb.h"
#include "optimizer.h"
#include "optimizer_implementations.h"
#include "neuralnet.h"
#include "metrics.h"
#ifndef P_MAX
#define P_MAX 3
#endif
#ifndef P_EPOCHS
#define P_EPOCHS 1
#endif
#ifndef P_MODE
#define P_MODE 0                              /* 0: shuffling is an input; 1: on; 2: off */
#endif
#ifndef P_BS
#define P_BS 2
#endif
#ifndef P_BS2
#define P_BS2 2
#endif
#define MAXV (P_MAX + 2)
static float X[P_MAX], Y[P_MAX];
static int order[MAXV]; static int visits;
void neuralnet_backpropagation(const neuralnet_t *net, const float *x, const float *y, float *grad)
{
    int k = (int)(y - Y);
    CHECK(x - X == y - Y, "input and target belong to the same sample");
    if (visits < MAXV) order[visits] = k;
    visits++;
}
void neuralnet_update(neuralnet_t *net, const float *d) { }
void evaluate(neuralnet_t *net, const int n, const float *vx, const float *vy, metric_func m[], float *res) { }
void vector_accumulate_unaligned(const int n, float *a, const float *b) { }
void vector_accumulate(const int n, float *a, const float *b) { }
void vector_divide_by_scalar(const int n, float *a, const float d) { }
void vector_scale(const int n, float *a, const float d) { }
static float metric(unsigned int n, const float *p, const float *t) { return 0.0f; }
static neuralnet_t nn; static layer_t layer;
static metric_func mf[2] = { metric, NULL };

static void epoch(optimizer_t *o, unsigned n, int bs, int shuffled)
{
    float res[2];
    visits = 0;
    for (int i = 0; i < MAXV; i++) order[i] = -1;
    optimizer_run_epoch(o, n, X, Y, 0, NULL, NULL, res);
    CHECK(visits == (int) n, "as many samples are used in an epoch as the training set has");
    for (unsigned v = 0; v < n; v++) {
        CHECK(order[v] >= 0 && order[v] < (int) n, "every sample used belongs to the training set");
        for (unsigned w = v + 1; w < n; w++) CHECK(order[v] != order[w], "no sample is used twice in an epoch");
    }
    if (!shuffled)
        for (unsigned v = 0; v < n; v++) CHECK(order[v] / bs == (int) v / bs, "without shuffling the samples are used in the original order");
}

static optimizer_t *make(int kind, int bs, int shuffle)
{
    optimizer_properties_t p = { .batchsize = bs, .shuffle = shuffle, .metrics = mf, .progress = NULL };
    if (kind == 0) return OPTIMIZER(SGD_new(&nn, p, SGD_PROPERTIES()));
    if (kind == 1) return OPTIMIZER(RMSprop_new(&nn, p, RMSPROP_PROPERTIES()));
    if (kind == 2) return OPTIMIZER(adagrad_new(&nn, p, ADAGRAD_PROPERTIES()));
    return OPTIMIZER(adam_new(&nn, p, ADAM_PROPERTIES()));
}

#ifndef P_KIND
#define P_KIND 0
#endif
void harness(void)
{
    int sizes[2] = { 1, 1 };
    neuralnet_t *net = neuralnet_create(1, sizes, NULL);
    nn = *net;
    memset(nn.layer[0].weight, 0, sizeof(float)); memset(nn.layer[0].bias, 0, sizeof(float));
    neuralnet_set_loss(&nn, "mean_squared_error");
#ifdef P_PERM
    /* every order is possible: bits of P_PERM select the permutation */
    optimizer_t *o = make(P_KIND, P_MAX, 1);
    for (int e = 0; e < P_EPOCHS; e++) epoch(o, P_MAX, P_MAX, 1);
    int perm[P_MAX]; int idx = 0;
    for (int a = 0; a < P_MAX; a++) { int smaller = 0; for (int b = a + 1; b < P_MAX; b++) smaller += order[b] < order[a]; idx = idx * (P_MAX - a) + smaller; }
#define R1(k) REACHIF(idx == (k), "order " #k);
#define R6(k) R1(k) R1(k+1) R1(k+2) R1(k+3) R1(k+4) R1(k+5)
#if P_MAX == 3
    R6(0)
#elif P_MAX == 2
    R1(0) R1(1)
#else
    R6(0) R6(6) R6(12) R6(18)
#endif
#else
    /* two optimizers, epochs in any interleaving, with training sets of any size */
    int bs[2], sh[2]; optimizer_t *o[2];
    for (int k = 0; k < 2; k++) {
        bs[k] = k ? P_BS2 : P_BS;
        sh[k] = P_MODE == 0 ? nd_bool() : P_MODE == 1;
        o[k] = k == 0 || P_EPOCHS > 1 ? make(P_KIND, bs[k], sh[k]) : NULL;
    }
    for (int e = 0; e < P_EPOCHS; e++) {
        int k = e == 0 ? 0 : nd_bool();
        unsigned n = (unsigned) nd_int(1, P_MAX);
        /* (every case on its own, with constants for the solver) */
        for (unsigned c = 1; c <= P_MAX; c++) if (n == c) { if (k) epoch(o[1], c, bs[1], sh[1]); else epoch(o[0], c, bs[0], sh[0]); }
    }
    for (int k = 0; k < 2; k++) if (o[k]) optimizer_free(o[k]);
    neuralnet_free(net);
    CHECK(vf_live == 0, "everything allocated is released");
    REACH("end");
#endif
}

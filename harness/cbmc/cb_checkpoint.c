/* C31: model checkpoints against a reference model.  neuralnet_save is replaced by a recorder. */
#include "cb.h"
#include "modelcheckpoint.h"
#include "optimizer.h"
#ifndef P_EPOCHS
#define P_EPOCHS 4
#endif
#ifndef P_INST
#define P_INST 2
#endif
#ifndef P_METRICS
#define P_METRICS 2
#endif
#define NAMELEN 6
static float m0(unsigned n, const float *p, const float *t) { return 0.0f; }
static metric_func mf[P_METRICS + 1];
static int saves; static const neuralnet_t *saved_nn; static char saved_name[160];
void neuralnet_save(const neuralnet_t *nn, const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    vf_vsnprintf(saved_name, sizeof(saved_name), fmt, ap);
    va_end(ap);
    saved_nn = nn; saves++;
}
struct model { int idx; bool greater; float best; int have; int named; };
static optimizer_t opt; static neuralnet_t net;
static callback_t *cb[P_INST]; static struct model md[P_INST]; static char name0[NAMELEN + 1], name1[NAMELEN + 1];
#define NAME(k) ((k) == 0 ? name0 : name1)
static void epoch(int k)
{
    bool valid = nd_bool();
    float r[2 * P_METRICS], r0[2 * P_METRICS];
    for (int i = 0; i < 2 * P_METRICS; i++) r0[i] = r[i] = nd_finite();
    int idx = md[k].idx >= 0 ? md[k].idx : valid ? P_METRICS : 0;
    ASSUME(valid || idx < P_METRICS);
    int before = saves;
    callback_run(cb[k], &opt, r, valid);
    for (int i = 0; i < 2 * P_METRICS; i++) CHECK(vf_bits(r[i]) == vf_bits(r0[i]), "the results are not changed");
    struct model *m = &md[k];
    float v = r0[idx];
    int better = !m->have || (m->greater ? v > m->best : v < m->best);
    if (better) { m->have = 1; m->best = v; }
    CHECK(saves - before == better, "the network is saved once exactly when the result improves");
    if (better) {
        CHECK(saved_nn == &net, "the network being trained is saved");
        if (m->named) CHECK(vf_eq_str(saved_name, NAME(k)), "the configured file name is used, literally");
        else CHECK(vf_eq_str(saved_name, "checkpoint.npz"), "the default file name is used");
    }
}

void harness(void)
{
    for (int i = 0; i < P_METRICS; i++) mf[i] = m0;
    mf[P_METRICS] = NULL;
    opt.metrics = mf; opt.nn = &net;
    for (int k = 0; k < P_INST; k++) {
        md[k].have = 0; md[k].best = 0;
#ifdef P_DEFAULT
        cb[k] = CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS()));
        md[k].idx = -1; md[k].greater = false; md[k].named = 0;
#else
        md[k].greater = nd_bool(); md[k].idx = nd_int(-1, 2 * P_METRICS - 1); md[k].named = nd_bool();
        bool verbose = nd_bool();
        if (md[k].named) { for (int i = 0; i < NAMELEN; i++) NAME(k)[i] = (char) nd_u8(); ASSUME(NAME(k)[0] != 0); }
        if (md[k].named) cb[k] = CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename = NAME(k), .greater_is_better = md[k].greater, .monitor_idx = md[k].idx, .verbose = verbose)));
        else cb[k] = CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.greater_is_better = md[k].greater, .monitor_idx = md[k].idx, .verbose = verbose)));
#endif
        CHECK(cb[k] != NULL, "the callback is created");
    }
    CHECK(saves == 0, "nothing is saved before the first epoch");
    for (int e = 0; e < P_EPOCHS; e++) {
        int k = P_INST > 1 ? nd_int(0, P_INST - 1) : 0;
        if (k == 0) epoch(0);
        else epoch(P_INST - 1);
    }
    REACHIF(saves == P_EPOCHS, "always improving");
    REACHIF(saves < P_EPOCHS, "not always improving");
    for (int k = 0; k < P_INST; k++) callback_free(cb[k]);
    CHECK(vf_live == 0, "everything allocated is released");
    REACH("end");
}

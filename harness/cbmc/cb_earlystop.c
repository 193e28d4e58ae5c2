/* C30: early stopping against a reference model; several instances, every sequence of results */
#include "cb.h"
#include "earlystopping.h"
#include "optimizer.h"
#ifndef P_EPOCHS
#define P_EPOCHS 4
#endif
#ifndef P_INST
#define P_INST 2
#endif
#ifndef P_METRICS
#define P_METRICS 2
#endif
static float m0(unsigned n, const float *p, const float *t) { return 0.0f; }
static metric_func mf[P_METRICS + 1];
struct model { int patience, idx; bool greater; float best; int have; int count; bool flag; };
static optimizer_t opt;
static callback_t *cb[P_INST]; static struct model md[P_INST];
static void epoch(int k)
{
    bool valid = nd_bool();
    float r[2 * P_METRICS], r0[2 * P_METRICS];
    for (int i = 0; i < 2 * P_METRICS; i++) r0[i] = r[i] = nd_finite();
    int idx = md[k].idx >= 0 ? md[k].idx : valid ? P_METRICS : 0;
    ASSUME(valid || idx < P_METRICS);
    callback_run(cb[k], &opt, r, valid);
    for (int i = 0; i < 2 * P_METRICS; i++) CHECK(vf_bits(r[i]) == vf_bits(r0[i]), "the results are not changed");
    struct model *m = &md[k];
    float v = r0[idx];
    if (!m->have || (m->greater ? v > m->best : v < m->best)) { m->have = 1; m->best = v; m->count = 0; }
    else m->count++;
    if (m->count > m->patience) m->flag = true;
    for (int j = 0; j < P_INST; j++)
        CHECK(earlystopping_do_stop((earlystopping_t*) cb[j]) == md[j].flag, "the stop flag is set exactly when patience is exhausted");
}

void harness(void)
{
    for (int i = 0; i < P_METRICS; i++) mf[i] = m0;
    mf[P_METRICS] = NULL;
    opt.metrics = mf;
    for (int k = 0; k < P_INST; k++) {
#ifdef P_DEFAULT
        cb[k] = CALLBACK(earlystopping_new(EARLYSTOPPING_SETTINGS()));
        md[k].patience = 10; md[k].idx = -1; md[k].greater = false;
#else
        md[k].patience = nd_int(0, P_EPOCHS); md[k].greater = nd_bool(); md[k].idx = nd_int(-1, 2 * P_METRICS - 1);
        cb[k] = CALLBACK(earlystopping_new(EARLYSTOPPING_SETTINGS(.patience = md[k].patience, .greater_is_better = md[k].greater, .monitor_idx = md[k].idx)));
#endif
        CHECK(cb[k] != NULL, "the callback is created");
        md[k].have = 0; md[k].count = 0; md[k].flag = false; md[k].best = 0;
        CHECK(!earlystopping_do_stop((earlystopping_t*) cb[k]), "no stop before the first epoch");
    }
    for (int e = 0; e < P_EPOCHS; e++) {
        int k = P_INST > 1 ? nd_int(0, P_INST - 1) : 0;
        if (k == 0) epoch(0);
        else epoch(P_INST - 1);
    }
    REACHIF(md[0].flag, "stopped");
    REACHIF(!md[0].flag, "not stopped");
    CHECK(!earlystopping_do_stop(NULL), "no stop without an instance");
    for (int k = 0; k < P_INST; k++) callback_free(cb[k]);
    CHECK(vf_live == 0, "everything allocated is released");
    REACH("end");
}

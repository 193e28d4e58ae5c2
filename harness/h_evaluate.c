/* C15: epoch results and evaluation are the mean metrics. */
#include "train.h"

static float m_uf0(const int n, const float *p, const float *t){ float s = 0.0f; for(int i = 0; i < n; i++) s += vf_uf2("m0", p[i], t[i]); return s; }
static float m_uf1(const int n, const float *p, const float *t){ float s = 0.0f; for(int i = 0; i < n; i++) s += vf_uf2("m1", p[i], t[i]); return s; }
static float m_uf2(const int n, const float *p, const float *t){ float s = 0.0f; for(int i = 0; i < n; i++) s += vf_uf2("m2", p[i], t[i]); return s; }
static float m_def(const int n, const float *p, const float *t){ float s = 0.0f; for(int i = 0; i < n; i++) s += (p[i] - t[i]) * (p[i] - t[i]); return s / n; }
static float m_mae(const int n, const float *p, const float *t){ float s = 0.0f; for(int i = 0; i < n; i++) s += p[i] < t[i] ? t[i] - p[i] : p[i] - t[i]; return s / n; }

static void expect(const char *tag, ref_t *r, int n, const float *X, const float *Y, metric_func *mf, int nm, const float *res)
{
    for(int k = 0; k < nm; k++){
        float sum = 0.0f;
        for(int s = 0; s < n; s++){
            float *act[9];
            ref_forward(r, X + s*S[0], act);
            sum += mf[k](S[L], act[L], Y + s*S[L]);
        }
        vf_check_eq(tag, k, res[k], sum / n);
    }
}
static void epoch_nothing(optimizer_t *o, const unsigned n, const float *X, const float *Y){ (void) o; (void) n; (void) X; (void) Y; }

void harness(void)
{
    net_shape();
    int mode = vf_param("mode", 0), n = vf_param("n", 2), nv = vf_param("nv", 0), nm = vf_param("nm", 2);
    metric_func all[4] = { m_uf0, m_uf1, m_uf2, NULL };
    metric_func mf[4] = { NULL, NULL, NULL, NULL }, def[2] = { m_def, NULL }, def2[2] = { m_mae, NULL };
    for(int k = 0; k < nm; k++) mf[k] = all[(k + vf_param("first", 0)) % 3];
    neuralnet_t *nn = net_make(act_names);
    if(!nn) return;
    neuralnet_set_loss(nn, "mean_squared_error");
    float *X = data("X", n, S[0], vf_param("mis_x", 0)), *Y = data("Y", n, S[L], vf_param("mis_y", 0));
    float *VX = data("VX", nv ? nv : 1, S[0], vf_param("mis_x", 0)), *VY = data("VY", nv ? nv : 1, S[L], vf_param("mis_y", 0));
    vf_readonly(X, 1); vf_readonly(Y, 1); vf_readonly(VX, 1); vf_readonly(VY, 1);
    int usenull = vf_param("vnull", 0);
    ref_t r = ref_make();
    if(mode == 0){
        float *res = vf_alloc(nm * sizeof(float), vf_param("mis_r", 0));
        net_readonly(nn, 1);
        evaluate(nn, n, X, Y, mf, res);
        net_readonly(nn, 0);
        expect("result", &r, n, X, Y, mf, nm, res);
    } else {
        /* a whole epoch with the training step replaced by nothing: what is reported is the evaluation */
        int dflt = vf_param("dflt", 0);
        optimizer_t *other = NULL; neuralnet_t *nn2 = NULL;
        optimizer_t *opt = OPTIMIZER(SGD_new(nn, OPTIMIZER_PROPERTIES(.batchsize = 2, .shuffle = false, .progress = NULL, .metrics = dflt ? NULL : mf), SGD_PROPERTIES(.learning_rate = 0.1f)));
        if(vf_param("other", 0)){
            nn2 = net_make(act_names);
            neuralnet_set_loss(nn2, "mean_absolute_error");
            other = OPTIMIZER(adagrad_new(nn2, OPTIMIZER_PROPERTIES(.batchsize = 2, .shuffle = false, .progress = NULL), ADAGRAD_PROPERTIES(.learning_rate = 0.1f)));
            other->run_epoch = epoch_nothing;
        }
        int cnt = dflt ? 1 : nm, has = nv > 0 && usenull == 0;
        int tot = has ? 2*cnt : cnt;
        float *res = vf_alloc(tot * sizeof(float), vf_param("mis_r", 0));
        opt->run_epoch = epoch_nothing;
        net_readonly(nn, 1);
        optimizer_run_epoch(opt, n, X, Y, nv, usenull == 1 ? NULL : VX, usenull == 2 ? NULL : VY, res);
        net_readonly(nn, 0);
        expect("training result", &r, n, X, Y, dflt ? def : mf, cnt, res);
        if(has) expect("validation result", &r, nv, VX, VY, dflt ? def : mf, cnt, res + cnt);
        if(other){
            float r2[1];
            optimizer_run_epoch(other, n, X, Y, 0, NULL, NULL, r2);
            expect("other optimizer", &r, n, X, Y, def2, 1, r2);
            vf_check("own metrics", optimizer_get_n_metrics(opt) == cnt);
            optimizer_run_epoch(opt, n, X, Y, nv, usenull == 1 ? NULL : VX, usenull == 2 ? NULL : VY, res);
            expect("training result again", &r, n, X, Y, dflt ? def : mf, cnt, res);
            optimizer_free(other); neuralnet_free(nn2);
        }
        optimizer_free(opt);
    }
    net_unchanged(nn, "network");
    neuralnet_free(nn);
}

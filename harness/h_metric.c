/* C06: metrics compute their definition. */
#include "nets.h"
#include "metrics.h"
#include <math.h>

static float absf(float x){ return x < 0.0f ? -x : x; }

void harness(void)
{
    static const char *names[] = {"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error","binary_crossentropy","categorical_crossentropy","binary_accuracy","categorical_accuracy"};
    int k = vf_param("metric", 0), n = vf_param("n", 1), eqp = vf_param("eqp", 0);
    metric_func f = get_metric_func(names[k]);
    vf_check("metric found", f != NULL);
    if(!f) return;
    float *p = vf_alloc(n * sizeof(float), vf_param("mis_p", 0)), *t = vf_alloc(n * sizeof(float), vf_param("mis_t", 0));
    for(int i = 0; i < n; i++){
        /* eqp: bit mask of elements that share one value (ties) */
        p[i] = vf_sym("p", (eqp >> i & 1) ? 0 : i); t[i] = vf_sym("t", i);
        if(k == 5){ vf_assume(t[i] >= 0.0f); vf_assume(t[i] <= 1.0f); }
    }
    vf_readonly(p, 1); vf_readonly(t, 1);
    float r = f(n, p, t);
    vf_readonly(p, 0); vf_readonly(t, 0);
    float w = 0.0f;
    const float eps = 1e-7f;
    for(int i = 0; i < n; i++){
        float P = p[i], T = t[i];
        float C = P < eps ? eps : P > 1.0f - eps ? 1.0f - eps : P;
        switch(k){
            case 0: w += (P - T) * (P - T); break;
            case 1: w += absf(P - T); break;
            case 2: { float at = absf(T); w += 100.0f * absf(P - T) / (at < eps ? eps : at); break; }
            case 3: w -= T * logf(C) + (1.0f - T) * logf(1.0f - C); break;
            case 4: w -= T * logf(C); break;
            case 5: { /* rounding half away from zero; targets are 0..1 */
                float hit;
                if(T >= 0.5f) hit = P >= 0.5f ? (P < 1.5f ? 1.0f : 0.0f) : 0.0f;
                else          hit = P > -0.5f ? (P < 0.5f ? 1.0f : 0.0f) : 0.0f;
                w += hit; break; }
        }
    }
    if(k == 6){
        /* position of the first largest element, by definition: greater than all before, not less than all after */
        w = 0.0f;
        for(int i = 0; i < n; i++){
            float is = 1.0f;
            for(int j = 0; j < n; j++) if(j != i){
                if(j < i){ is = p[i] > p[j] ? is : 0.0f; is = t[i] > t[j] ? is : 0.0f; }
                else     { is = p[i] < p[j] ? 0.0f : is; is = t[i] < t[j] ? 0.0f : is; }
            }
            w += is;
        }
    } else w /= n;
    vf_check_eq("metric", 0, r, w);
}

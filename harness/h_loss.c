/* C05: loss routines return the derivative of the loss. */
#include "nets.h"
#include "loss.h"
#include <math.h>

void harness(void)
{
    static const char *names[] = {"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error","binary_crossentropy","categorical_crossentropy"};
    int k = vf_param("loss", 0), n = vf_param("n", 1);
    loss_func f = get_loss_func(names[k]);
    vf_check("loss found", f != NULL);
    if(!f) return;
    float *p = vf_alloc(n * sizeof(float), vf_param("mis_p", 0)), *t = vf_alloc(n * sizeof(float), vf_param("mis_t", 0)), *o = vf_alloc(n * sizeof(float), vf_param("mis_o", 0));
    for(int i = 0; i < n; i++){
        p[i] = vf_sym("p", i); t[i] = vf_sym("t", i);
        if(k == 1 || k == 2) vf_assume(p[i] != t[i]);        /* no derivative there */
    }
    vf_readonly(p, 1); vf_readonly(t, 1);
    f(n, p, t, o);
    for(int i = 0; i < n; i++){
        float P = vf_sym("p", i), T = vf_sym("t", i), w = 0.0f;
        float at = T < 0.0f ? -T : T;
        float den = at < 1e-7f ? 1e-7f : at;
        switch(k){
            case 0: w = 2.0f * (P - T) / n; break;
            case 1: w = (P > T ? 1.0f : -1.0f) / n; break;
            case 2: w = (P > T ? 100.0f : -100.0f) / den / n; break;
            case 3: w = (P - T) / n; break;
            case 4: w = P - T; break;
        }
        vf_check_eq("loss gradient", i, o[i], w);
    }
}

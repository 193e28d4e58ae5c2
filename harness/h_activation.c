/* C03: built-in activation functions compute their definition, elementwise, at any length and address. */
#include "nets.h"
#include <math.h>

void harness(void)
{
    static const char *names[] = {"sigmoid","tanh","relu","softsign","hard_sigmoid","exponential","softplus","linear","softmax"};
    int a = vf_param("act", 0), n = vf_param("n", 1), mis = vf_param("mis", 0);
    float *x = vf_alloc(n * sizeof(float), mis);
    float *d = malloc(n * sizeof(float));
    for(int i = 0; i < n; i++) x[i] = d[i] = vf_sym("x", i);
    activation_func f = get_activation_func(names[a]);
    vf_check("activation found", f != NULL);
    if(!f) return;
    f(n, x);
    vf_mark("reference");                        /* what follows is the definition, not the code */
    float sum = 0.0f, mx = 0.0f;
    if(a == 8){
        int piv = vf_param("piv", 0);            /* the definition is shift invariant; any shift will do */
        mx = d[piv];
        for(int i = 0; i < n; i++) sum += expf(d[i] - mx);
    }
    float tot = 0.0f;
    for(int i = 0; i < n; i++){
        float v = d[i], w = 0.0f;
        switch(a){
            case 0: w = 1.0f / (1.0f + expf(-v)); break;
            case 1: w = tanhf(v); break;
            case 2: w = v > 0.0f ? v : 0.0f; break;
            case 3: w = v / (1.0f + (v < 0.0f ? -v : v)); break;
            case 4: w = v < -2.5f ? 0.0f : v > 2.5f ? 1.0f : 0.2f * v + 0.5f; break;
            case 5: w = expf(v); break;
            case 6: w = v > 0.0f ? v + logf(1.0f + expf(-v)) : logf(1.0f + expf(v)); break;
            case 7: w = v; break;
            case 8: w = expf(v - mx) / sum; break;
        }
        vf_check_eq("value", i, x[i], w);
        tot += x[i];
    }
    if(a == 8 && vf_param("total", 0)) vf_check_eq("sum", 0, tot, 1.0f);
}

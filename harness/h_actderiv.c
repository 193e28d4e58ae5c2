/* C04: the derivative routine multiplies by the derivative at the point x that produced the activation value.
   sigmoid, tanh, exponential, softplus: x is given through E = exp(x) or exp(2x) (any positive real). */
#include "nets.h"
#include <math.h>

void harness(void)
{
    static const char *names[] = {"sigmoid","tanh","relu","softsign","hard_sigmoid","exponential","softplus","linear","softmax"};
    int a = vf_param("act", 0), n = vf_param("n", 1);
    activation_func f = get_activation_func(names[a]);
    activation_derivative df = get_activation_derivative(f);
    vf_check("derivative found", f != NULL && df != NULL);
    if(!f || !df) return;
    float *av = vf_alloc(n * sizeof(float), vf_param("mis_a", 0));
    float *g  = vf_alloc(n * sizeof(float), vf_param("mis_g", 0));
    float *want = malloc(n * sizeof(float)), *keep = malloc(n * sizeof(float));
    for(int i = 0; i < n; i++){
        float gi = vf_sym("g", i), v = 0.0f, d = 1.0f;
        if(a == 0 || a == 1 || a == 5 || a == 6){
            float E = vf_sym("E", i);
            vf_assume(E > 0.0f);
            switch(a){
                case 0: v = E / (1.0f + E); d = E / ((1.0f + E) * (1.0f + E)); break;
                case 1: v = (E - 1.0f) / (E + 1.0f); d = 4.0f * E / ((E + 1.0f) * (E + 1.0f)); break;
                case 5: v = E; d = E; break;
                case 6: v = logf(1.0f + E); d = E / (1.0f + E); break;
            }
        } else {
            float x = vf_sym("x", i);
            switch(a){
                case 2: v = x > 0.0f ? x : 0.0f; d = x > 0.0f ? 1.0f : 0.0f; break;
                case 3: { float ab = x < 0.0f ? -x : x; v = x / (1.0f + ab); d = 1.0f / ((1.0f + ab) * (1.0f + ab)); break; }
                case 4: { float dl = x + 2.5f, dh = x - 2.5f; vf_assume(dl * dl > 1e-6f); vf_assume(dh * dh > 1e-6f); } /* 0.2f is not exactly 1/5: away from the corners */
                       
                        v = x < -2.5f ? 0.0f : x > 2.5f ? 1.0f : 0.2f * x + 0.5f; d = x < -2.5f ? 0.0f : x > 2.5f ? 0.0f : 0.2f; break;
                case 7: case 8: v = x; d = 1.0f; break;
            }
        }
        av[i] = v; keep[i] = v; g[i] = gi; want[i] = gi * d;
    }
    vf_readonly(av, 1);
    df(n, av, g);
    for(int i = 0; i < n; i++) vf_check_eq("gradient", i, g[i], want[i]);
    for(int i = 0; i < n; i++) vf_check_eq("activation kept", i, av[i], keep[i]);
}

/* C08: parameter count, read-out and update agree. */
#include "reference.h"

void harness(void)
{
    net_shape();
    neuralnet_t *nn = net_make(act_names);
    if(!nn) return;
    int np = neuralnet_total_n_parameters(nn);
    vf_check("count", np == ref_count());
    float *p = vf_alloc(np*sizeof(float), vf_param("mis_p", 0)), *d = vf_alloc(np*sizeof(float), vf_param("mis_d", 0));
    for(int i = 0; i < np; i++){ p[i] = vf_sym("junk", i); d[i] = vf_sym("d", i); }
    ref_t r = ref_make();
    net_readonly(nn, 1);
    neuralnet_get_parameters(nn, p);
    net_readonly(nn, 0);
    for(int i = 0; i < np; i++) vf_check_eq("read-out", i, p[i], *ref_param(&r, i));
    vf_readonly(d, 1); vf_readonly(nn->layer, 1); vf_readonly(nn, 1);
    neuralnet_update(nn, d);
    vf_readonly(nn->layer, 0); vf_readonly(nn, 0);
    for(int i = 0; i < np; i++) *ref_param(&r, i) += d[i];
    net_same(nn, &r, "updated");
    neuralnet_get_parameters(nn, p);
    for(int i = 0; i < np; i++) vf_check_eq("read-out after update", i, p[i], *ref_param(&r, i));
    neuralnet_update(nn, d);
    for(int i = 0; i < np; i++) *ref_param(&r, i) += d[i];
    net_same(nn, &r, "updated twice");
    neuralnet_free(nn);
}

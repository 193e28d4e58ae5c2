/* C33: neuralnet_create for every list of sizes and names */
#include "cb.h"
#include "neuralnet.h"
#include "activation.h"
#ifndef P_ALIGN
#define P_ALIGN 16
#endif
#define NNAMES 13
static char *const name[NNAMES] = { "linear", "relu", "sigmoid", "tanh", "softmax", "softplus", "softsign", "hard_sigmoid", "exponential", NULL, "", "Relu", "relu@" };
#define L (P_LAYERS > 0 ? P_LAYERS : 1)
void harness(void)
{
    static int size[L + 1], given[L + 1]; static char *names[L + 1]; int k[L];
    activation_func linear = get_activation_func("linear");
    int ok = P_LAYERS > 0;
    for (int i = 0; i <= L; i++) { 
#ifdef P_ODD                                   /* every second size is constant: the products are cheap for the solver */
        size[i] = given[i] = i % 2 ? P_ODD : nd_int(INT_MIN, INT_MAX);
#else
        size[i] = given[i] = nd_int(-P_RANGE, P_RANGE);
#endif
        if (size[i] < 1) ok = 0;
    }
    for (int i = 0; i < L; i++) {
#if P_NAMES
        k[i] = nd_int(0, NNAMES - 1);
#else
        k[i] = i % 9;
#endif
        for (int j = 0; j < NNAMES; j++) if (k[i] == j) names[i] = name[j];
    }
#if P_NAMES
    int no_names = nd_bool();
#else
    const int no_names = 0;
#endif
#if P_LAYERS > 0
    const int layers = P_LAYERS;
#else
    static const int none[5] = { 0, -1, -7, -65536, INT_MIN };
    int which = nd_int(0, 4);
#endif
    neuralnet_t *nn = NULL;
#if P_LAYERS > 0
    nn = neuralnet_create(layers, size, no_names ? NULL : names);
#else
    for (int j = 0; j < 5; j++) if (which == j) nn = neuralnet_create(none[j], size, no_names ? NULL : names);
#endif
    for (int i = 0; i <= L; i++) CHECK(size[i] == given[i], "the list of sizes is not changed");
    if (!nn) {
        size_t most = 0;
        for (int i = 0; i < P_LAYERS; i++) if (ok && (size_t) size[i] * size[i + 1] * 4 > most) most = (size_t) size[i] * size[i + 1] * 4;
        CHECK(!ok || most > ((size_t) 1 << 40), "creation fails only for bad sizes or a lack of memory");
        CHECK(vf_live == 0, "a failed creation releases everything");
        REACH("refused");
        return;
    }
    CHECK(ok, "no network is made from bad sizes");
#if P_LAYERS > 0
    CHECK(nn->n_layers == P_LAYERS, "the number of layers is that asked for");
    CHECK(nn->loss == NULL, "there is no loss");
    for (int i = 0; i < P_LAYERS; i++) {
        const layer_t *l = &nn->layer[i];
        CHECK(l->n_input == given[i] && l->n_output == given[i + 1], "the sizes are those asked for");
        CHECK(l->weight && l->bias && l->weight != l->bias, "the layer has its parameter memory");
        CHECK(vf_last_size(l->weight) >= (size_t) given[i] * given[i + 1] * sizeof(float) && vf_last_size(l->bias) >= (size_t) given[i + 1] * sizeof(float), "the parameter memory is large enough");
        CHECK(vf_last_align(l->weight) && vf_last_align(l->weight) % P_ALIGN == 0 && vf_last_align(l->bias) && vf_last_align(l->bias) % P_ALIGN == 0, "the parameter memory is aligned");
        activation_func want = linear;
        for (int j = 0; j < 9; j++) if (!no_names && k[i] == j) want = get_activation_func(name[j]);
        CHECK(l->activation_func == want, "the activation is the one named, linear for a missing or unknown name");
    }
    neuralnet_free(nn);
#endif
    CHECK(vf_live == 0, "releasing the network frees everything once");
    neuralnet_free(NULL);
#if P_LAYERS > 0 && (!defined(P_ODD) || P_ODD > 0)
    REACH("created");
#endif
}

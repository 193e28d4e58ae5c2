/* C18: neuralnet_set_loss installs the matching derivatives, for every network, loss and history */
#include "cb.h"
#include "neuralnet.h"
#include "activation.h"
#include "loss.h"
#define NACT 10
static char *const act[NACT] = { "linear", "relu", "sigmoid", "tanh", "softmax", "softplus", "softsign", "hard_sigmoid", "exponential", "" };
#define NLOSS 12
static char *const loss[NLOSS] = { "mean_squared_error", "mse", "mean_absolute_error", "mae", "mean_absolute_percentage_error", "mape", "binary_crossentropy", "categorical_crossentropy",
    "", "binary_crossentropi", "mse ", "crossentropy" };
#define NKNOWN 8
#ifndef P_LAYERS
#define P_LAYERS 3
#endif
#ifndef P_CALLS
#define P_CALLS 2
#endif
static void foreign(int n, float *x) { }
static void untouched(int n, const float *a, float *b) { }
static layer_t layer[P_LAYERS];
static float wb[P_LAYERS][2];
void harness(void)
{
    neuralnet_t nn;
    activation_func f[P_LAYERS]; activation_derivative d[P_LAYERS];
    activation_derivative identity = get_activation_derivative(get_activation_func("linear"));
    int kind[P_LAYERS];
    CHECK(identity != NULL, "there is an identity derivative");
    nn.n_layers = nd_int(1, P_LAYERS); nn.layer = layer; nn.loss = NULL;
    const int last = nn.n_layers - 1;
    for (int i = 0; i < P_LAYERS; i++) {
        kind[i] = nd_int(0, NACT - 1);
        f[i] = foreign;
        for (int k = 0; k < NACT - 1; k++) if (kind[i] == k) f[i] = get_activation_func(act[k]);
        layer[i].n_input = 1; layer[i].n_output = 1; layer[i].weight = &wb[i][0]; layer[i].bias = &wb[i][1];
        layer[i].activation_func = f[i];
        layer[i].activation_derivative = nd_bool() ? untouched : NULL;
        d[i] = layer[i].activation_derivative;
    }
    int had = 0;
    for (int c = 0; c < P_CALLS; c++) {
        int l = nd_int(0, NLOSS - 1);
        for (int k = 0; k < NLOSS; k++) if (l == k) neuralnet_set_loss(&nn, loss[k]);
        loss_func want = NULL;
        for (int k = 0; k < NKNOWN; k++) if (l == k) want = get_loss_func(loss[k]);
        CHECK(nn.loss == want, "the loss named is set, none for an unknown name");
        CHECK((want != NULL) == (l < NKNOWN), "a documented loss is known");
        for (int i = 0; i < P_LAYERS; i++) {
            if (l < NKNOWN && i <= last) {
                d[i] = get_activation_derivative(f[i]);
                if (i == last && ((l == 6 && kind[i] == 2) || (l == 7 && kind[i] == 4))) d[i] = identity;
            }
            CHECK(layer[i].activation_derivative == d[i], "every layer has the matching derivative");
            CHECK(layer[i].activation_func == f[i] && layer[i].n_input == 1 && layer[i].n_output == 1 && layer[i].weight == &wb[i][0] && layer[i].bias == &wb[i][1], "nothing else is changed");
        }
        CHECK(nn.n_layers == last + 1 && nn.layer == layer, "nothing else is changed");
        if (c > 0 && l >= NKNOWN) had = 1;
    }
    REACHIF(had, "an unknown loss after another one");
    REACHIF(layer[last].activation_derivative == identity && kind[last] == 4, "softmax with identity");
    REACH("end");
}

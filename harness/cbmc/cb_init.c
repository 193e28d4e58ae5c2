/* C19: weight initialisation, for every stream of random numbers (of at most P_DRAWS numbers) */
#include "cb.h"
#include "neuralnet.h"
#include "activation.h"
#ifndef P_IN
#define P_IN 2
#define P_OUT 1
#endif
#define NW (P_IN * P_OUT)
#ifndef P_DRAWS
#define P_DRAWS 8
#endif
static int stream[P_DRAWS], drawn;
int vf_rand(void) { ASSUME(drawn < P_DRAWS); return stream[drawn++]; }
static char *const act[11] = { "linear", "relu", "sigmoid", "tanh", "softmax", "softplus", "softsign", "hard_sigmoid", "exponential", NULL, "xavier" };
static void foreign(int n, float *x) { }
static float w[2][NW + 2], b[2][P_OUT + 2];
static const uint32_t nan_bits = 0x7fc12345u;
static float sentinel(void) { union { uint32_t u; float f; } c; c.u = nan_bits; return c.f; }
static layer_t layer[2];
static neuralnet_t nn;
static void setup(int l, int n_in, int n_out, activation_func f)
{
    for (int i = 0; i < NW + 2; i++) w[l][i] = sentinel();
    for (int i = 0; i < P_OUT + 2; i++) b[l][i] = sentinel();
    layer[l].n_input = n_in; layer[l].n_output = n_out; layer[l].weight = w[l] + 1; layer[l].bias = b[l] + 1; layer[l].activation_func = f;
}
static void common(int l)
{
    for (int i = 0; i < P_OUT; i++) CHECK(b[l][1 + i] == 0.0f, "all biases are zero");
    CHECK(vf_bits(w[l][0]) == nan_bits && vf_bits(w[l][NW + 1]) == nan_bits && vf_bits(b[l][0]) == nan_bits && vf_bits(b[l][P_OUT + 1]) == nan_bits, "nothing else is written");
    for (int i = 0; i < NW; i++) CHECK(vf_bits(w[l][1 + i]) != nan_bits, "all weights are set");
}
void harness(void)
{
#if P_MODE < 2
    for (int i = 0; i < P_DRAWS; i++) stream[i] = nd_int(0, RAND_MAX);
#else                       /* fixed streams (one pair is rejected): the arithmetic is evaluated, the configuration is symbolic */
    static const int fixed[2][8] = { { RAND_MAX, 5, 123456789, 1000000000, 2000000001, 1500000000, 700000000, 1300000000 },
                                     { 1600000000, 1400000000, 1, 2, 400000000, 1700000000, 1073741000, 999 } };
    for (int i = 0; i < P_DRAWS; i++) stream[i] = fixed[P_STREAM][i % 8];
#endif
    nn.layer = layer; nn.n_layers = 1;
#if P_MODE == 0             /* Xavier: within the bounds */
    char *init[2] = { "xavier", "xavier" };
    setup(0, P_IN, P_OUT, get_activation_func("linear"));
    neuralnet_initialize(&nn, init);
    common(0);
    for (int i = 0; i < NW; i++) CHECK(w[0][1 + i] <= P_LIM * 1.00001f && w[0][1 + i] >= -P_LIM * 1.00001f, "the weights lie within +-sqrt(6/(inputs+outputs))");
    REACHIF(w[0][1] > P_LIM * 0.999f, "upper end"); REACHIF(w[0][NW] < -P_LIM * 0.999f, "lower end"); REACHIF(w[0][1] > 0.3f * P_LIM && w[0][1] < 0.4f * P_LIM, "inside");
#elif P_MODE == 1           /* Kaiming: finite */
    char *init[2] = { "kaiming", "kaiming" };
    setup(0, P_IN, P_OUT, get_activation_func("linear"));
    neuralnet_initialize(&nn, init);
    common(0);
    for (int i = 0; i < NW; i++) CHECK(w[0][1 + i] - w[0][1 + i] == 0.0f, "the weights are finite");
    REACHIF(w[0][1] > 0, "positive"); REACHIF(w[0][1] < 0, "negative"); REACHIF(drawn > NW + NW % 2, "rejected numbers");
#elif P_MODE == 2           /* the scheme is the one named or the one of the activation */
    int a = nd_int(0, 9), how = nd_int(0, 4);
    int want = how == 3 ? 0 : how == 4 ? 1 : a == 2 || a == 3 || a == 4 || a == 6 || a == 7 ? 0 : a == 1 || a == 5 ? 1 : 2;
    char *none[2] = { NULL, NULL }, *unknown[2] = { "Xavier", "" }, *x[2] = { "xavier", NULL }, *k[2] = { "kaiming", NULL };
    float ref[3][NW]; int n[3];
    for (int m = 0; m < 3; m++) {
        drawn = 0;
        setup(0, P_IN, P_OUT, get_activation_func("linear"));
        neuralnet_initialize(&nn, m == 0 ? x : m == 1 ? k : none);
        for (int i = 0; i < NW; i++) ref[m][i] = w[0][1 + i];
        n[m] = drawn;
    }
    for (int c = 0; c < 10; c++) for (int h = 0; h < 5; h++) if (a == c && how == h) {
        drawn = 0;
        setup(0, P_IN, P_OUT, c < 9 ? get_activation_func(act[c]) : foreign);
        neuralnet_initialize(&nn, h == 0 ? NULL : h == 1 ? none : h == 2 ? unknown : h == 3 ? x : k);
        common(0);
    }
    for (int m = 0; m < 3; m++) if (want == m) {
        for (int i = 0; i < NW; i++) CHECK(ref[m][i] == w[0][1 + i], "the scheme is the one named, or the one matching the activation");
        CHECK(n[m] == drawn, "the random stream is used in the same way");
    }
    REACHIF(want == 0, "Xavier"); REACHIF(want == 1, "Kaiming"); REACHIF(want == 2, "neither");
#elif P_MODE == 3          /* the weights scale with the number of inputs */
    char *init[2] = { "kaiming", "kaiming" };
    activation_func f = get_activation_func("linear");
    layer[0].n_input = 0;
    setup(0, P_IN, P_OUT, f);
    neuralnet_initialize(&nn, init);
    float got[NW]; for (int i = 0; i < NW; i++) got[i] = w[0][1 + i];
    int n = drawn; drawn = 0;
    setup(0, P_OUT, P_IN, f);                /* the same number of weights from P_OUT inputs */
    neuralnet_initialize(&nn, init);
    CHECK(n == drawn, "the random stream is used in the same way");
    for (int i = 0; i < NW; i++) {
        float r = got[i] * P_RATIO;
        CHECK(r == w[0][1 + i] || (r > w[0][1 + i] ? r - w[0][1 + i] : w[0][1 + i] - r) <= 1e-4f * (r < 0 ? -r : r), "the weights are scaled by sqrt(2/inputs)");
    }
    drawn = 0;
    setup(0, P_IN, P_OUT, f);
    neuralnet_initialize(&nn, NULL);         /* standard normal */
    for (int i = 0; i < NW; i++) {
        float r = w[0][1 + i] * P_SCALE;
        CHECK(r == got[i] || (r > got[i] ? r - got[i] : got[i] - r) <= 1e-4f * (r < 0 ? -r : r), "the weights are scaled by sqrt(2/inputs)");
    }
    REACH("scaled");
#else                       /* two layers: each by its own name and activation, the stream goes on */
    int a[2], h[2];
    for (int l = 0; l < 2; l++) { a[l] = nd_int(1, 2); h[l] = nd_int(0, 2); }
    char *name[3] = { NULL, "xavier", "kaiming" };
    activation_func f[3] = { NULL, get_activation_func("relu"), get_activation_func("sigmoid") };
    for (int c = 0; c < 36; c++) if (a[0] == 1 + c % 2 && a[1] == 1 + c / 2 % 2 && h[0] == c / 4 % 3 && h[1] == c / 12) {
        char *both[2] = { name[c / 4 % 3], name[c / 12] };
        nn.n_layers = 2; drawn = 0;
        setup(0, P_IN, P_OUT, f[1 + c % 2]); setup(1, P_OUT, P_IN, f[1 + c / 2 % 2]);
        neuralnet_initialize(&nn, both);
        common(0);
        CHECK(vf_bits(w[1][0]) == nan_bits && vf_bits(w[1][NW + 1]) == nan_bits, "nothing else is written");
        for (int i = 0; i < P_IN; i++) CHECK(b[1][1 + i] == 0.0f, "all biases are zero");
        float got[2][NW];
        for (int l = 0; l < 2; l++) for (int i = 0; i < NW; i++) got[l][i] = w[l][1 + i];
        int n = drawn;
        drawn = 0; nn.n_layers = 1; nn.layer = layer;
        neuralnet_initialize(&nn, both);
        nn.layer = layer + 1;
        neuralnet_initialize(&nn, both + 1);
        nn.layer = layer;
        for (int l = 0; l < 2; l++) for (int i = 0; i < NW; i++) CHECK(got[l][i] == w[l][1 + i], "every layer is initialised by its own scheme");
        CHECK(n == drawn, "the random stream is used in the same way");
    }
    REACH("two layers");
#endif
    REACH("last");
}

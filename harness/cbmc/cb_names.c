/* C28: names and functions of activations, losses and metrics */
#include "cb.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
#define NACT 9
static char *const act_names[NACT] = { "linear", "relu", "sigmoid", "tanh", "softmax", "softplus", "softsign", "hard_sigmoid", "exponential" };
#define NLOSS 8
static char *const loss_names[NLOSS] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy", "categorical_crossentropy", "mse", "mae", "mape" };
#define NMET 10
static char *const met_names[NMET] = { "mean_squared_error", "mean_absolute_error", "mean_absolute_percentage_error", "binary_crossentropy", "categorical_crossentropy",
    "binary_accuracy", "categorical_accuracy", "mse", "mae", "mape" };
typedef void (*anyfn)(void);
#if P_KIND == 0
#define N NACT
#define FULL NACT
#define NAMES act_names
static anyfn get(const char *s) { return (anyfn) get_activation_func(s); }
static const char *nameof(anyfn f) { return get_activation_name((activation_func) f); }
static void foreign(int n, float *x) { }
#elif P_KIND == 1
#define N NLOSS
#define FULL 5
#define NAMES loss_names
static anyfn get(const char *s) { return (anyfn) get_loss_func(s); }
static const char *nameof(anyfn f) { return get_loss_name((loss_func) f); }
static void foreign(unsigned n, const float *a, const float *b, float *c) { }
#else
#define N NMET
#define FULL 7
#define NAMES met_names
static anyfn get(const char *s) { return (anyfn) get_metric_func(s); }
static const char *nameof(anyfn f) { return get_metric_name((metric_func) f); }
static float foreign(int n, const float *a, const float *b) { return 0; }
#endif
static void foreign2(void) { }
#ifndef P_MAXLEN
#define P_MAXLEN 31
#endif
static char str[P_MAXLEN + 1];
static int close_to(float a, float b) { return a == b || (a - b < 2e-4f && b - a < 2e-4f); }

/* any string: found exactly when it is a documented name */
static void any_string(void)
{
#ifdef P_NEAR
    /* a documented name in which up to two bytes are changed, cut off or appended at any place */
    int which = nd_int(0, N - 1), n = 0;
    for (int c = 0; c < N; c++) if (which == c) { n = (int) vf_strlen(NAMES[c]); for (int i = 0; i <= n; i++) str[i] = NAMES[c][i]; }
    for (int k = 0; k < 2; k++) { int at = nd_int(0, P_MAXLEN - 1); unsigned char v = nd_u8(); ASSUME(at <= n); for (int i = 0; i < P_MAXLEN; i++) if (at == i) str[i] = (char) v; }
    str[P_MAXLEN] = 0;
#else
    int n = nd_int(0, P_MAXLEN);
    for (int i = 0; i < P_MAXLEN; i++) { str[i] = (char) nd_u8(); ASSUME(i >= n || str[i] != 0); if (i >= n) str[i] = 0; }
#endif
    int k = -1;
    for (int i = 0; i < N; i++) if (vf_eq_str(str, NAMES[i])) k = i;
#if P_KIND == 0
    anyfn f = NULL;                           /* the library copies the string: every length separately */
    size_t len = vf_strlen(str);
    for (int c = 0; c <= P_MAXLEN; c++) if (len == c) { vf_kstr = str; vf_klen = c; f = get(str); }
    vf_kstr = NULL;
#else
    anyfn f = get(str);
#endif
    CHECK((f != NULL) == (k >= 0), "exactly the documented names are found");
    for (int i = 0; i < N; i++) if (k == i) CHECK(f == get(NAMES[i]), "the lookup depends on the characters only");
    REACHIF(k >= 0, "a name"); REACHIF(k < 0, "no name");
#if P_KIND == 0
    CHECK(vf_live == 0, "nothing is leaked");
#endif
}

static void relations(void)
{
    for (int i = 0; i < N; i++) {
        anyfn f = get(NAMES[i]);
        CHECK(f != NULL, "every documented name is found");
        int full = i < FULL ? i : i == N - 3 ? 0 : i == N - 2 ? 1 : 2;
        CHECK(f == get(NAMES[full]), "an abbreviation is the same function");
        CHECK(vf_eq_str(nameof(f), NAMES[full]), "the full name is found from the function");
        CHECK(get(nameof(f)) == f, "and the function from that name");
        for (int j = 0; j < FULL; j++) CHECK((f == get(NAMES[j])) == (j == full), "every name has its own function");
    }
    CHECK(vf_eq_str(nameof((anyfn) foreign), "(unknown)"), "an unregistered function has the name (unknown)");
    CHECK(vf_eq_str(nameof(foreign2), "(unknown)"), "an unregistered function has the name (unknown)");
    CHECK(vf_eq_str(nameof(NULL), "(unknown)"), "no function has the name (unknown)");
    CHECK(get("(unknown)") == NULL, "(unknown) is no name");
#if P_KIND == 0
    for (int i = 0; i < N; i++) {
        activation_derivative d = get_activation_derivative(get_activation_func(act_names[i]));
        CHECK(d != NULL, "every activation has a derivative");
        for (int j = 0; j < i; j++) CHECK(d != get_activation_derivative(get_activation_func(act_names[j])), "every activation has its own derivative");
    }
    CHECK(get_activation_derivative((activation_func) foreign) == NULL && get_activation_derivative(NULL) == NULL, "an unregistered function has no derivative");
#endif
    REACH("end");
}

/* the function behind a name is the one the name says: characteristic values (the complete check of the values is C03-C06) */
static void identity(void)
{
#if P_KIND == 0
    static const float in[4] = { 0, 1, -3, 30 };
    static const float want[NACT][4] = { { 0, 1, -3, 30 }, { 0, 1, 0, 30 }, { 0.5f, 0.7310586f, 0.0474259f, 1 }, { 0, 0.7615942f, -0.9950548f, 1 }, { 0, 0, 0, 1 },
        { 0.6931472f, 1.3132617f, 0.0485874f, 30 }, { 0, 0.5f, -0.75f, 0.9677419f }, { 0.5f, 0.7f, 0, 1 }, { 1, 2.7182818f, 0.0497871f, 0 } };
    /* derivatives at the activation 0.25, softmax: none */
    static const float der[NACT] = { 1, 1, 0.1875f, 0.9375f, 1, 0.2211992f, 0.5625f, 0.2f, 0.25f };
    for (int i = 0; i < NACT; i++) {
        float x[4]; for (int k = 0; k < 4; k++) x[k] = in[k];
        get_activation_func(act_names[i])(4, x);
        for (int k = 0; k < 4; k++) if (!(i == 8 && k == 3)) CHECK(close_to(x[k], want[i][k]), "the activation named is computed");
        float a[1] = { 0.25f }, g[1] = { 1.0f };
        get_activation_derivative(get_activation_func(act_names[i]))(1, a, g);
        CHECK(close_to(g[0], der[i]), "the derivative is that of the activation");
    }
#elif P_KIND == 1
    static const float p[3] = { 3, 0.5f, 1 }, t[3] = { 1, 1, 4 };
    static const float want[5][3] = { { 1.3333333f, -0.3333333f, -2 }, { 0.3333333f, -0.3333333f, -0.3333333f }, { 33.333332f, -33.333332f, -8.333333f }, { 0.6666667f, -0.1666667f, -1 }, { 2, -0.5f, -3 } };
    for (int i = 0; i < 5; i++) {
        float g[3];
        get_loss_func(loss_names[i])(3, p, t, g);
        for (int k = 0; k < 3; k++) CHECK(close_to(g[k], want[i][k]), "the loss named is computed");
    }
#else
    static const float p[3] = { 0.25f, 0.5f, 0.75f }, t[3] = { 1, 0, 1 };
    static const float q[3] = { 0.25f, 0.625f, 0.125f }, s[3] = { 1, 0.5f, 0 }, r[3] = { 1, 1.5f, 4 };
    static const float want[5] = { 0.2916667f, 0.5f, 0, 0.7890412f, 0.5579921f };
    for (int i = 0; i < 5; i++) if (i != 2) {
        metric_func f = get_metric_func(met_names[i]);
        CHECK(close_to(f(3, p, t), want[i]), "the metric named is computed");
    }
    CHECK(close_to(get_metric_func("mean_absolute_percentage_error")(3, p, r), 100.0f * (0.75f + 1.0f / 1.5f + 3.25f / 4) / 3), "the metric named is computed");
    CHECK(close_to(get_metric_func("binary_accuracy")(3, q, t), 0), "the metric named is computed");
    CHECK(close_to(get_metric_func("categorical_accuracy")(3, q, s), 0), "the metric named is computed");
    static const float u[3] = { 0.75f, 0.875f, 0.125f }, v[3] = { 0, 1, 0 };
    CHECK(close_to(get_metric_func("categorical_accuracy")(3, u, v), 1), "the metric named is computed");
    CHECK(close_to(get_metric_func("binary_accuracy")(3, u, v), 0.6666667f), "the metric named is computed");
#endif
    REACH("end");
}

void harness(void)
{
#if P_MODE == 0
    any_string();
#elif P_MODE == 1
    relations();
#else
    identity();
#endif
}

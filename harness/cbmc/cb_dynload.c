/* C29: activations in dynamically loaded libraries: every outcome of the loader and of the heap */
#include "cb.h"
#include "activation.h"
#ifndef P_CALLS
#define P_CALLS 2
#endif
#ifndef P_FAULTS
#define P_FAULTS 0
#endif
#define LONG "a_rather_long_activation_function_name_with_many_words"
/* the names looked up, and what they are composed of (lib -1: none, sym -1: none) */
static const struct { const char *name; int lib, sym; } pool[] = {
#if P_POOL == 0
    { "f@l1", 0, 0 }, { "g@l1", 0, 1 }, { "f@l2", 1, 0 }, { "f", -1, -1 }, { "f@l3", -1, 0 }, { "h@l1", 0, -1 },
#elif P_POOL == 1
    { "f@l1", 0, 0 }, { "fl1", -1, -1 }, { "", -1, -1 }, { "f@", -1, 0 }, { "@l1", 0, -1 }, { "f@l1@", -1, 0 },
#else
    { LONG "@" "/usr/lib/some/directory/libactivations.so.1.2.3", 2, 2 }, { LONG "@l1", 0, 2 }, { "f@/usr/lib/some/directory/libactivations.so.1.2.3", 2, 0 }, { LONG, -1, -1 }, { "linear@l1", 0, 3 }, { "linear@l", -1, 3 },
#endif
};
#define NPOOL 6
#define NLIB 3
#define NSYM 4
static const char *const libname[NLIB] = { "l1", "l2", "/usr/lib/some/directory/libactivations.so.1.2.3" };
static const char *const symname[NSYM] = { "f", "g", LONG, "linear" };
static int lib_there[NLIB], opened[NLIB]; static bool sym_there[NLIB][NSYM], der_there[NLIB][NSYM];
static const char *pending;                          /* the error dlerror() reports */
static char libs[NLIB];
/* one function and one derivative per library and symbol (the address is what counts) */
#define FN(l, s) static void f##l##s(int n, float *x) { x[0] = 10 * l + s; } static void d##l##s(int n, const float *a, float *x) { x[0] = 100 + 10 * l + s; }
FN(0, 0) FN(0, 1) FN(0, 2) FN(0, 3) FN(1, 0) FN(1, 1) FN(1, 2) FN(1, 3) FN(2, 0) FN(2, 1) FN(2, 2) FN(2, 3)
static const activation_func fn[NLIB][NSYM] = { { f00, f01, f02, f03 }, { f10, f11, f12, f13 }, { f20, f21, f22, f23 } };
static const activation_derivative dn[NLIB][NSYM] = { { d00, d01, d02, d03 }, { d10, d11, d12, d13 }, { d20, d21, d22, d23 } };

void *vf_dlopen(const char *name, int mode)
{
    pending = NULL;
    CHECK(name != NULL, "a library is named");
    for (int i = 0; i < NLIB; i++) if (vf_eq_str(name, libname[i]) && lib_there[i]) { opened[i]++; return &libs[i]; }
    pending = "no such library";
    return NULL;
}
void *vf_dlsym(void *h, const char *name)
{
    pending = NULL;
    for (int i = 0; i < NLIB; i++) if (h == (void*) &libs[i]) {
        CHECK(opened[i] > 0, "symbols are looked up in an open library");
        for (int s = 0; s < NSYM; s++) {
            const char *q = symname[s];
            int k = 0;
            while (q[k] && q[k] == name[k]) k++;
            if (q[k]) continue;
            if (!name[k] && sym_there[i][s]) return (void*) fn[i][s];
            if (name[k] == '_' && vf_eq_str(name + k, "_derivative") && der_there[i][s]) return (void*) dn[i][s];
        }
        pending = "undefined symbol";
        return NULL;
    }
    CHECK(0, "symbols are looked up in an open library");
    return NULL;
}
char *vf_dlerror(void) { const char *e = pending; pending = NULL; return (char*) e; }
int vf_dlclose(void *h)
{
    pending = NULL;
    for (int i = 0; i < NLIB; i++) if (h == (void*) &libs[i]) { CHECK(opened[i] > 0, "a library is released once"); opened[i]--; return 0; }
    CHECK(0, "a library is released once");
    return -1;
}

static const char seq[] = { P_SEQ };
static bool ok[P_CALLS]; static int n_ok;
/* everything found so far is still known, and nothing else */
static void check_registry(void)
{
    int total = 0;
    for (int l = 0; l < NLIB; l++) total += opened[l];
    CHECK(total == n_ok, "every found function holds its library, and nothing else does");
    for (int l = 0; l < NLIB; l++) for (int s = 0; s < NSYM; s++) {
        int found = 0;
        const char *name = get_activation_name(fn[l][s]);
        int same = 0;
        for (int k = 0; k < P_CALLS; k++) if (pool[seq[k]].lib == l && pool[seq[k]].sym == s && ok[k]) { found = 1; if (vf_eq_str(name, pool[seq[k]].name)) same = 1; }
        if (found) {
            CHECK(same, "the full name is found from the function");
            CHECK(get_activation_derivative(fn[l][s]) == (der_there[l][s] ? dn[l][s] : NULL), "the derivative is the one in the library, or missing");
        } else CHECK(vf_eq_str(name, "(unknown)"), "a function that was not found has no name");
    }
    CHECK(get_activation_name(get_activation_func("relu")) != NULL && vf_eq_str(get_activation_name(get_activation_func("relu")), "relu"), "the built-in activations are not affected");
}
void harness(void)
{
    for (int l = 0; l < NLIB; l++) {
        lib_there[l] = nd_bool();
        for (int s = 0; s < NSYM; s++) { sym_there[l][s] = nd_bool(); der_there[l][s] = nd_bool(); }
    }
    pending = nd_bool() ? "an older error" : NULL;
#if P_FAULTS
    vf_fault_at = nd_int(0, 5 * P_CALLS);
#endif
    for (int c = 0; c < P_CALLS; c++) {
        const int i = seq[c];
        const int faults = vf_faulted;
        char name[110]; int j = 0;                        /* the caller's buffer does not stay */
        for (; pool[i].name[j]; j++) name[j] = pool[i].name[j];
        name[j] = 0;
        const activation_func r = get_activation_func(name);
        const int l = pool[i].lib, s = pool[i].sym;
        for (j = 0; pool[i].name[j]; j++) name[j] = '?';
        bool expect;
        expect = l >= 0 && s >= 0 && lib_there[l] && sym_there[l][s];
        if (vf_faulted != faults) CHECK(r == NULL || (expect && r == fn[l][s]), "a failing allocation is reported");
        else CHECK(r == (expect ? fn[l][s] : NULL), "the lookup gives the function of that name, and only then");
        if (r) { ok[c] = true; n_ok++; }
        if (P_CHECK || c == P_CALLS - 1) check_registry();
    }
    REACHIF(n_ok == P_GOOD, "several functions");
    REACHIF(n_ok == 0, "none");
#if P_FAULTS
    REACHIF(vf_faulted, "a failure");
#endif
    vf_run_atexit();
    for (int l = 0; l < NLIB; l++) CHECK(opened[l] == 0, "all libraries are released at exit");
    CHECK(vf_live == 0, "nothing is leaked");
    vf_run_atexit();
    CHECK(vf_eq_str(get_activation_name(f00), "(unknown)"), "nothing is left at exit");
    REACH("end");
}

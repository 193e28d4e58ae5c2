/* C25: a network saved and loaded again */
#include "cb.h"
#include "neuralnet.h"
#include "activation.h"
#include "npy_array.h"
static const int size[] = { P_SIZES };
#define L ((int)(sizeof size / sizeof *size) - 1)
static char *const names[L] = { P_ACT };
static void own(int n, float *x) { }
static void dyn(int n, float *x) { }
static void dyn_d(int n, const float *a, float *x) { }
#ifdef VF_OWN_LOADER
static char lib;
void *vf_dlopen(const char *f, int m) { return vf_eq_str(f, "libact.so") || vf_eq_str(f, "/a/rather/long/directory/of/libraries/libactivations.so.1") ? &lib : NULL; }
void *vf_dlsym(void *h, const char *n) { return vf_eq_str(n, "my") ? (void*) dyn : vf_eq_str(n, "my_derivative") ? (void*) dyn_d : NULL; }
int vf_dlclose(void *h) { return 0; }
char *vf_dlerror(void) { return NULL; }
#endif
static uint32_t bits[64];
static void has(const char *entry, const char *want) { CHECK(vf_eq_str(entry, want), "the entries have the documented names, in order"); }
void harness(void)
{
    neuralnet_t *nn = neuralnet_create(L, (int*) size, (char**) names);
    CHECK(nn != NULL, "the network can be created");
    if (!nn) return;
    int n = 0;
    for (int l = 0; l < L; l++) {
        for (int i = 0; i < size[l] * size[l + 1]; i++) { uint32_t b = (uint32_t) vf_nd(); bits[n++] = b; ((uint32_t*) nn->layer[l].weight)[i] = b; }
        for (int i = 0; i < size[l + 1]; i++) { uint32_t b = (uint32_t) vf_nd(); bits[n++] = b; ((uint32_t*) nn->layer[l].bias)[i] = b; }
    }
    const long live = vf_live;
    const int epoch = P_EPOCH;
#ifdef P_SAVE_FAULT                         /* C27: this operation of the archive library fails while saving */
    vf_zfault_at = P_SAVE_FAULT;
#endif
    neuralnet_save(nn, "net-%d.npz", epoch);
#ifdef P_SAVE_FAULT
    vf_zfault_at = -1;
    CHECK(vf_live == live, "nothing is leaked when saving fails");
    for (int l = 0, k = 0; l < L; l++) {
        for (int i = 0; i < size[l] * size[l + 1]; i++) CHECK(((uint32_t*) nn->layer[l].weight)[i] == bits[k++], "the network is not changed");
        for (int i = 0; i < size[l + 1]; i++) CHECK(((uint32_t*) nn->layer[l].bias)[i] == bits[k++], "the network is not changed");
    }
    neuralnet_free(nn);
    vf_run_atexit();
    CHECK(vf_live == 0, "everything is released once");
    REACHIF(vf_faulted, "the operation fails");
    return;
#endif
    vf_zip *z = &vf_archive[0];
    CHECK(vf_zip_writes == 1 && z->exists && vf_zip_open_n == 0, "one archive is written and closed");
    CHECK(vf_live == live, "nothing is leaked by saving");
    CHECK(z->n == 2 * L + 1, "the archive has weights and biases of every layer, and the activations");
    if (!z->exists || z->n != 2 * L + 1) return;
    n = 0;
    for (int l = 0; l < L; l++) {                   /* from input to output */
        const int nw = size[l] * size[l + 1], nb = size[l + 1];
        const vf_entry *w = &z->e[2 * l], *b = &z->e[2 * l + 1];
        CHECK(w->len % 64 == (4 * nw) % 64 && b->len % 64 == (4 * nb) % 64 && w->len > 4 * nw && b->len > 4 * nb, "weights and biases are complete");
        for (int i = 0; i < nw; i++) { uint32_t v = 0; for (int k = 3; k >= 0; k--) v = v << 8 | (unsigned char) w->data[w->len - 4 * nw + 4 * i + k]; CHECK(v == bits[n], "the weights are written bit for bit"); n++; }
        for (int i = 0; i < nb; i++) { uint32_t v = 0; for (int k = 3; k >= 0; k--) v = v << 8 | (unsigned char) b->data[b->len - 4 * nb + 4 * i + k]; CHECK(v == bits[n], "the biases are written bit for bit"); n++; }
    }
    { /* the activations may stand at any other place */
        vf_entry a = z->e[2 * L];
        for (int i = 2 * L; i > P_AT; i--) z->e[i] = z->e[i - 1];
        z->e[P_AT] = a;
    }
#ifdef P_LOAD_FAULT                         /* C27: this operation fails while loading */
    const long before = vf_live;
    vf_ops = 0; vf_fault_at = P_LOAD_FAULT;
#endif
    neuralnet_t *r = neuralnet_load("net.npz");
#ifdef P_LOAD_FAULT
    vf_fault_at = -1;
    CHECK(r || vf_faulted, "the network is loaded when nothing fails");
    if (r) {
        CHECK(r->n_layers == L, "a network that is loaded is complete");
        int k = 0;
        for (int l = 0; l < L && l < r->n_layers; l++) {
            CHECK(r->layer[l].n_input == size[l] && r->layer[l].n_output == size[l + 1] && r->layer[l].activation_func == nn->layer[l].activation_func, "a network that is loaded is complete");
            for (int i = 0; i < size[l] * size[l + 1]; i++) { CHECK(((uint32_t*) r->layer[l].weight)[i] == bits[k], "a network that is loaded is complete"); k++; }
            for (int i = 0; i < size[l + 1]; i++) { CHECK(((uint32_t*) r->layer[l].bias)[i] == bits[k], "a network that is loaded is complete"); k++; }
        }
        neuralnet_free(r);
    }
    CHECK(vf_live == before, "what had been allocated is released");
    REACHIF(vf_faulted, "the operation fails");
    return;
#endif
    CHECK(r != NULL, "the network can be loaded");
    if (!r) return;
    CHECK(r->n_layers == L, "the depth is kept");
    if (r->n_layers == L) {
        n = 0;
        for (int l = 0; l < L; l++) {
            CHECK(r->layer[l].n_input == size[l] && r->layer[l].n_output == size[l + 1], "the sizes of the layers are kept");
            CHECK(r->layer[l].activation_func == nn->layer[l].activation_func, "the activation functions are kept");
            CHECK(nn->layer[l].activation_func == get_activation_func(names[l]), "the activation is the one named");
            for (int i = 0; i < size[l] * size[l + 1]; i++) { CHECK(((uint32_t*) r->layer[l].weight)[i] == bits[n], "the weights are kept bit for bit"); n++; }
            for (int i = 0; i < size[l + 1]; i++) { CHECK(((uint32_t*) r->layer[l].bias)[i] == bits[n], "the biases are kept bit for bit"); n++; }
        }
        n = 0;
        for (int l = 0; l < L; l++) {
            for (int i = 0; i < size[l] * size[l + 1]; i++) { CHECK(((uint32_t*) nn->layer[l].weight)[i] == bits[n], "the saved network is not changed"); n++; }
            for (int i = 0; i < size[l + 1]; i++) { CHECK(((uint32_t*) nn->layer[l].bias)[i] == bits[n], "the saved network is not changed"); n++; }
        }
    }
    neuralnet_free(r);
    neuralnet_free(nn);
    vf_run_atexit();
    CHECK(vf_live == 0 && vf_zip_open_n == 0 && vf_zip_files_open == 0, "everything is released");
#if !defined(P_SAVE_FAULT) && !defined(P_LOAD_FAULT)
    REACH("end");
#endif
}

/* C26: loading a network from any list of arrays (the list is what npy_array_list_load returns; its own behaviour is
   the subject of C22 and C24) */
#include "cb.h"
#include "neuralnet.h"
#include "activation.h"
#include "npy_array.h"
#include "npy_array_list.h"
#ifndef P_SYM
#define P_SYM 0                         /* bit k of the mask of an array: its type, dimensions, shape are any */
#endif
#ifndef P_MAXD
#define P_MAXD 3                        /* lengths are at most this */
#endif
#ifndef P_NAMES
#define P_NAMES ""
#endif
#define N P_N
#define S_NDIM 2
#define S_SHAPE 4
#define S_BIG 8
#define S_DATA 16
typedef struct { char type; int ndim; size_t shape[3]; size_t es; int sym; const char *text; char en; int fo; } proto;
#define ANY(t, d, a, b, c, e, s, en, fo, txt) { t, d, { a, b, c }, e, s, txt, en, fo }
#define F2(r, c, s) { 'f', 2, { r, c, 0 }, 4, s, NULL }
#define F1(n, s) { 'f', 1, { n, 0, 0 }, 4, s, NULL }
#define NAMES(n, es, s, t) { 'S', 1, { n, 0, 0 }, es, s, t }
static const proto P[N + 1] = { P_LIST };
static npy_array_t *arr[N + 1], meta[N + 1]; static uint32_t content[N + 1][P_MAXD * P_MAXD * P_MAXD + 4]; static size_t bytes[N + 1];
static int given;
static npy_array_list_t *built;
npy_array_list_t *npy_array_list_load(const char *name) { CHECK(!given, "the file is read once"); given = 1; return built; }
static size_t any_length(int sym) { size_t v = (size_t) vf_nd(); if (!(sym & S_BIG)) ASSUME(v <= P_MAXD); return v; }
static void build(void)
{
    built = NULL;
    for (int i = N - 1; i >= 0; i--) {
        const proto *p = &P[i];
        npy_array_t *m = vf_calloc(1, sizeof(npy_array_t));
        m->typechar = p->type; m->ndim = p->ndim; m->elem_size = p->es; m->endianness = p->en ? p->en : p->type == 'S' ? '|' : '<'; m->fortran_order = p->fo;
        for (int k = 0; k < 3; k++) m->shape[k] = p->shape[k];
        if (p->sym & S_NDIM) {
            m->ndim = nd_int(0, 3);
            for (int k = 0; k < 3; k++) if (k >= m->ndim) m->shape[k] = 0; else m->shape[k] = p->shape[k] ? p->shape[k] : 1;
        }
        if (p->sym & S_SHAPE) for (int k = 0; k < 3; k++) if (k < m->ndim) m->shape[k] = any_length(p->sym);
        size_t n = 1;
        for (int k = 0; k < 3; k++) if (k < m->ndim) {
            if (p->sym & S_BIG) ASSUME(m->shape[k] <= ((size_t) 1 << 36) && n <= P_MAXD * P_MAXD);      /* (the product fits into memory) */
            n *= m->shape[k];
        }
        if (p->sym & S_BIG) ASSUME(n <= P_MAXD * P_MAXD);
        bytes[i] = n * p->es;                 /* (arrays of another element size are rejected unread) */
        m->data = vf_raw_alloc(bytes[i]); vf_live++;
        if (p->text) for (size_t k = 0; k < p->shape[0] * p->es; k++) m->data[k] = p->text[k];
        else if (p->type == 'S' && (p->sym & S_DATA)) for (size_t k = 0; k < p->shape[0] * p->es; k++) m->data[k] = (char) vf_nd();
        else if (p->type == 'f') for (size_t k = 0; k < P_MAXD * P_MAXD; k++) if (4 * k + 4 <= bytes[i]) { uint32_t b = (uint32_t) vf_nd(); content[i][k] = b; for (int j = 0; j < 4; j++) m->data[4 * k + j] = (char)(b >> 8 * j); }
        meta[i] = *m; arr[i] = m;
        npy_array_list_t *l = vf_malloc(sizeof(npy_array_list_t));
        l->array = m; l->filename = vf_malloc(4); l->filename[0] = 'a'; l->filename[1] = 0; l->next = built;
        built = l;
    }
}
static void own_name(char *buf, size_t es, const char *data, int k) { size_t j = 0; for (; j < es; j++) buf[j] = data[k * es + j]; buf[j] = 0; }
void harness(void)
{
    build();
    static char text[4][72];
    /* what the list holds */
    int reject = 0, plain = 1, nf = 0, ns = 0, w[N + 1], names = -1;
    for (int i = 0; i < N; i++) {
        const npy_array_t *m = &meta[i];
        if (m->typechar == 'f') {                                  /* (every other use of the letter is rejected) */
            if (m->elem_size != 4) reject = 1;
            if (m->endianness == '>') reject = 1;
            if (m->fortran_order && m->ndim > 1) reject = 1;
            if (m->endianness != '<' || m->fortran_order) plain = 0;
            w[nf++] = i;
        } else if (m->typechar == 'S') {
            if (m->fortran_order || m->endianness != '|') plain = 0;
            names = i; ns++;
        } else reject = 1;
    }
    if (ns != 1 || nf < 2 || nf % 2) reject = 1;
    const int L = nf / 2;
    if (!reject && (meta[names].ndim != 1 || meta[names].shape[0] != (size_t) L)) reject = 1;
    if (!reject)
        for (int l = 0; l < L; l++) {
            const npy_array_t *a = &meta[w[2 * l]], *b = &meta[w[2 * l + 1]];
            if (a->ndim != 2 || b->ndim != 1) { reject = 1; break; }
            if (a->shape[1] != b->shape[0] || (l && a->shape[0] != meta[w[2 * l - 2]].shape[1])) { reject = 1; break; }
            if (a->shape[0] < 1 || a->shape[1] < 1 || a->shape[0] > INT_MAX || a->shape[1] > INT_MAX) { reject = 1; break; }
        }
    if (!reject) for (int l = 0; l < L; l++) own_name(text[l], meta[names].elem_size, arr[names]->data, l);
#ifdef P_AT                                 /* C27: this operation fails */
    vf_fault_at = P_AT;
#endif
    neuralnet_t *nn = neuralnet_load("some.npz");
#ifdef P_AT
    vf_fault_at = -1;
    CHECK((nn == NULL) == (vf_faulted != 0), "a network is loaded exactly when all memory can be had");
    if (nn) neuralnet_free(nn);
    vf_run_atexit();
    CHECK(vf_live == 0, "what had been allocated is released");
    REACHIF(vf_faulted, "the operation fails");
    return;
#endif
    CHECK(given, "the file is read");
    if (!nn) {
        CHECK(reject || !plain, "a consistent archive is accepted");
        vf_run_atexit();
        CHECK(vf_live == 0, "everything is released after a rejection");
#ifdef P_REJ
        REACH("rejected");
#endif
        return;
    }
    CHECK(!reject, "an inconsistent archive is rejected");
    if (reject) return;
    CHECK(nn->n_layers == L, "the depth is that of the archive");
    if (nn->n_layers != L) return;
    for (int l = 0; l < L; l++) {
        const npy_array_t *a = &meta[w[2 * l]];
        const size_t r = a->shape[0], c = a->shape[1];
        CHECK((size_t) nn->layer[l].n_input == r && (size_t) nn->layer[l].n_output == c, "the sizes are those of the arrays");
        for (size_t i = 0; i < P_MAXD * P_MAXD; i++) if (i < r * c) CHECK(((uint32_t*) nn->layer[l].weight)[i] == content[w[2 * l]][i], "the weights are those of the archive, bit for bit");
        for (size_t i = 0; i < P_MAXD; i++) if (i < c) CHECK(((uint32_t*) nn->layer[l].bias)[i] == content[w[2 * l + 1]][i], "the biases are those of the archive, bit for bit");
        static const char *const known[9] = { "linear", "relu", "sigmoid", "tanh", "softmax", "softplus", "softsign", "hard_sigmoid", "exponential" };
        activation_func want = get_activation_func("linear");
        for (int k = 0; k < 9; k++) if (vf_eq_str(text[l], known[k])) want = get_activation_func(known[k]);
        CHECK(nn->layer[l].activation_func == want, "the activation is the one named in the archive");
    }
    neuralnet_free(nn);
    vf_run_atexit();
    CHECK(vf_live == 0, "everything is released");
#ifdef P_ACC
    REACH("accepted");
#endif
}

/* C27: operation number P_AT (allocation or input/output) fails */
#include "cb.h"
#include "neuralnet.h"
#include "npy_array.h"
#define DICTIONARY "{'descr': '<f4', 'fortran_order': False, 'shape': (3, 1), }\n"
#define D ((int) sizeof(DICTIONARY) - 1)
#define DATA 12
static unsigned char file[10 + D + DATA];
void harness(void)
{
#if P_OP == 0
    int size[] = { P_SIZES };
    const int L = (int)(sizeof size / sizeof *size) - 1;
    char *names[] = { "relu", "tanh", "softmax", "linear" };
    vf_fault_at = P_AT;
    neuralnet_t *nn = neuralnet_create(L, size, names);
    vf_fault_at = -1;
    CHECK((nn == NULL) == (vf_faulted != 0), "a network is created exactly when all memory can be had");
    if (nn) {
        CHECK(nn->n_layers == L, "the network is complete");
        for (int i = 0; i < L; i++) CHECK(nn->layer[i].weight && nn->layer[i].bias && nn->layer[i].activation_func, "the network is complete");
        neuralnet_free(nn);
    }
    CHECK(vf_live == 0, "what had been allocated is released");
#elif P_OP == 1 || P_OP == 2
    file[0] = 0x93; file[1] = 'N'; file[2] = 'U'; file[3] = 'M'; file[4] = 'P'; file[5] = 'Y'; file[6] = 1; file[7] = 0; file[8] = D; file[9] = 0;
    for (int i = 0; i < D; i++) file[10 + i] = DICTIONARY[i];
    unsigned char data[DATA];
    for (int i = 0; i < DATA; i++) file[10 + D + i] = data[i] = nd_u8();
    vf_new_file("a.npy", file, sizeof file); vf_fs[0].exists = 1; vf_fs[0].len = sizeof file;
    vf_fault_at = P_AT;
    npy_array_t *m = P_OP == 1 ? npy_array_load("a.npy") : npy_array_mmap("a.npy");
    vf_fault_at = -1;
    CHECK(vf_open_files == 0 && vf_open_fds == 0, "the file is closed");
    CHECK(m || vf_faulted, "the array is loaded when nothing fails");
    if (m) {
        CHECK(m->ndim == 2 && m->shape[0] == 3 && m->shape[1] == 1 && m->elem_size == 4, "an array that is loaded is complete");
        for (int i = 0; i < DATA; i++) CHECK((unsigned char) m->data[i] == data[i], "an array that is loaded is complete");
        npy_array_free(m);
    }
    CHECK(vf_live == 0 && vf_mapped == 0, "what had been allocated or mapped is released");
#else
    unsigned char data[DATA];
    for (int i = 0; i < DATA; i++) data[i] = nd_u8();
    npy_array_t a = { .data = (char*) data, .shape = { 3, 1 }, .ndim = 2, .endianness = '<', .typechar = 'f', .elem_size = 4 }, b = a;
    static unsigned char out[256];
    vf_new_file("a.npy", out, sizeof out);
    unsigned char was[DATA]; for (int i = 0; i < DATA; i++) was[i] = data[i];
    vf_fault_at = P_AT;
    npy_array_save("a.npy", &a);
    vf_fault_at = -1;
    CHECK(vf_open_files == 0, "the file is closed");
    CHECK(vf_live == 0, "nothing is leaked");
    CHECK(a.data == b.data && a.ndim == b.ndim && a.shape[0] == 3 && a.shape[1] == 1, "the array is not changed");
    for (int i = 0; i < DATA; i++) CHECK(data[i] == was[i], "the array is not changed");
#endif
#ifndef P_QUIET
    REACHIF(vf_faulted, "the operation fails");
#endif
    REACH("end");
}

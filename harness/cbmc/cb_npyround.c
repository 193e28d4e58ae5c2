/* C20, C23: an array saved to a file and loaded (P_MMAP: mapped) is the same array */
#include "cb.h"
#include "npy_array.h"
/* P_DIMS: the dimensions, -1: the symbolic one (of P_D digits); P_NDIM; P_ES; P_FORTRAN */
static const long dims[] = { P_DIMS };
#ifndef P_D
#define P_D 0
#endif
#ifndef P_SIZE
#define P_SIZE 0                                   /* bytes of data of a small array */
#endif
#define CAP (256 + P_SIZE)
static unsigned char file[CAP];
static unsigned char data[P_SIZE + 1];
static int ndigits(size_t v) { int n = 1; while (v >= 10) { v /= 10; n++; } return n; }
void harness(void)
{
    npy_array_t a;
    a.map_addr = NULL; a.map_length = 0;
    a.ndim = P_NDIM; a.elem_size = P_ES; a.fortran_order = P_FORTRAN;
#ifdef P_TYPE
    a.typechar = P_TYPE; a.endianness = P_ENDIAN;
#else
    a.typechar = (char) nd_u8(); a.endianness = nd_bool() ? '<' : nd_bool() ? '>' : '|';
#endif
    ASSUME((a.typechar >= 'a' && a.typechar <= 'z') || (a.typechar >= 'A' && a.typechar <= 'Z') || a.typechar == '?');
    for (int i = 0; i < NPY_ARRAY_MAX_DIMENSIONS; i++) a.shape[i] = 0;
    size_t n = P_ES;
    for (int i = 0; i < P_NDIM; i++) {
        a.shape[i] = dims[i];
#if P_D
        if (dims[i] < 0) { size_t lo = 1; for (int k = 1; k < P_D; k++) lo *= 10; a.shape[i] = nd_size(lo, 10 * lo - 1); }
#endif
        n *= a.shape[i];
#if defined(VF_CBMC) && defined(VF_TOKENS)
        vf_toklen[i] = dims[i] < 0 ? P_D : ndigits(dims[i]);
#endif
    }
#if defined(VF_CBMC) && defined(VF_TOKENS)
    vf_toklen[P_NDIM] = ndigits(P_ES); vf_n_toklen = P_NDIM + 1;
#endif
#if P_D
    a.data = vf_raw_alloc(n);
    vf_blob = a.data; vf_blob_len = n;
    ASSUME(a.data != NULL);
#else
    CHECK(n == P_SIZE, "model: size");
    for (int i = 0; i < P_SIZE; i++) data[i] = nd_u8();
    a.data = (char*) data;
#endif
    const long live = vf_live;
    vf_new_file("a.npy", file, CAP);
    /* (an older, longer file of this name is replaced) */
    vf_fs[0].exists = 1; vf_fs[0].len = CAP;
    for (int i = 0; i < CAP; i++) file[i] = 'o';
    npy_array_save("a.npy", &a);
    CHECK(vf_open_files == 0, "the file is closed");
    const size_t hl = 10 + file[8] + 256 * file[9];
    CHECK(vf_fs[0].len == hl + n, "the file holds the header and the data, nothing else");
#if !P_D
    for (int i = 0; i < P_SIZE; i++) CHECK(file[hl + i] == data[i], "the data follows the header immediately");
#else
    CHECK(n == 0 || vf_fs[0].blob_len == n && vf_fs[0].blob_at == hl, "the data follows the header immediately");
#endif
    for (int round = 0; round < (P_MMAP ? 2 : 1); round++) {
        npy_array_t *b = P_MMAP && round == 0 ? npy_array_mmap("a.npy") : npy_array_load("a.npy");
        CHECK(b != NULL, "the array can be loaded");
        if (!b) return;
        CHECK(b->ndim == P_NDIM, "the number of dimensions is kept");
        for (int i = 0; i < P_NDIM; i++) CHECK(b->shape[i] == a.shape[i], "the shape is kept");
        CHECK(b->elem_size == P_ES && b->typechar == a.typechar && b->endianness == a.endianness, "the element type is kept");
        CHECK(b->fortran_order == a.fortran_order, "the storage order is kept");
        CHECK(npy_array_calculate_datasize(b) == n, "the size of the data is kept");
#if P_D
        CHECK(n == 0 || vf_blob_dst == (void*) b->data && vf_blob_dst_len == n, "all data is read into the buffer of the array");
        CHECK(b->map_addr == NULL, "a loaded array is not mapped");
#else
        for (int i = 0; i < P_SIZE; i++) CHECK((unsigned char) b->data[i] == data[i], "the data is kept");
        if (P_MMAP && round == 0) {
            CHECK(vf_mapped == 1 && b->map_addr == vf_map_addr && b->map_length == vf_map_len, "the map is recorded");
            CHECK(b->data == (char*) vf_map_addr + hl && b->map_length == hl + P_SIZE, "the data lies in the mapped file");
        } else CHECK(b->map_addr == NULL, "a loaded array is not mapped");
#endif
        npy_array_free(b);
        CHECK(vf_mapped == 0 && vf_open_files == 0 && vf_open_fds == 0, "the map and all files are released");
        CHECK(vf_live == live, "nothing is leaked");
    }
    REACH("end");
}

/* C22, C23: any file: load and map (P_MMAP) it.  The file is P_PRE followed by P_W arbitrary bytes and P_POST, behind a
   preamble with the header length P_HL (default: the length of the dictionary), P_DATA arbitrary bytes of data at the end; cut to P_CUT bytes. */
#include "cb.h"
#include "npy_array.h"
#define PRE P_PRE
#define POST P_POST
#ifndef P_W
#define P_W 0
#endif
#ifndef P_DATA
#define P_DATA 0
#endif
#ifndef P_RAW
#define P_RAW 0                                    /* arbitrary bytes in the preamble: 1: magic, 2: version, 3: all */
#endif
#define DICT ((int)(sizeof(PRE) - 1 + P_W + sizeof(POST) - 1))
#ifndef P_HL
#define P_HL DICT
#endif
#define TOTAL (10 + DICT + P_DATA)
#ifndef P_CUT
#define P_CUT TOTAL
#endif
static unsigned char file[TOTAL + 1];
static unsigned char w[P_W + 1];
/* what the window means when the file is a well-formed array file */
static bool good, fortran; static char en, tc; static size_t es, shape[8]; static int ndim;
static bool is_tc(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '?'; }
static void expected(void)
{
    good = P_RAW == 0 && P_HL == DICT; en = '<'; tc = 'f'; es = 4; fortran = false; ndim = 2; shape[0] = 3; shape[1] = 2;
#if P_KIND == 0                                    /* nothing symbolic in the dictionary, or a window anywhere else */
    good = good && P_W == 0;
#elif P_KIND == 1                                  /* type: byte order, letter, size */
    en = (char) w[0]; tc = (char) w[1]; es = 0;
    good = good && (en == '<' || en == '>' || en == '|') && is_tc(tc);
    for (int i = 2; i < P_W; i++) { good = good && vf_isdigit(w[i]); es = 10 * es + (w[i] - '0'); }
    good = good && P_W > 2 && w[2] != '0';
#elif P_KIND == 2                                  /* storage order */
    static const char t[] = "True", f[] = "False";
    bool a = P_W == 4, b = P_W == 5;
    for (int i = 0; i < P_W; i++) { if (i < 4 && w[i] != t[i]) a = false; if (i < 5 && w[i] != f[i]) b = false; }
    good = good && (a || b); fortran = a;
#elif P_KIND == 3                                  /* the dimensions: numbers with a comma each, blanks after commas */
    ndim = 0; int st = 0;                          /* 0: number or end, 1: in a number, 2: after a comma */
    size_t v = 0;
    for (int i = 0; i < P_W; i++) {
        if (vf_isdigit(w[i])) { if (st != 1) v = 0; v = 10 * v + (w[i] - '0'); st = 1; }
        else if (w[i] == ',' && st == 1) { if (ndim < 8) shape[ndim] = v; else good = false; ndim++; st = 2; }
        else if (w[i] == ' ' && st == 2 && i > 0 && w[i - 1] == ',') ;
        else good = false;
    }
    if (st == 1) { if (ndim == 0 || ndim >= 8) good = false; else shape[ndim] = v; ndim++; }
#elif P_KIND == 4                                  /* a dictionary given by the scenario */
    { static const size_t d[] = { P_SHAPE, 0 }; ndim = P_NDIM; for (int i = 0; i < P_NDIM && i < 8; i++) shape[i] = d[i]; es = P_ES; good = good && P_GOOD; }
#endif
}
static npy_array_t *use(npy_array_t *m, bool mapped)
{
    if (!m) return NULL;
    CHECK(m->ndim >= 0 && m->ndim <= NPY_ARRAY_MAX_DIMENSIONS, "the number of dimensions is valid");
    size_t n = m->elem_size; bool over = false;
    for (int i = 0; i < NPY_ARRAY_MAX_DIMENSIONS; i++) if (i < m->ndim) {
        /* (more than the file can hold) */
        if (m->shape[i] > TOTAL || n > TOTAL) { if (m->shape[i] != 0 && n != 0) over = true; if (m->shape[i] == 0) { n = 0; } }
        else n *= m->shape[i];
    }
    if (n == 0) over = false;
    CHECK(!over && n <= (size_t) P_CUT, "the array is not larger than the file");
    if (over || n > (size_t) P_CUT) return m;
    const int at = 10 + P_HL;
#ifdef VF_CBMC
    CHECK(n == 0 || __CPROVER_r_ok(m->data, n), "the buffer holds all the data");
#endif
    CHECK(n + at <= (size_t) P_CUT, "all the data is in the file");
    for (int i = 0; at + i < P_CUT; i++) if ((size_t) i < n) CHECK((unsigned char) m->data[i] == file[at + i], "the data is the data of the file");
    if (mapped) {
        CHECK(vf_mapped == 1 && m->map_addr == vf_map_addr && m->map_length == vf_map_len && vf_map_len <= (size_t) P_CUT, "the mapped range is recorded");
        CHECK(m->data == (char*) vf_map_addr + at, "the data lies in the map");
    } else CHECK(m->map_addr == NULL, "a loaded array is not mapped");
    return m;
}
void harness(void)
{
    int p = 0;
    static const unsigned char pre[] = { 0x93, 'N', 'U', 'M', 'P', 'Y', 1, 0 };
    for (int i = 0; i < 8; i++, p++) file[p] = (P_RAW & 1 && i < 6) || (P_RAW & 2 && i >= 6) ? nd_u8() : pre[i];
    file[p++] = P_HL & 255; file[p++] = P_HL >> 8;
    for (int i = 0; i < (int) sizeof(PRE) - 1; i++) file[p++] = PRE[i];
    for (int i = 0; i < P_W; i++) file[p++] = w[i] = nd_u8();
    for (int i = 0; i < (int) sizeof(POST) - 1; i++) file[p++] = POST[i];
    for (int i = 0; i < P_DATA; i++) file[p++] = nd_u8();
    vf_new_file("a.npy", file, TOTAL);
    vf_fs[0].exists = 1; vf_fs[0].len = P_CUT;
    expected();
    size_t n = es; bool big = false;
    for (int i = 0; i < 8; i++) if (good && i < ndim) { if (shape[i] > TOTAL || n > TOTAL) big = n && shape[i] ? true : big; else n *= shape[i]; if (!shape[i]) { big = false; n = 0; } }
    const bool fits = !big && n <= TOTAL && (int) n + 10 + P_HL <= P_CUT && P_CUT >= 10 + P_HL;
    npy_array_t *m = use(npy_array_load("a.npy"), false);
    CHECK(vf_open_files == 0, "the file is closed");
    if (good) CHECK(fits == (m != NULL), "an array is loaded exactly when it is complete");
    if (good && m) {
        CHECK(m->ndim == ndim && m->elem_size == es && m->typechar == tc && m->endianness == en && m->fortran_order == fortran, "type and order are those in the file");
        for (int i = 0; i < 8; i++) if (i < ndim) CHECK(m->shape[i] == shape[i], "the shape is the one in the file");
    }
#if P_MMAP
    npy_array_t *q = use(npy_array_mmap("a.npy"), true);
    CHECK(vf_open_fds == 0, "the file is closed");
    CHECK((q == NULL) == (m == NULL), "mapping fails on exactly the files loading fails on");
    if (m && q) {
        CHECK(m->ndim == q->ndim && m->elem_size == q->elem_size && m->typechar == q->typechar && m->endianness == q->endianness && m->fortran_order == q->fortran_order, "a mapped array is the loaded array");
        for (int i = 0; i < 8; i++) if (i < m->ndim) CHECK(m->shape[i] == q->shape[i], "a mapped array has the shape of the loaded array");
    }
    if (q) npy_array_free(q);
    CHECK(vf_mapped == 0, "the map is released");
#endif
    for (int i = 0; i < TOTAL; i++) if (i < 10 + (int) sizeof(PRE) - 1 && i >= 8) CHECK(file[i] == (i == 8 ? P_HL & 255 : i == 9 ? P_HL >> 8 : (unsigned char) PRE[i - 10]), "the file is not changed");
    const bool got = m != NULL;
    if (m) npy_array_free(m);
    CHECK(vf_live == 0, "nothing is leaked");
#if P_EXPECT & 1
    REACHIF(got, "loaded");
#endif
#if P_EXPECT & 2
    REACHIF(!got, "rejected");
#endif
    REACH("end");
}

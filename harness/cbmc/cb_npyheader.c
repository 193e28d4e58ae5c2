/* C21: the header written for an array is valid NumPy format 1.0 */
#include "cb.h"
#include "npy_array.h"
/* P_LENS: number of digits of every dimension and of the element size; P_NDIM; P_FORTRAN; P_END: 0 given, 1 missing */
static const int lens[] = { P_LENS };
static const unsigned long p10[20] = { 0UL, 10UL, 100UL, 1000UL, 10000UL, 100000UL, 1000000UL, 10000000UL, 100000000UL, 1000000000UL, 10000000000UL,
    100000000000UL, 1000000000000UL, 10000000000000UL, 100000000000000UL, 1000000000000000UL, 10000000000000000UL, 100000000000000000UL,
    1000000000000000000UL, 10000000000000000000UL };
#define CAP 1034                                   /* the documented size of the buffer */
static char buf[CAP + 8];
static int p;
static void literal(const char *s) { for (int i = 0; s[i]; i++, p++) CHECK(buf[p] == s[i], "the dictionary is written in NumPy's syntax, keys and values in order"); }
static bool number(size_t want)
{
    unsigned long v = 0; int n = 0;
    while (vf_isdigit(buf[p]) && n < 21) { v = 10 * v + (buf[p] - '0'); p++; n++; }
    return n > 0 && vf_untoken(v) == want;
}
void harness(void)
{
    npy_array_t m;
    m.data = NULL; m.map_addr = NULL; m.map_length = 0;
    for (int i = 0; i < NPY_ARRAY_MAX_DIMENSIONS; i++) m.shape[i] = vf_nd();
    m.ndim = P_NDIM;
    for (int i = 0; i < P_NDIM; i++) { ASSUME(m.shape[i] >= p10[lens[i] - 1]); if (lens[i] < 20) ASSUME(m.shape[i] < p10[lens[i]]); }
    m.elem_size = vf_nd();
    ASSUME(m.elem_size > 0 && m.elem_size >= p10[lens[P_NDIM] - 1] && m.elem_size < p10[lens[P_NDIM]]);
    const char tc = (char) nd_u8(), en = (char) nd_u8();
    ASSUME((tc >= 'a' && tc <= 'z') || (tc >= 'A' && tc <= 'Z') || tc == '?');
    m.typechar = tc; m.endianness = en; m.fortran_order = P_FORTRAN;
#ifdef VF_CBMC
    for (int i = 0; i <= P_NDIM; i++) vf_toklen[i] = lens[i];
    vf_n_toklen = P_NDIM + 1;
#endif
    for (int i = 0; i < 8; i++) buf[CAP + i] = (char) 0x5a;
    const npy_array_t before = m;
    size_t len = npy_array_get_header(&m, buf);
    for (int i = 0; i < 8; i++) CHECK(buf[CAP + i] == (char) 0x5a, "the header fits the buffer of the documented size");
    CHECK(m.ndim == before.ndim && m.elem_size == before.elem_size && m.typechar == tc && m.endianness == en, "the array is not changed");
    CHECK(len <= CAP && len % 64 == 0 && len > 64, "the total length is a multiple of 64");
    CHECK((unsigned char) buf[0] == 0x93 && buf[1] == 'N' && buf[2] == 'U' && buf[3] == 'M' && buf[4] == 'P' && buf[5] == 'Y', "magic string");
    CHECK(buf[6] == 1 && buf[7] == 0, "version 1.0");
    CHECK((unsigned char) buf[8] + 256u * (unsigned char) buf[9] + 10 == len, "the stated length plus ten is the total length");
    p = 10;
    literal("{'descr': '");
    const char want = en == '<' || en == '>' || en == '|' ? en : m.elem_size == 1 || tc == 'S' ? '|' : '<';
    CHECK(buf[p] == want, "the byte order is the one of the array, or the natural one");
    CHECK(buf[p + 1] == tc, "the type is the one of the array");
    p += 2;
    CHECK(number(m.elem_size), "the element size is the one of the array");
    literal("', 'fortran_order': ");
    if (P_FORTRAN) literal("True"); else literal("False");
    literal(", 'shape': (");
    for (int i = 0; i < P_NDIM; i++) {
        if (i && buf[p] == ' ') p++;
        CHECK(number(m.shape[i]), "the shape is the one of the array");
        /* (a tuple of one element needs the comma) */
        if (i < P_NDIM - 1 || P_NDIM == 1) { CHECK(buf[p] == ',', "the shape is a tuple"); p++; } else if (buf[p] == ',') p++;
    }
    literal(")");
    if (buf[p] == ',') p++;
    while (p < (int) len && buf[p] == ' ') p++;
    literal("}");
    for (; p < (int) len - 1; p++) CHECK(buf[p] == ' ', "the dictionary is padded with spaces");
    CHECK(p == (int) len - 1 && buf[p] == '\n', "the header ends with a newline");
    REACHIF(en == 0 && tc == 'f', "guessed byte order");
    REACH("end");
}

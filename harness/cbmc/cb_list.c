/* C24: lists of arrays and archives of arrays */
#include "cb.h"
#include "npy_array_list.h"
#define L80 "12345678901234567890123456789012345678901234567890123456789012345678901234567890"
static const char *const names[] = { "a.npy", "b.npy", "%d%s%n", "dir/x y", "", L80, L80 "1", L80 L80 "_long.npy", "\xc3\xa5%c", "arr_1.npy" };
static const int ops[] = { P_OPS };                /* 2 * name + (0: append, 1: prepend) */
#define NOPS ((int)(sizeof ops / sizeof *ops))
static const struct { int ndim; size_t shape[3]; size_t es; char type; bool fortran; } kinds[4] = { { 1, { 2 }, 1, 'i', false }, { 2, { 1, 2 }, 2, 'f', true }, { 2, { 3, 0 }, 4, 'f', false }, { 0, { 0 }, 1, 'u', false } };
static size_t bytes_of(int k) { size_t n = kinds[k].es; for (int i = 0; i < kinds[k].ndim; i++) n *= kinds[k].shape[i]; return n; }
static unsigned char value[NOPS][4];
static npy_array_t *make(int i)
{
    const int k = i % 4;
    npy_array_t *a = malloc(sizeof(npy_array_t));
    for (int j = 0; j < NPY_ARRAY_MAX_DIMENSIONS; j++) a->shape[j] = 0;
    for (int j = 0; j < kinds[k].ndim; j++) a->shape[j] = kinds[k].shape[j];
    a->ndim = kinds[k].ndim; a->endianness = kinds[k].es > 1 ? '<' : '|'; a->typechar = kinds[k].type; a->elem_size = kinds[k].es; a->fortran_order = kinds[k].fortran;
    a->map_addr = NULL; a->map_length = 0;
    const size_t n = bytes_of(k);
    a->data = malloc(n ? n : 1);
    for (size_t j = 0; j < n; j++) a->data[j] = (char)(value[i][j] = nd_u8());
    return a;
}
static void is_array(const npy_array_t *a, int i)
{
    const int k = i % 4;
    CHECK(a->ndim == kinds[k].ndim && a->elem_size == kinds[k].es && a->typechar == kinds[k].type && a->fortran_order == kinds[k].fortran, "the type, order and number of dimensions are kept");
    for (int j = 0; j < kinds[k].ndim; j++) CHECK(a->shape[j] == kinds[k].shape[j], "the shape is kept");
    for (size_t j = 0; j < bytes_of(k); j++) CHECK((unsigned char) a->data[j] == value[i][j], "the data is kept");
}
static int order[NOPS + 1], nlist; static const char *lname[NOPS + 1];
void harness(void)
{
    npy_array_list_t *list = NULL;
#if P_MODE == 1                                    /* a list without names */
    npy_array_list_t *tail = NULL;
    for (int i = 0; i < NOPS; i++) {
        npy_array_list_t *e = malloc(sizeof(npy_array_list_t));
        e->array = make(i); e->filename = NULL; e->next = NULL;
        if (tail) tail->next = e; else list = e;
        tail = e; order[nlist] = i; lname[nlist] = i == 0 ? "arr_0.npy" : i == 1 ? "arr_1.npy" : "arr_2.npy"; nlist++;
    }
#else
    for (int i = 0; i < NOPS; i++) {
        npy_array_t *a = make(i);
        const char *name = names[ops[i] / 2];
        /* the name is a format with arguments */
        npy_array_list_t *r = ops[i] & 1 ? npy_array_list_prepend(list, a, i % 2 ? "%s" : "%s%s", name, "") : npy_array_list_append(list, a, i % 2 ? "%s" : "%s%s", name, "");
        if (ops[i] / 2 == 6 || ops[i] / 2 == 7) { CHECK(r == list, "a name that is too long is refused"); npy_array_free(a); continue; }
        CHECK(r != NULL, "the list has the array"); list = r;
        if (ops[i] & 1) { for (int j = nlist; j > 0; j--) { order[j] = order[j - 1]; lname[j] = lname[j - 1]; } order[0] = i; lname[0] = name; } else { order[nlist] = i; lname[nlist] = name; }
        nlist++;
    }
#endif
    CHECK(npy_array_list_length(list) == (size_t) nlist, "the list has the arrays added");
    int k = 0;
    for (npy_array_list_t *p = list; p && k < NOPS; p = p->next, k++) { is_array(p->array, order[k]); if (P_MODE != 1) CHECK(vf_eq_str(p->filename, lname[k]), "the list has the requested names in the requested order"); }
    CHECK(k == nlist, "the list has the arrays added");
    const int comp = nd_int(-2, 100); const unsigned flags = (unsigned) vf_nd();
    const long live = vf_live;
#if P_FAULTS
    vf_zfault_at = P_FAULTS - 1;
#endif
    const int r = P_COMP ? npy_array_list_save_compressed("x.npz", list, comp, flags) : npy_array_list_save("x.npz", list);
    const vf_zip *z = &vf_archive[0];
    CHECK(vf_zip_open_n == 0, "the archive is closed");
    CHECK(vf_zip_sources == 0, "all sources are used or released");
#if P_MODE != 1
    CHECK(vf_live == live, "nothing is leaked by saving");
#endif
    /* which entries are expected */
    int e = 0;
    bool unique = true;
    for (int j = 0; j < nlist; j++) for (int q = 0; q < j; q++) if (vf_eq_str(lname[j], lname[q])) unique = false;
    if (!vf_faulted) {
        CHECK(z->exists && (unique ? r == nlist : r < nlist) && r == z->n, "all arrays are written and counted");
    } else CHECK(r == (z->exists ? z->n : 0) && r <= nlist, "the return value is the number of arrays written");
    for (int j = 0; j < nlist; j++) if (z->exists && e < z->n) {
        if (!vf_eq_str(z->e[e].name, lname[j])) { CHECK(vf_faulted || !unique, "every array has its entry, in order"); continue; }
        bool dup = false;
        for (int q = 0; q < j; q++) if (vf_eq_str(lname[j], lname[q])) dup = true;
        if (dup && !vf_faulted) { CHECK(0, "model: duplicates in a row"); }
        const size_t n = bytes_of(order[j] % 4);
        static char head[1100];
        npy_array_list_t *p = list;
        for (int q = 0; q < j; q++) p = p->next;
        const size_t hl = npy_array_get_header(p->array, head);
        CHECK(z->e[e].len == hl + n, "the entry is the complete array file");
        for (size_t q = 0; q < hl && q < z->e[e].len; q++) CHECK(z->e[e].data[q] == head[q], "the entry starts with the header of the array");
        for (size_t q = 0; q < n; q++) CHECK((unsigned char) z->e[e].data[hl + q] == value[order[j]][q], "the entry has the data of the array");
        if (!vf_faulted) CHECK(z->e[e].comp == (P_COMP ? comp : ZIP_CM_STORE) && (!P_COMP || z->e[e].comp_flags == flags), "every entry has the requested compression");
        e++;
    }
    CHECK(!z->exists || e == z->n, "there are no other entries");
#if P_FAULTS
    REACHIF(vf_faulted, "a failure");
    vf_zfault_at = -1;
#else
    /* load it again */
    int rest = r;
#ifdef P_RENAME                                    /* an archive of another program: any names, an entry that is no array */
    { static const int rn[] = { P_RENAME };
      for (int i = 0; i < (int)(sizeof rn / sizeof *rn); i++)
        if (rn[i] >= 0) { lname[i] = names[rn[i]]; vf_archive[0].e[i].name = names[rn[i]]; }
        else { vf_archive[0].e[i].len = 7; lname[i] = "(no array)"; rest--; unique = false; } }
#endif
    npy_array_list_t *b = npy_array_list_load("x.npz");
    CHECK(vf_zip_open_n == 0 && vf_zip_files_open == 0, "the archive is closed");
    CHECK(npy_array_list_length(b) == (size_t) rest, "the archive is loaded completely");
    k = 0; int j = 0;
    for (npy_array_list_t *p = b; p && k < NOPS; p = p->next, k++) {
        while (j < nlist && !vf_eq_str(p->filename, lname[j])) j++;
        CHECK(unique ? j == k : j < nlist, "names and order are kept");
        if (j < nlist) is_array(p->array, order[j]);
    }
    npy_array_list_free(b);
#endif
#if P_MODE != 1
    CHECK(vf_live == live, "nothing is leaked by loading");
#endif
    npy_array_list_free(list);
    CHECK(vf_live == 0, "releasing a list frees everything");
    REACH("end");
}

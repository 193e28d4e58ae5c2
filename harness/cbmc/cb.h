/* Vocabulary of the CBMC harnesses.  The same source is executed symbolically by cbmc and, with the values of a
   counterexample, natively. */
#ifndef VF_CB_H
#define VF_CB_H
#include "redir.h"
#ifdef VF_CBMC
unsigned long nondet_ulong(void);
extern unsigned long vf_last;
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "CHECK " msg)
/* a state that has to be reachable (otherwise the harness is vacuous): the assertion must fail */
#define REACH(name) __CPROVER_assert(0, "REACH " name)
#define REACHIF(c, name) __CPROVER_assert(!(c), "REACH " name)
#else
extern void vf_check(int c, const char *msg);
extern void vf_assume(int c, const char *text);
#define ASSUME(c) vf_assume((c) ? 1 : 0, #c)
#define CHECK(c, msg) vf_check((c) ? 1 : 0, msg)
extern void vf_reached(const char *name);
#define REACH(name) vf_reached(name)
#define REACHIF(c, name) do { if (c) vf_reached(name); } while (0)
#define __CPROVER_r_ok(p, n) 1
#define __CPROVER_w_ok(p, n) 1
#endif
extern unsigned long vf_nd(void);                    /* any value; recorded in the trace */
static inline int nd_int(int lo, int hi) { int v = (int) vf_nd(); ASSUME(v >= lo && v <= hi); return v; }
static inline size_t nd_size(size_t lo, size_t hi) { size_t v = (size_t) vf_nd(); ASSUME(v >= lo && v <= hi); return v; }
static inline bool nd_bool(void) { return (bool)(vf_nd() & 1); }
static inline unsigned char nd_u8(void) { return (unsigned char) vf_nd(); }
static inline float nd_float(void) { union { uint32_t u; float f; } c; c.u = (uint32_t) vf_nd(); return c.f; }
static inline float nd_finite(void) { union { uint32_t u; float f; } c; c.u = (uint32_t) vf_nd(); ASSUME((c.u & 0x7f800000u) != 0x7f800000u); return c.f; }
static inline uint32_t vf_bits(float f) { union { uint32_t u; float f; } c; c.f = f; return c.u; }
extern const char *vf_kstr; extern size_t vf_klen;   /* a symbolic string of a fixed length */
extern int vf_eq_str(const char *a, const char *b);

/* ---- state of the models (stubs.c) ---- */
extern void *vf_raw_alloc(size_t n);                  /* memory of the harness, not counted */
extern long vf_live;                                 /* allocated blocks */
extern int vf_zops, vf_zfault_at;                     /* the same for the archive library alone */
extern int vf_ops, vf_fault_at, vf_faulted;          /* operation that fails; -1: none */
extern size_t vf_last_align(const void *p);          /* alignment requested for the block p, 0 if none */
extern size_t vf_last_size(const void *p);           /* size requested for it */
extern int vf_n_atexit; extern void vf_run_atexit(void);
/* random numbers */
/* files */
#define VF_FILES 3
typedef struct { const char *name; int exists; unsigned char *data; size_t len, cap; int n_open_w, n_open_r, n_open_a; int append_ok; int no_read, no_write;
                 const char *blob_src; size_t blob_at, blob_len; } vf_inode;
extern vf_inode vf_fs[VF_FILES];
extern int vf_n_fs, vf_open_files, vf_open_fds, vf_mapped; extern size_t vf_write_limit;
extern void *vf_map_addr; extern size_t vf_map_len;
extern vf_inode *vf_find_file(const char *name);
extern vf_inode *vf_new_file(const char *name, unsigned char *buf, size_t cap);
extern void *vf_blob_dst; extern size_t vf_blob_dst_len; extern const char *vf_blob;  extern size_t vf_blob_len;
/* standard output */
#ifndef VF_OUTCAP
#define VF_OUTCAP 256
#endif
extern char vf_out[VF_OUTCAP + 1]; extern int vf_out_len, vf_out_on; extern int vf_out_flushed;
extern void vf_out_char(char c);
/* archives */
#ifndef VF_ENTRIES
#define VF_ENTRIES 8
#endif
typedef struct { const char *name; char *data; size_t len; int comp; unsigned comp_flags; int own; } vf_entry;
typedef struct { const char *name; int exists; vf_entry e[VF_ENTRIES]; int n; int open, closed; } vf_zip;
extern vf_zip vf_archive[2]; extern int vf_n_archives, vf_zip_open_n, vf_zip_files_open, vf_zip_writes, vf_zip_sources;
extern char *vf_zip_saved_name[4];
/* floats in text */
typedef struct { double v; int at; } vf_ftoken;
extern double vf_fval[32]; extern int vf_nfval;
extern long vf_ival; extern int vf_nival;            /* the last integer printed (VF_OPAQUEINT) */
/* numbers in text (VF_TOKENS): printed as a token of the given length that stands for the value */
#ifdef VF_TOKENS
extern int vf_toklen[VF_TOKENS], vf_n_toklen, vf_ntok; extern unsigned long vf_tok[VF_TOKENS], vf_tokcode[VF_TOKENS];
#endif
extern unsigned long vf_untoken(unsigned long v);
/* terminal */
extern int vf_tty, vf_cols, vf_ioctl_ok;
/* time */
extern struct tm vf_tm;
extern void vf_init(void);
#endif

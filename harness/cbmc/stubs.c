/* Models of the system interfaces the library uses: heap, strings, stdio, files, archive library, loader, terminal.
   Compiled with the harness for cbmc, and for the native replay of a counterexample. */
#include "cb.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef abort
#undef exit

#ifdef VF_CBMC
unsigned long vf_last;
unsigned long vf_nd(void) { unsigned long v = nondet_ulong(); __CPROVER_input("vf_nd", v); return v; }
void vf_assert_(int c, const char *text) { __CPROVER_assert(c, "CHECK assertion of the library"); __CPROVER_assume(c); }
void vf_abort(void) { __CPROVER_assert(0, "CHECK the library aborts"); __CPROVER_assume(0); }
void vf_exit(int r) { __CPROVER_assert(0, "CHECK the library exits"); __CPROVER_assume(0); }
#endif

long vf_std[3];
long vf_live;
int vf_ops, vf_fault_at = -1, vf_faulted;
/* does the next operation fail? */
static int vf_fault(void)
{
    if (vf_fault_at < 0) return 0;
    if (vf_ops++ == vf_fault_at) { vf_faulted = 1; return 1; }
    return 0;
}

/* failures of the archive library alone */
int vf_zops, vf_zfault_at = -1;
static int vf_zfault(void)
{
    if (vf_zfault_at >= 0 && vf_zops++ == vf_zfault_at) { vf_faulted = 1; return 1; }
    return vf_fault();
}

/* ------------------------------------------------------------------ heap */
#ifndef VF_MAXALLOC
#define VF_MAXALLOC ((size_t) 1 << 40)
#endif
#ifndef VF_CBMC
/* natively, huge blocks are only reserved */
#undef mmap
static void *vf_big[16]; static size_t vf_bign[16];
static void *vf_raw_malloc(size_t n)
{
    if (n < ((size_t) 1 << 26)) return (malloc)(n);
    void *p = (mmap)(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return NULL;
    for (int i = 0; i < 16; i++) if (!vf_big[i]) { vf_big[i] = p; vf_bign[i] = n; break; }
    return p;
}
#undef munmap
static void vf_raw_free(void *p) { for (int i = 0; i < 16; i++) if (p && vf_big[i] == p) { vf_big[i] = NULL; (munmap)(p, vf_bign[i]); return; } (free)(p); }
#define mmap vf_mmap
#define munmap vf_munmap
#define malloc vf_raw_malloc
#define free vf_raw_free
#endif
/* blocks of the size of a structure are given its type: the solver's simplifier then sees through them */
#if defined(VF_CBMC) && defined(VF_TYPED)
#include "npy_array.h"
#include "npy_array_list.h"
#ifdef VF_NETTYPES
#include "neuralnet.h"
/* (by size; a wrong guess only costs time) */
typedef struct { layer_t l[2]; } vf_layer2; typedef struct { layer_t l[3]; } vf_layer3; typedef struct { layer_t l[4]; } vf_layer4;
#define VF_NT0(T) if (n == sizeof(T)) { T *p = malloc(sizeof(T)); *p = (T) { 0 }; return p; }
#define VF_NT(T) if (n == sizeof(T)) return malloc(sizeof(T));
#define VF_NTP(K) if (n == (K) * sizeof(void*)) { void **p = malloc((K) * sizeof(void*)); for (int i = 0; i < (K); i++) p[i] = NULL; return p; }
static int vf_n24;
static void *vf_typed_net(size_t n)
{
    if (n == sizeof(neuralnet_t)) {             /* (networks,) lists, pointers to arrays, networks */
        int k = vf_n24++;
        if (k >= VF_LIST0 && k < VF_LIST1) return malloc(sizeof(npy_array_list_t));
        if (VF_PTRS == 3 && k == VF_LIST1) return malloc(3 * sizeof(void*));
        return malloc(sizeof(neuralnet_t));
    }
    if (VF_PTRS != 3 && n == VF_PTRS * sizeof(void*)) return malloc(VF_PTRS * sizeof(void*));
    return NULL;
}
static void *vf_typed_net0(size_t n, size_t s)
{
    if (s == sizeof(layer_t)) { n *= s; VF_NT0(layer_t) VF_NT0(vf_layer2) VF_NT0(vf_layer3) VF_NT0(vf_layer4) }
    else if (s == sizeof(void*)) { n *= s; VF_NTP(1) VF_NTP(2) VF_NTP(3) VF_NTP(4) }
    return NULL;
}
#else
#define vf_typed_net(n) NULL
#define vf_typed_net0(n, s) NULL
#endif
static void *vf_typed(size_t n)
{
    if (n == sizeof(npy_array_t)) return malloc(sizeof(npy_array_t));
    if (n == sizeof(npy_array_list_t)) return malloc(sizeof(npy_array_list_t));
    return NULL;
}
static void *vf_typed0(size_t n)
{
    if (n == sizeof(npy_array_t)) { npy_array_t *p = malloc(sizeof(npy_array_t)); *p = (npy_array_t) { 0 }; return p; }
    if (n == sizeof(npy_array_list_t)) { npy_array_list_t *p = malloc(sizeof(npy_array_list_t)); *p = (npy_array_list_t) { 0 }; return p; }
    return NULL;
}
#else
#define vf_typed(n) NULL
#define vf_typed0(n) NULL
#define vf_typed_net(n) NULL
#define vf_typed_net0(n, s) NULL
#endif
void *vf_raw_alloc(size_t n) { return malloc(n); }
void *vf_malloc(size_t n)
{
    if (vf_fault()) return NULL;
#ifndef VF_NOMAX
    if (n > VF_MAXALLOC) return NULL;
#endif
    void *p = vf_typed_net(n);
    if (!p) p = vf_typed(n);
    if (!p) p = malloc(n);
    if (p) vf_live++;
    return p;
}
void *vf_calloc(size_t n, size_t s)
{
    if (vf_fault() || (s && n > VF_MAXALLOC / s)) return NULL;
    void *p = vf_typed0(n * s);
    if (!p) p = vf_typed_net0(n, s);
    if (!p) p = calloc(n, s);
    if (p) vf_live++;
    return p;
}
void *vf_realloc(void *q, size_t n)
{
    if (vf_fault() || n > VF_MAXALLOC) return NULL;
#ifdef VF_CBMC
    char *p = malloc(n);
    if (q) { size_t old = __CPROVER_OBJECT_SIZE(q); for (size_t i = 0; i < n && i < old; i++) p[i] = ((char*) q)[i]; free(q); }
#else
    void *p = realloc(q, n);
#endif
    if (p && !q) vf_live++;
    return p;
}
#ifndef VF_ALIGNED
#define VF_ALIGNED 24
#endif
static void *vf_al_p[VF_ALIGNED]; static size_t vf_al_a[VF_ALIGNED], vf_al_s[VF_ALIGNED]; static int vf_al_n;
static int vf_aligned_live;
void vf_free(void *p)
{
    if (p) vf_live--;
    free(p);
}
void *vf_mm_malloc(size_t n, size_t align)
{
    if (vf_fault() || n > VF_MAXALLOC) return NULL;
    void *p = malloc(n);
    if (p) { vf_live++; if (vf_al_n < VF_ALIGNED) { vf_al_p[vf_al_n] = p; vf_al_s[vf_al_n] = n; vf_al_a[vf_al_n++] = align; } }
    return p;
}
size_t vf_last_align(const void *p) { for (int i = vf_al_n - 1; i >= 0; i--) if (vf_al_p[i] == p) return vf_al_a[i]; return 0; }
size_t vf_last_size(const void *p) { for (int i = vf_al_n - 1; i >= 0; i--) if (vf_al_p[i] == p) return vf_al_s[i]; return 0; }
int vf_posix_memalign(void **r, size_t a, size_t n) { void *p = vf_mm_malloc(n, a); if (!p) return ENOMEM; *r = p; return 0; }
void *vf_aligned_alloc(size_t a, size_t n) { return vf_mm_malloc(n, a); }
#define VF_ATEXIT 24
static void (*vf_ax[VF_ATEXIT])(void); int vf_n_atexit;
int vf_atexit(void (*f)(void))
{
    CHECK(vf_n_atexit < VF_ATEXIT, "model: too many atexit registrations");
    if (vf_n_atexit < VF_ATEXIT) vf_ax[vf_n_atexit++] = f;
    return 0;
}
void vf_run_atexit(void) { while (vf_n_atexit > 0) { vf_n_atexit--; vf_ax[vf_n_atexit](); } }

/* ------------------------------------------------------------------ strings */
/* a symbolic string whose length the harness fixed (it assumes the bytes before to be non-zero) */
const char *vf_kstr; size_t vf_klen;
size_t vf_strlen(const char *s) { size_t n = 0;
#ifdef VF_CBMC
    if (vf_kstr && s == vf_kstr) return vf_klen;
#endif
    while (s[n]) n++; return n; }
size_t vf_strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int vf_strcmp(const char *a, const char *b)
{
    size_t i = 0;
    while (a[i] && a[i] == b[i]) i++;
    return (int)(unsigned char) a[i] - (int)(unsigned char) b[i];
}
int vf_strncmp(const char *a, const char *b, size_t n)
{
    for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char) a[i] - (int)(unsigned char) b[i]; if (!a[i]) return 0; }
    return 0;
}
int vf_eq_str(const char *a, const char *b) { return vf_strcmp(a, b) == 0; }
#undef memcpy
#undef memmove
#undef memset
#if defined(VF_CBMC) && defined(VF_NETTYPES)
void *vf_memcpy(void *d, const void *s, size_t n)
{
    if (n == sizeof(npy_array_t)) { *(npy_array_t*) d = *(const npy_array_t*) s; return d; }
    for (size_t i = 0; i < n; i++) ((char*) d)[i] = ((const char*) s)[i];
    return d;
}
#else
void *vf_memcpy(void *d, const void *s, size_t n) { for (size_t i = 0; i < n; i++) ((char*) d)[i] = ((const char*) s)[i]; return d; }
#endif
void *vf_memmove(void *d, const void *s, size_t n) { if ((char*) d <= (const char*) s) return vf_memcpy(d, s, n); for (size_t i = n; i > 0; i--) ((char*) d)[i - 1] = ((const char*) s)[i - 1]; return d; }
void *vf_memset(void *d, int c, size_t n) { for (size_t i = 0; i < n; i++) ((char*) d)[i] = (char) c; return d; }
int vf_memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *x = a, *y = b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return (int) x[i] - (int) y[i];
    return 0;
}
char *vf_strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
char *vf_stpcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d + i; }
char *vf_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *vf_strcat(char *d, const char *s) { vf_strcpy(d + vf_strlen(d), s); return d; }
char *vf_strncat(char *d, const char *s, size_t n) { size_t k = vf_strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char *vf_strchr(const char *s, int c) { for (;; s++) { if (*s == (char) c) return (char*) s; if (!*s) return NULL; } }
char *vf_strrchr(const char *s, int c) { char *r = NULL; for (;; s++) { if (*s == (char) c) r = (char*) s; if (!*s) return r; } }
void *vf_memchr(const void *p, int c, size_t n) { const unsigned char *s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char) c) return (void*)(s + i); return NULL; }
char *vf_strstr(const char *h, const char *n)
{
    if (!n[0]) return (char*) h;
    for (size_t i = 0; h[i]; i++) {
        int found = 1;
        for (size_t k = 0; n[k]; k++) if (h[i + k] != n[k]) { found = 0; break; }
        if (found) return (char*)(h + i);
    }
    return NULL;
}
size_t vf_strspn(const char *s, const char *set) { size_t i = 0; while (s[i] && vf_strchr(set, s[i])) i++; return i; }
size_t vf_strcspn(const char *s, const char *set) { size_t i = 0; while (s[i] && !vf_strchr(set, s[i])) i++; return i; }
char *vf_strpbrk(const char *s, const char *set) { size_t i = vf_strcspn(s, set); return s[i] ? (char*)(s + i) : NULL; }
char *vf_strdup(const char *s) { char *p = vf_malloc(vf_strlen(s) + 1); if (p) vf_strcpy(p, s); return p; }
char *vf_strndup(const char *s, size_t n) { size_t k = vf_strnlen(s, n); char *p = vf_malloc(k + 1); if (p) { for (size_t i = 0; i < k; i++) p[i] = s[i]; p[k] = 0; } return p; }
int vf_isdigit(int c) { return c >= '0' && c <= '9'; }
int vf_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int vf_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int vf_isalnum(int c) { return vf_isdigit(c) || vf_isalpha(c); }
int vf_isprint(int c) { return c >= 32 && c < 127; }
unsigned long vf_untoken(unsigned long v);
long vf_strtol(const char *s, char **end, int base)
{
    const char *q = s; int neg = 0, any = 0, over = 0; unsigned long v = 0;
    CHECK(base == 10, "model: strtol with another base");
    while (vf_isspace(*q)) q++;
    if (*q == '-' || *q == '+') { neg = *q == '-'; q++; }
    while (vf_isdigit(*q)) {
        unsigned d = *q - '0';
        if (over || v > (unsigned long) LONG_MAX / 10 || v * 10 > (unsigned long) LONG_MAX - d) over = 1;
        else v = v * 10 + d;
        any = 1; q++;
    }
    if (end) *end = (char*)(any ? q : s);
#if defined(VF_TOKENS) && defined(VF_CBMC)
    if (any) { v = vf_untoken(v); over = v > LONG_MAX; }
#endif
    if (over) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
    return neg ? -(long) v : (long) v;
}
int vf_atoi(const char *s) { return (int) vf_strtol(s, NULL, 10); }
long vf_atol(const char *s) { return vf_strtol(s, NULL, 10); }
char *vf_strerror(int e) { return "error"; }

/* ------------------------------------------------------------------ formatted output */
char vf_out[VF_OUTCAP + 1]; int vf_out_len, vf_out_on, vf_out_flushed;
double vf_fval[32]; int vf_nfval; long vf_ival; int vf_nival;
struct vf_sink { char *buf; size_t cap; size_t n; int out; };         /* n: characters produced */
static void vf_emit(struct vf_sink *s, char c)
{
#ifdef VF_OUTCHAR
    if (s->out) vf_out_char(c);                             /* the harness looks at the output while it is printed */
#else
    if (s->out) { if (vf_out_on) { CHECK(vf_out_len < VF_OUTCAP, "model: output longer than the capture"); if (vf_out_len < VF_OUTCAP) vf_out[vf_out_len++] = c; } }
#endif
    else if (s->buf && s->n < s->cap) s->buf[s->n] = c;
    s->n++;
}
static const unsigned long vf_p10[20] = { 1UL, 10UL, 100UL, 1000UL, 10000UL, 100000UL, 1000000UL, 10000000UL, 100000000UL, 1000000000UL, 10000000000UL,
    100000000000UL, 1000000000000UL, 10000000000000UL, 100000000000000UL, 1000000000000000UL, 10000000000000000UL, 100000000000000000UL,
    1000000000000000000UL, 10000000000000000000UL };
#ifndef VF_DIGITS
#define VF_DIGITS 20
#endif
/* decimal digits of v, most significant first; returns their number.  The digits are chosen nondeterministically and tied
   to v by a constraint, which is much cheaper for the solver than divisions. */
static int vf_digits_small(unsigned long v, char *d);
#ifdef VF_TOKENS
int vf_toklen[VF_TOKENS], vf_n_toklen, vf_ntok; unsigned long vf_tok[VF_TOKENS], vf_tokcode[VF_TOKENS];
#endif
/* the number a text stands for */
unsigned long vf_untoken(unsigned long v)
{
#if defined(VF_TOKENS) && defined(VF_CBMC)
    for (int t = 0; t < vf_ntok; t++) if (vf_tokcode[t] == v) return vf_tok[t];
#endif
    return v;
}
static int vf_digits(unsigned long v, char *d)
{
#if defined(VF_TOKENS) && defined(VF_CBMC)                   /* a number in text stands for its value; its length is given by the harness */
    {
        CHECK(vf_ntok < VF_TOKENS, "model: too many numbers printed");
        int t = vf_ntok < VF_TOKENS ? vf_ntok++ : 0, n = t < vf_n_toklen ? vf_toklen[t] : 1;
        unsigned long code = n == 1 ? 1 + t : vf_p10[n - 1] + t;
        vf_tok[t] = v; vf_tokcode[t] = code;
        CHECK(n < 20 ? (v < vf_p10[n] && (n == 1 || v >= vf_p10[n - 1])) : v >= vf_p10[19], "model: length of a number");
        return vf_digits_small(code, d);
    }
#endif
#ifdef VF_CONSTDIGITS                                        /* only constants are printed */
    return vf_digits_small(v, d);
#endif
    int n = 1;
    while (n < VF_DIGITS && v >= vf_p10[n]) n++;
#ifdef VF_CBMC
    unsigned long sum = 0; unsigned char dig[20];
    for (int i = 0; i < n; i++) {
        unsigned char x = (unsigned char) nondet_ulong();
        __CPROVER_assume(x <= 9);
        d[i] = (char)('0' + x);
        sum += vf_p10[n - 1 - i] * x;
    }
    __CPROVER_assume(sum == v);
    __CPROVER_assume(n < 20 || d[0] == '1');
#else
    for (int i = n - 1; i >= 0; i--) { d[i] = (char)('0' + v % 10); v /= 10; }
#endif
    return n;
}
static int vf_digits_small(unsigned long v, char *d)       /* constants and small values */
{
    char t[20]; int n = 0;
    do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v && n < 20);
    for (int i = 0; i < n; i++) d[i] = t[n - 1 - i];
    return n;
}
#ifndef VF_FLEN
#define VF_FLEN 12
#endif
/* a float in text: an opaque word of the longest length a float in that format can have (its value is recorded) */
static void vf_format(struct vf_sink *s, const char *f, va_list ap)
{
    while (*f) {
        if (*f != '%') { vf_emit(s, *f++); continue; }
        f++;
        if (*f == '%') { vf_emit(s, '%'); f++; continue; }
        int left = 0, zero = 0, width = 0, prec = -1, lng = 0, plus = 0;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else if (*f == '+') plus = 1; else if (*f == ' ') plus = 2; else break; }
        if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = 1; width = -width; } f++; }
        else while (vf_isdigit(*f)) width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (vf_isdigit(*f)) prec = prec * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l') lng++; else if (*f == 'z' || *f == 'j' || *f == 't') lng = 1; else if (*f == 'h') ; else break; }
        char tmp[24]; const char *str = tmp; int n = 0, neg = 0;
        if (*f == 'd' || *f == 'i') {
            long v = lng ? va_arg(ap, long) : (long) va_arg(ap, int);
#ifdef VF_OPAQUEINT                                          /* recorded, and printed as a word */
            vf_ival = v; vf_nival++; tmp[0] = '0'; tmp[1] = '1'; tmp[2] = '2'; n = 3;
#else
            unsigned long u = v;
            if (v < 0) { neg = 1; u = -u; }
            n = vf_digits(u, tmp);
#endif
        } else if (*f == 'u') {
            unsigned long u = lng ? va_arg(ap, unsigned long) : (unsigned long) va_arg(ap, unsigned);
            n = vf_digits(u, tmp);
        } else if (*f == 'c') {
#ifdef VF_CBMC
            tmp[0] = va_arg(ap, char);      /* cbmc does not promote variadic arguments */
#else
            tmp[0] = (char) va_arg(ap, int);
#endif
            n = 1; zero = 0;
        } else if (*f == 's') {
            str = va_arg(ap, const char *);
            if (!str) str = "(null)";
            n = (int)(prec >= 0 ? vf_strnlen(str, prec) : vf_strlen(str)); zero = 0;
        } else if (*f == 'e' || *f == 'f' || *f == 'g') {
#ifdef VF_CBMC
            double v;                       /* cbmc does not promote variadic arguments */
            if (__CPROVER_OBJECT_SIZE(*(void **) ap) == sizeof(float)) v = va_arg(ap, float); else v = va_arg(ap, double);
#else
            double v = va_arg(ap, double);
#endif
            if (vf_nfval < 32) vf_fval[vf_nfval] = v;
            int k = vf_nfval++;
            n = VF_FLEN;                                    /* e.g. -1.00000e-38 */
            tmp[0] = '<'; for (int i = 1; i < n - 1; i++) tmp[i] = (char)('a' + k % 26); tmp[n - 1] = '>'; zero = 0;
            if (*f != 'e' || prec != 5) tmp[1] = *f == 'e' ? 'E' : *f;
        } else if (*f == 'p') {
            (void) va_arg(ap, void *); tmp[0] = '0'; tmp[1] = 'x'; tmp[2] = '1'; n = 3;
        } else { CHECK(0, "model: unsupported conversion in a format string"); return; }
        if (*f) f++;
        int sign = neg || plus, pad = width - n - sign;
        if (!left && !zero) for (int i = 0; i < pad; i++) vf_emit(s, ' ');
        if (sign) vf_emit(s, neg ? '-' : plus == 1 ? '+' : ' ');
        if (!left && zero) for (int i = 0; i < pad; i++) vf_emit(s, '0');
        for (int i = 0; i < n; i++) vf_emit(s, str[i]);
        if (left) for (int i = 0; i < pad; i++) vf_emit(s, ' ');
    }
}
int vf_vsnprintf(char *buf, size_t cap, const char *f, va_list ap)
{
    struct vf_sink s = { buf, cap ? cap - 1 : 0, 0, 0 };
    vf_format(&s, f, ap);
    if (cap) buf[s.n < cap - 1 ? s.n : cap - 1] = 0;
    return (int) s.n;
}
int vf_vsprintf(char *buf, const char *f, va_list ap) { return vf_vsnprintf(buf, (size_t) 1 << 30, f, ap); }
int vf_sprintf(char *buf, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vsnprintf(buf, (size_t) 1 << 30, f, ap); va_end(ap); return r; }
int vf_snprintf(char *buf, size_t cap, const char *f, ...) { va_list ap; va_start(ap, f); int r = vf_vsnprintf(buf, cap, f, ap); va_end(ap); return r; }

/* ------------------------------------------------------------------ files */
vf_inode vf_fs[VF_FILES]; int vf_n_fs, vf_open_files, vf_open_fds, vf_mapped; size_t vf_write_limit = (size_t) -1;
void *vf_map_addr; size_t vf_map_len;
void *vf_blob_dst; size_t vf_blob_dst_len; const char *vf_blob; size_t vf_blob_len;
typedef struct { vf_inode *ino; size_t pos; int mode; int eof, err; int open; } vf_stream;
#ifndef VF_STREAMS
#define VF_STREAMS 4
#endif
static vf_stream vf_streams[VF_STREAMS]; static int vf_next_stream;
vf_inode *vf_find_file(const char *name)
{
    for (int i = 0; i < vf_n_fs; i++) if (vf_eq_str(vf_fs[i].name, name)) return &vf_fs[i];
    return NULL;
}
vf_inode *vf_new_file(const char *name, unsigned char *buf, size_t cap)
{
    vf_inode *f = &vf_fs[vf_n_fs++];
    f->name = name; f->data = buf; f->cap = cap; f->len = 0; f->exists = 0;
    return f;
}
FILE *vf_fopen(const char *name, const char *mode)
{
    if (vf_fault()) { errno = EACCES; return NULL; }
    vf_inode *f = vf_find_file(name);
    CHECK(mode[0] == 'r' || mode[0] == 'w' || mode[0] == 'a', "model: file mode");
    if (!f || (mode[0] == 'r' && (!f->exists || f->no_read)) || (mode[0] != 'r' && f->no_write)) { errno = ENOENT; return NULL; }
    CHECK(vf_next_stream < VF_STREAMS, "model: too many streams");
    vf_stream *s = &vf_streams[vf_next_stream++];
    s->ino = f; s->mode = mode[0]; s->eof = s->err = 0; s->open = 1;
    f->exists = 1;
    if (mode[0] == 'w') { f->len = 0; f->blob_len = 0; f->blob_src = NULL; f->n_open_w++; } else if (mode[0] == 'a') f->n_open_a++; else f->n_open_r++;
    s->pos = mode[0] == 'a' ? f->len : 0;
    vf_open_files++;
    return (FILE*) s;
}
int vf_fclose(FILE *fp)
{
    vf_stream *s = (vf_stream*) fp;
    CHECK(s->open, "fclose of a stream that is not open");
    s->open = 0; vf_open_files--;
    return vf_fault() ? EOF : 0;
}
size_t vf_fwrite(const void *p, size_t size, size_t n, FILE *fp)
{
    vf_stream *s = (vf_stream*) fp;
    size_t k = size * n;
    CHECK(s->open && s->mode != 'r', "fwrite to a stream not open for writing");
    if (vf_fault()) k = k ? k - 1 : 0;
    if (k > vf_write_limit) k = vf_write_limit;
    if (vf_blob && p == (const void*) vf_blob) {             /* large data: recorded, not copied */
#ifdef VF_CBMC
        CHECK(__CPROVER_r_ok(p, k), "the data written lies in the array");
#else
        for (size_t i = 0; i < k; i++) { (void) ((volatile const char*) p)[i]; if (i == 65536 && k > 200000) i = k - 65536; }
#endif
        s->ino->blob_src = p; s->ino->blob_at = s->pos; s->ino->blob_len = k;
        s->pos += k; if (s->pos > s->ino->len) s->ino->len = s->pos;
        return size ? k / size : 0;
    }
    CHECK(s->pos + k <= s->ino->cap, "model: file larger than its buffer");
    for (size_t i = 0; i < k; i++) s->ino->data[s->pos + i] = ((const unsigned char*) p)[i];
    s->pos += k; if (s->pos > s->ino->len) s->ino->len = s->pos;
    return size ? k / size : 0;
}
size_t vf_fread(void *p, size_t size, size_t n, FILE *fp)
{
    vf_stream *s = (vf_stream*) fp;
    size_t k = size * n, left = s->ino->len - s->pos;
    CHECK(s->open && s->mode == 'r', "fread from a stream not open for reading");
    if (vf_fault()) { s->err = 1; left = left ? left - 1 : 0; if (k) k--; }
    if (s->ino->blob_src && s->pos + k <= s->ino->blob_at) ; /* (before the large data) */
    else if (k > left) { k = left; s->eof = 1; }
    if (s->ino->blob_src && s->pos >= s->ino->blob_at) {
#ifdef VF_CBMC
        CHECK(__CPROVER_w_ok(p, k), "the buffer for the data is large enough");
#else
        { const char *from = s->ino->blob_src + (s->pos - s->ino->blob_at); if (k > 200000) { memcpy(p, from, 65536); memcpy((char*) p + k - 65536, from + k - 65536, 65536); } else if (k) memcpy(p, from, k); }
#endif
        vf_blob_dst = p; vf_blob_dst_len = k;
        CHECK(s->pos == s->ino->blob_at, "the data is read from its beginning");
        s->pos += k;
        return size ? k / size : 0;
    }
#ifdef VF_LEFT                     /* the length of the file is a constant, but not that of the block */
    for (size_t i = 0; i < left && i < k; i++) ((unsigned char*) p)[i] = s->ino->data[s->pos + i];
#else
    for (size_t i = 0; i < k; i++) ((unsigned char*) p)[i] = s->ino->data[s->pos + i];
#endif
    s->pos += k;
    return size == 1 ? k : size ? k / size : 0;
}
char *vf_fgets(char *b, int n, FILE *fp)
{
    vf_stream *s = (vf_stream*) fp; int i = 0;
    CHECK(s->open && s->mode == 'r', "fgets from a stream not open for reading");
    if (vf_fault()) { s->err = 1; return NULL; }
    while (i < n - 1 && s->pos < s->ino->len) { char c = (char) s->ino->data[s->pos++]; b[i++] = c; if (c == '\n') break; }
    if (i == 0) { s->eof = 1; return NULL; }
    b[i] = 0;
    return b;
}
int vf_fgetc(FILE *fp) { vf_stream *s = (vf_stream*) fp; if (s->pos >= s->ino->len) { s->eof = 1; return EOF; } return s->ino->data[s->pos++]; }
int vf_feof(FILE *fp) { return ((vf_stream*) fp)->eof; }
int vf_ferror(FILE *fp) { return ((vf_stream*) fp)->err; }
int vf_fseek(FILE *fp, long off, int whence)
{
    vf_stream *s = (vf_stream*) fp;
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long) s->pos : (long) s->ino->len;
    if (vf_fault() || base + off < 0) return -1;
    s->pos = base + off; s->eof = 0;
    return 0;
}
long vf_ftell(FILE *fp) { return (long) ((vf_stream*) fp)->pos; }
void vf_rewind(FILE *fp) { ((vf_stream*) fp)->pos = 0; }
int vf_fflush(FILE *fp) { vf_out_flushed = vf_out_len; return 0; }
static int vf_is_std(FILE *fp) { return fp == stdout || fp == stderr; }
int vf_vfprintf(FILE *fp, const char *f, va_list ap)
{
    if (fp == stderr) return 1;
    if (fp == stdout) { if (!vf_out_on) return 1; struct vf_sink s = { NULL, 0, 0, 1 }; vf_format(&s, f, ap); return (int) s.n; }
    vf_stream *st = (vf_stream*) fp;
    CHECK(st->open && st->mode != 'r', "fprintf to a stream not open for writing");
    if (st->mode == 'a') st->pos = st->ino->len;
    if (vf_fault()) return -1;
    struct vf_sink s = { (char*) st->ino->data + st->pos, st->ino->cap - st->pos, 0, 0 };
    vf_format(&s, f, ap);
    CHECK(st->pos + s.n <= st->ino->cap, "model: file larger than its buffer");
    st->pos += s.n; if (st->pos > st->ino->len) st->ino->len = st->pos;
    return (int) s.n;
}
int vf_vprintf(const char *f, va_list ap) { return vf_vfprintf(stdout, f, ap); }
int vf_fprintf(FILE *fp, const char *f, ...) { if (fp == stderr) return 1; va_list ap; va_start(ap, f); int r = vf_vfprintf(fp, f, ap); va_end(ap); return r; }
int vf_printf(const char *f, ...) { if (!vf_out_on) return 1; va_list ap; va_start(ap, f); int r = vf_vfprintf(stdout, f, ap); va_end(ap); return r; }
static void vf_write_std(FILE *fp, const char *s, size_t n)
{
    if (fp == stderr) return;
    struct vf_sink k = { NULL, 0, 0, 1 };
    if (fp == stdout) { if (vf_out_on) for (size_t i = 0; i < n; i++) vf_emit(&k, s[i]); return; }
    vf_stream *st = (vf_stream*) fp;
    if (st->mode == 'a') st->pos = st->ino->len;
    vf_fwrite(s, 1, n, fp);
}
int vf_fputs(const char *s, FILE *fp) { vf_write_std(fp, s, vf_strlen(s)); return 1; }
int vf_puts(const char *s) { vf_write_std(stdout, s, vf_strlen(s)); vf_write_std(stdout, "\n", 1); return 1; }
int vf_fputc(int c, FILE *fp) { char b = (char) c; vf_write_std(fp, &b, 1); return c; }
int vf_putchar(int c) { return vf_fputc(c, stdout); }
void vf_perror(const char *s) { }
int vf_sscanf(const char *s, const char *f, ...) { CHECK(0, "model: sscanf"); return 0; }
int vf_access(const char *name, int m) { vf_inode *f = vf_find_file(name); return f && f->exists && !(m == R_OK && f->no_read) && !(m == W_OK && f->no_write) ? 0 : -1; }

/* file descriptors and maps */
static vf_inode *vf_fd_ino[4]; static size_t vf_fd_pos[4]; static int vf_fd_open[4]; static int vf_next_fd;
int vf_open(const char *name, int flags, ...)
{
    vf_inode *f = vf_find_file(name);
    if (vf_fault() || !f || !f->exists || f->no_read) { errno = ENOENT; return -1; }
    CHECK((flags & O_ACCMODE) == O_RDONLY && !(flags & (O_TRUNC | O_CREAT | O_APPEND)), "the file is opened for reading only");
    CHECK(vf_next_fd < 4, "model: too many descriptors");
    int i = vf_next_fd++;
    vf_fd_ino[i] = f; vf_fd_pos[i] = 0; vf_fd_open[i] = 1; vf_open_fds++;
    return 10 + i;
}
int vf_close(int fd) { int i = fd - 10; CHECK(i >= 0 && i < 4 && vf_fd_open[i], "close of a descriptor that is not open"); vf_fd_open[i] = 0; vf_open_fds--; return 0; }
off_t vf_lseek(int fd, off_t off, int whence)
{
    int i = fd - 10;
    CHECK(i >= 0 && i < 4 && vf_fd_open[i], "lseek on a descriptor that is not open");
    if (vf_fault()) return -1;
    vf_fd_pos[i] = (whence == SEEK_SET ? 0 : whence == SEEK_CUR ? vf_fd_pos[i] : vf_fd_ino[i]->len) + off;
    return (off_t) vf_fd_pos[i];
}
int vf_fstat(int fd, struct stat *st)
{
    int i = fd - 10;
    CHECK(i >= 0 && i < 4 && vf_fd_open[i], "fstat on a descriptor that is not open");
    if (vf_fault()) return -1;
    st->st_size = (off_t) vf_fd_ino[i]->len; st->st_mode = S_IFREG | 0644;
    return 0;
}
void *vf_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off)
{
    int i = fd - 10;
    CHECK(i >= 0 && i < 4 && vf_fd_open[i], "mmap of a descriptor that is not open");
    CHECK(!(prot & PROT_WRITE) || (flags & MAP_PRIVATE), "the map cannot modify the file");
    if (vf_fault() || len == 0 || len > VF_MAXALLOC) { errno = EINVAL; return MAP_FAILED; }
    /* the map has the length of the file at least: bytes beyond the end are not accessible (they raise SIGBUS or are
       not part of the file) */
    size_t n = vf_fd_ino[i]->len - off;
    if (n > len) n = len;
    char *m = malloc(n);
    for (size_t k = 0; k < n; k++) m[k] = (char) vf_fd_ino[i]->data[off + k];
    vf_mapped++; vf_map_addr = m; vf_map_len = len;
    return m;
}
int vf_munmap(void *p, size_t len)
{
    CHECK(vf_mapped == 1 && p == vf_map_addr && len == vf_map_len, "munmap of exactly the mapped range");
    vf_mapped--;
    free(p);
    return 0;
}

/* ------------------------------------------------------------------ terminal, time, random numbers, mathematics */
int vf_tty = 0, vf_cols = 80, vf_ioctl_ok = 1;
int vf_isatty(int fd) { return vf_tty; }
int vf_ioctl(int fd, unsigned long req, ...)
{
    va_list ap; va_start(ap, req);
    struct winsize *w = va_arg(ap, struct winsize *);
    va_end(ap);
    if (!vf_ioctl_ok) return -1;
    w->ws_col = (unsigned short) vf_cols; w->ws_row = 25;
    return 0;
}
struct tm vf_tm;
time_t vf_time(time_t *t) { if (t) *t = 1700000000; return 1700000000; }
struct tm *vf_localtime(const time_t *t) { return &vf_tm; }
#ifndef VF_OWN_RAND
int vf_rand(void) { int v = (int) vf_nd(); ASSUME(v >= 0 && v <= RAND_MAX); return v; }
#endif
void vf_srand(unsigned s) { }

/* contracts of the mathematical functions, as far as a check uses them */
#ifdef VF_EXACTMATH
/* computed, for constant arguments (the solver's simplifier evaluates them) */
#undef sqrtf
#undef logf
#undef expf
#undef tanhf
#undef sqrt
#undef log
#undef exp
#undef tanh
#undef powf
#undef expm1f
#undef log1pf
#undef expm1
#undef log1p
#undef roundf
#undef cosf
#undef sinf
static double vf_dexp(double x)
{
    if (x > 700) return INFINITY;
    if (x < -700) return 0;
    int n = (int)(x * 1.4426950408889634 + (x < 0 ? -0.5 : 0.5));
    double r = x - n * 0.69314718055994531, t = 1, s = 1;
    for (int i = 1; i < 16; i++) { t = t * r / i; s += t; }
    double b = 2, h = 0.5;
    for (int m = n < 0 ? -n : n; m; m >>= 1) { if (m & 1) s *= n < 0 ? h : b; b *= b; h *= h; }
    return s;
}
static double vf_dlog(double x)
{
    if (x <= 0) return -INFINITY;
    int n = 0;
    while (x > 1.5) { x *= 0.5; n++; }
    while (x < 0.75) { x *= 2; n--; }
    double z = (x - 1) / (x + 1), z2 = z * z, t = z, s = 0;
    for (int i = 1; i < 30; i += 2) { s += t / i; t *= z2; }
    return 2 * s + n * 0.69314718055994531;
}
static double vf_dsqrt(double x) { if (x <= 0) return 0; double g = x > 1 ? x : 1; for (int i = 0; i < 40; i++) g = 0.5 * (g + x / g); return g; }
static double vf_dtanh(double x) { if (x > 20) return 1; if (x < -20) return -1; double e = vf_dexp(2 * x); return (e - 1) / (e + 1); }
float vf_sqrtf(float x) { return (float) vf_dsqrt(x); }
float vf_logf(float x) { return (float) vf_dlog(x); }
float vf_expf(float x) { double r = vf_dexp(x); return r > 3.4028235677973366e38 ? INFINITY : (float) r; }
float vf_tanhf(float x) { return (float) vf_dtanh(x); }
double vf_sqrt(double x) { return vf_dsqrt(x); }
double vf_log(double x) { return vf_dlog(x); }
double vf_exp(double x) { return vf_dexp(x); }
double vf_tanh(double x) { return vf_dtanh(x); }
double vf_expm1(double x) { return x > -1e-9 && x < 1e-9 ? x : vf_dexp(x) - 1; }
double vf_log1p(double x) { return x > -1e-9 && x < 1e-9 ? x : vf_dlog(1 + x); }
float vf_expm1f(float x) { return (float) vf_expm1(x); }
float vf_log1pf(float x) { return (float) vf_log1p(x); }
float vf_powf(float x, float y) { return (float) vf_dexp(y * vf_dlog(x)); }
float vf_roundf(float x) { if (!(x > -8388608.0f && x < 8388608.0f)) return x; return x < 0 ? -(float)(int)(-x + 0.5) : (float)(int)((double) x + 0.5); }
float vf_cosf(float x) { CHECK(0, "model: cosf"); return 0; }
float vf_sinf(float x) { CHECK(0, "model: sinf"); return 0; }
#elif defined(VF_CBMC)
static float vf_anyf(void) { union { uint32_t u; float f; } c; c.u = (uint32_t) nondet_ulong(); return c.f; }
#ifdef VF_UFMATH                             /* the same value for the same argument */
float __CPROVER_uninterpreted_sqrtf(float); float __CPROVER_uninterpreted_logf(float);
#define VF_ANYSQRT(x) __CPROVER_uninterpreted_sqrtf(x)
#define VF_ANYLOG(x) __CPROVER_uninterpreted_logf(x)
#else
#define VF_ANYSQRT(x) vf_anyf()
#define VF_ANYLOG(x) vf_anyf()
#endif
float vf_sqrtf(float x)
{
    if (x == 0.0f) return x;
    float r = VF_ANYSQRT(x);
    if (x > 0.0f && x <= 3.402823466e38f) __CPROVER_assume(r > 0.0f && r <= 1.8446743e19f && (x < 1.0f ? r >= x && r <= 1.0f : r <= x && r >= 1.0f));
    else __CPROVER_assume(x > 0.0f ? r == INFINITY : r != r);
#ifdef VF_SQRTACC
    if (x > 1e-3f && x < 1e3f) __CPROVER_assume(r * r <= x * 1.000001f && r * r >= x * 0.999999f);
#endif
    return r;
}
float vf_logf(float x)
{
    float r = VF_ANYLOG(x);
    if (x > 0.0f && x < 1.0f) __CPROVER_assume(r < 0.0f && r >= -104.0f);
    else if (x == 1.0f) __CPROVER_assume(r == 0.0f);
    else if (x > 1.0f && x <= 3.402823466e38f) __CPROVER_assume(r > 0.0f && r <= 89.0f);
    else if (x == 0.0f) __CPROVER_assume(r == -INFINITY);
    else __CPROVER_assume(x > 0.0f ? r == INFINITY : r != r);
    return r;
}
float vf_expf(float x)
{
    float r = vf_anyf();
    __CPROVER_assume(!(x == x) || (r >= 0.0f && (x > 0.0f ? r >= 1.0f : r <= 1.0f)));
    __CPROVER_assume(!(x <= 88.0f) || r <= 1.7e38f);
    return r;
}
float vf_tanhf(float x) { float r = vf_anyf(); __CPROVER_assume(!(x == x) || (r >= -1.0f && r <= 1.0f)); return r; }
double vf_sqrt(double x) { return vf_sqrtf((float) x); }
double vf_log(double x) { return vf_logf((float) x); }
double vf_exp(double x) { return vf_expf((float) x); }
double vf_tanh(double x) { return vf_tanhf((float) x); }
float vf_expm1f(float x) { return vf_expf(x) - 1.0f; }
float vf_log1pf(float x) { return vf_logf(1.0f + x); }
double vf_expm1(double x) { return vf_expf((float) x) - 1.0f; }
double vf_log1p(double x) { return vf_logf((float)(1 + x)); }
float vf_powf(float x, float y) { return vf_anyf(); }
float vf_roundf(float x) { float r = vf_anyf(); return r; }
float vf_cosf(float x) { float r = vf_anyf(); __CPROVER_assume(r >= -1.0f && r <= 1.0f); return r; }
float vf_sinf(float x) { float r = vf_anyf(); __CPROVER_assume(r >= -1.0f && r <= 1.0f); return r; }
#else
#undef sqrtf
#undef logf
#undef expf
#undef tanhf
#undef sqrt
#undef log
#undef exp
#undef tanh
#undef powf
#undef expm1f
#undef log1pf
#undef expm1
#undef log1p
#undef roundf
#undef cosf
#undef sinf
float vf_sqrtf(float x) { return sqrtf(x); }
float vf_logf(float x) { return logf(x); }
float vf_expf(float x) { return expf(x); }
float vf_tanhf(float x) { return tanhf(x); }
double vf_sqrt(double x) { return sqrt(x); }
double vf_log(double x) { return log(x); }
double vf_exp(double x) { return exp(x); }
double vf_tanh(double x) { return tanh(x); }
float vf_powf(float x, float y) { return powf(x, y); }
float vf_expm1f(float x) { return expm1f(x); }
float vf_log1pf(float x) { return log1pf(x); }
double vf_expm1(double x) { return expm1(x); }
double vf_log1p(double x) { return log1p(x); }
float vf_roundf(float x) { return roundf(x); }
float vf_cosf(float x) { return cosf(x); }
float vf_sinf(float x) { return sinf(x); }
#endif

/* ------------------------------------------------------------------ archive library */
vf_zip vf_archive[2]; int vf_n_archives, vf_zip_open_n, vf_zip_files_open, vf_zip_writes, vf_zip_sources;
char *vf_zip_saved_name[4];
typedef struct { vf_zip *z; int mode; vf_entry e[VF_ENTRIES]; int n; int open; } vf_zhandle;
typedef struct { vf_zhandle *h; int idx; size_t pos; int open; } vf_zfile;
typedef struct { char *data; size_t len; int freep; int live; } vf_zsource;
static vf_zhandle vf_zh[4]; static int vf_nzh;
static vf_zfile vf_zf[8]; static int vf_nzf;
static vf_zsource vf_zs[VF_ENTRIES + 2]; static int vf_nzs;
zip_t *vf_zip_open(const char *name, int flags, int *err)
{
    if (vf_zfault()) return NULL;
    int create = (flags & ZIP_CREATE) != 0;
    vf_zip *z = NULL;
    if (create) {
        CHECK(flags & ZIP_TRUNCATE, "an existing archive is replaced");
        if (vf_zip_writes < 4) vf_zip_saved_name[vf_zip_writes] = (char*) name;
        vf_zip_writes++;
        if (vf_n_archives == 0) vf_n_archives = 1;
        z = &vf_archive[0];
    } else {
        for (int i = 0; i < vf_n_archives; i++) if (vf_archive[i].exists) z = &vf_archive[i];
        if (!z) return NULL;
    }
    CHECK(vf_nzh < 4, "model: too many archives opened");
    vf_zhandle *h = &vf_zh[vf_nzh++];
    h->z = z; h->mode = create; h->open = 1; h->n = 0;
    if (!create) { h->n = z->n; for (int i = 0; i < z->n; i++) h->e[i] = z->e[i]; }
    vf_zip_open_n++;
    return (zip_t*) h;
}
static void vf_zip_drop(vf_zhandle *h)
{
    for (int i = 0; i < h->n; i++) if (h->mode && h->e[i].own) { free(h->e[i].data); vf_live--; }
    h->open = 0; vf_zip_open_n--;
}
int vf_zip_close(zip_t *p)
{
    vf_zhandle *h = (vf_zhandle*) p;
    CHECK(h->open, "zip_close of an archive that is open");
    if (vf_zfault()) return -1;                                /* the handle stays valid */
    if (h->mode) {
        vf_zip *z = h->z;
        z->exists = h->n > 0; z->n = h->n; z->closed++;
        for (int i = 0; i < h->n; i++) {
            z->e[i] = h->e[i];
            /* the archive keeps the bytes; the buffer is released by the library */
            char *copy = malloc(h->e[i].len ? h->e[i].len : 1);
            for (size_t k = 0; k < h->e[i].len; k++) copy[k] = h->e[i].data[k];
            z->e[i].data = copy; z->e[i].own = 0;
        }
    }
    vf_zip_drop(h);
    return 0;
}
void vf_zip_discard(zip_t *p) { vf_zhandle *h = (vf_zhandle*) p; CHECK(h->open, "zip_discard of an archive that is open"); vf_zip_drop(h); }
zip_int64_t vf_zip_get_num_entries(zip_t *p, zip_flags_t f) { vf_zhandle *h = (vf_zhandle*) p; CHECK(h->open, "archive is open"); return h->n; }
zip_file_t *vf_zip_fopen_index(zip_t *p, zip_uint64_t i, zip_flags_t f)
{
    vf_zhandle *h = (vf_zhandle*) p;
    CHECK(h->open, "archive is open");
    if (vf_zfault() || i >= (zip_uint64_t) h->n) return NULL;
    CHECK(vf_nzf < 8, "model: too many entries opened");
    vf_zfile *z = &vf_zf[vf_nzf++];
    z->h = h; z->idx = (int) i; z->pos = 0; z->open = 1; vf_zip_files_open++;
    return (zip_file_t*) z;
}
int vf_zip_fclose(zip_file_t *p) { vf_zfile *z = (vf_zfile*) p; CHECK(z->open, "zip_fclose of an open entry"); z->open = 0; vf_zip_files_open--; return 0; }
zip_int64_t vf_zip_fread(zip_file_t *p, void *buf, zip_uint64_t n)
{
    vf_zfile *z = (vf_zfile*) p;
    CHECK(z->open && z->h->open, "zip_fread from an open entry");
    if (vf_zfault()) return -1;
    vf_entry *e = &z->h->e[z->idx];
    size_t left = e->len - z->pos, k = n < left ? n : left;
    for (size_t i = 0; i < k; i++) ((char*) buf)[i] = e->data[z->pos + i];
    z->pos += k;
    return (zip_int64_t) k;
}
const char *vf_zip_get_name(zip_t *p, zip_uint64_t i, zip_flags_t f)
{
    vf_zhandle *h = (vf_zhandle*) p;
    CHECK(h->open, "archive is open");
    if (vf_zfault() || i >= (zip_uint64_t) h->n) return NULL;
    return h->e[i].name;
}
static zip_source_t *vf_new_source(const void *d, zip_uint64_t n, int freep)
{
    if (vf_fault()) return NULL;
    CHECK(vf_nzs < VF_ENTRIES + 2, "model: too many sources");
    vf_zsource *s = &vf_zs[vf_nzs++];
    s->data = (char*) d; s->len = n; s->freep = freep; s->live = 1; vf_zip_sources++;
    return (zip_source_t*) s;
}
zip_source_t *vf_zip_source_buffer_create(const void *d, zip_uint64_t n, int freep, zip_error_t *e) { return vf_new_source(d, n, freep); }
zip_source_t *vf_zip_source_buffer(zip_t *z, const void *d, zip_uint64_t n, int freep) { return vf_new_source(d, n, freep); }
void vf_zip_source_free(zip_source_t *p)
{
    vf_zsource *s = (vf_zsource*) p;
    if (!s) return;
    CHECK(s->live, "a source is released once");
    s->live = 0; vf_zip_sources--;
    if (s->freep) { free(s->data); vf_live--; }
}
zip_int64_t vf_zip_file_add(zip_t *p, const char *name, zip_source_t *src, zip_flags_t f)
{
    vf_zhandle *h = (vf_zhandle*) p; vf_zsource *s = (vf_zsource*) src;
    CHECK(h->open && h->mode, "archive is open for writing");
    if (vf_zfault()) return -1;
    for (int i = 0; i < h->n; i++)
        if (vf_eq_str(h->e[i].name, name)) {
            if (!(f & ZIP_FL_OVERWRITE)) return -1;            /* ZIP_ER_EXISTS */
            CHECK(0, "model: overwriting entries");
        }
    CHECK(h->n < VF_ENTRIES, "model: too many entries");
    CHECK(s->live, "the source added is valid");
    s->live = 0; vf_zip_sources--;
    vf_entry *e = &h->e[h->n];
    size_t k = vf_strlen(name);
    char *copy = malloc(k + 1);
    for (size_t i = 0; i <= k; i++) copy[i] = name[i];
    e->name = copy; e->data = s->data; e->len = s->len; e->own = s->freep; e->comp = -1; e->comp_flags = 0;
    return h->n++;
}
int vf_zip_set_file_compression(zip_t *p, zip_uint64_t i, zip_int32_t comp, zip_uint32_t flags)
{
    vf_zhandle *h = (vf_zhandle*) p;
    if (vf_zfault() || i >= (zip_uint64_t) h->n) return -1;
    h->e[i].comp = comp; h->e[i].comp_flags = flags;
    return 0;
}
const char *vf_zip_strerror(zip_t *p) { return "error"; }
zip_int64_t vf_zip_name_locate(zip_t *p, const char *name, zip_flags_t f)
{
    vf_zhandle *h = (vf_zhandle*) p;
    for (int i = 0; i < h->n; i++) if (vf_eq_str(h->e[i].name, name)) return i;
    return -1;
}
int vf_zip_stat_index(zip_t *p, zip_uint64_t i, zip_flags_t f, zip_stat_t *st)
{
    vf_zhandle *h = (vf_zhandle*) p;
    if (vf_zfault() || i >= (zip_uint64_t) h->n) return -1;
    st->valid = ZIP_STAT_NAME | ZIP_STAT_INDEX | ZIP_STAT_SIZE; st->name = h->e[i].name; st->index = i; st->size = h->e[i].len;
    return 0;
}
#ifndef VF_OWN_LOADER
void *vf_dlopen(const char *f, int m) { return NULL; }
void *vf_dlsym(void *h, const char *n) { return NULL; }
int vf_dlclose(void *h) { CHECK(0, "no library is open"); return 0; }
char *vf_dlerror(void) { return "error"; }
#endif

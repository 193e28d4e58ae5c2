/* Included before every translation unit of the library and of the harness: the system interfaces are replaced by
   the models of stubs.c, both for the solver and for the native replay. */
#ifndef VF_REDIR_H
#define VF_REDIR_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stddef.h>
#include <limits.h>
#include <errno.h>
#include <math.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <assert.h>
#include <zip.h>
#include <mm_malloc.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/ioctl.h>
#include <sys/types.h>
#undef putc
#undef putchar
#undef assert
#define assert(c) vf_assert_((c) ? 1 : 0, #c)
extern void vf_assert_(int c, const char *text);
/* the standard streams: distinct objects */
extern long vf_std[3];
#undef stdin
#undef stdout
#undef stderr
#define stdin ((FILE*) &vf_std[0])
#define stdout ((FILE*) &vf_std[1])
#define stderr ((FILE*) &vf_std[2])
/* prototypes */
extern __typeof__(malloc) vf_malloc;
extern __typeof__(calloc) vf_calloc;
extern __typeof__(realloc) vf_realloc;
extern __typeof__(free) vf_free;
extern __typeof__(posix_memalign) vf_posix_memalign;
extern __typeof__(aligned_alloc) vf_aligned_alloc;
extern __typeof__(strdup) vf_strdup;
extern __typeof__(strndup) vf_strndup;
extern __typeof__(atexit) vf_atexit;
extern __typeof__(abort) vf_abort;
extern __typeof__(exit) vf_exit;
extern __typeof__(strlen) vf_strlen;
extern __typeof__(strnlen) vf_strnlen;
extern __typeof__(strcmp) vf_strcmp;
extern __typeof__(strncmp) vf_strncmp;
extern __typeof__(strcpy) vf_strcpy;
extern __typeof__(strncpy) vf_strncpy;
extern __typeof__(stpcpy) vf_stpcpy;
extern __typeof__(strcat) vf_strcat;
extern __typeof__(strncat) vf_strncat;
extern __typeof__(strchr) vf_strchr;
extern __typeof__(strrchr) vf_strrchr;
extern __typeof__(strstr) vf_strstr;
extern __typeof__(strspn) vf_strspn;
extern __typeof__(strcspn) vf_strcspn;
extern __typeof__(strpbrk) vf_strpbrk;
extern __typeof__(memchr) vf_memchr;
extern __typeof__(memcmp) vf_memcmp;
extern __typeof__(strtol) vf_strtol;
extern __typeof__(atoi) vf_atoi;
extern __typeof__(atol) vf_atol;
extern __typeof__(strerror) vf_strerror;
extern __typeof__(fopen) vf_fopen;
extern __typeof__(fclose) vf_fclose;
extern __typeof__(fread) vf_fread;
extern __typeof__(fwrite) vf_fwrite;
extern __typeof__(fgets) vf_fgets;
extern __typeof__(feof) vf_feof;
extern __typeof__(ferror) vf_ferror;
extern __typeof__(fseek) vf_fseek;
extern __typeof__(ftell) vf_ftell;
extern __typeof__(rewind) vf_rewind;
extern __typeof__(fflush) vf_fflush;
extern __typeof__(printf) vf_printf;
extern __typeof__(fprintf) vf_fprintf;
extern __typeof__(vprintf) vf_vprintf;
extern __typeof__(vfprintf) vf_vfprintf;
extern __typeof__(sprintf) vf_sprintf;
extern __typeof__(snprintf) vf_snprintf;
extern __typeof__(vsprintf) vf_vsprintf;
extern __typeof__(vsnprintf) vf_vsnprintf;
extern __typeof__(puts) vf_puts;
extern __typeof__(fputs) vf_fputs;
extern int vf_putchar(int);
extern __typeof__(fputc) vf_fputc;
extern __typeof__(perror) vf_perror;
extern __typeof__(sscanf) vf_sscanf;
extern __typeof__(close) vf_close;
extern __typeof__(lseek) vf_lseek;
extern __typeof__(fstat) vf_fstat;
extern __typeof__(mmap) vf_mmap;
extern __typeof__(munmap) vf_munmap;
extern __typeof__(access) vf_access;
extern __typeof__(isatty) vf_isatty;
extern __typeof__(rand) vf_rand;
extern __typeof__(srand) vf_srand;
extern __typeof__(time) vf_time;
extern __typeof__(localtime) vf_localtime;
extern __typeof__(dlopen) vf_dlopen;
extern __typeof__(dlsym) vf_dlsym;
extern __typeof__(dlclose) vf_dlclose;
extern __typeof__(dlerror) vf_dlerror;
extern __typeof__(sqrtf) vf_sqrtf;
extern __typeof__(sqrt) vf_sqrt;
extern __typeof__(logf) vf_logf;
extern __typeof__(log) vf_log;
extern __typeof__(expf) vf_expf;
extern __typeof__(exp) vf_exp;
extern __typeof__(tanhf) vf_tanhf;
extern __typeof__(tanh) vf_tanh;
extern __typeof__(expm1f) vf_expm1f;
extern __typeof__(log1pf) vf_log1pf;
extern __typeof__(expm1) vf_expm1;
extern __typeof__(log1p) vf_log1p;
extern __typeof__(powf) vf_powf;
extern __typeof__(roundf) vf_roundf;
extern __typeof__(cosf) vf_cosf;
extern __typeof__(sinf) vf_sinf;
extern __typeof__(zip_open) vf_zip_open;
extern __typeof__(zip_close) vf_zip_close;
extern __typeof__(zip_discard) vf_zip_discard;
extern __typeof__(zip_get_num_entries) vf_zip_get_num_entries;
extern __typeof__(zip_fopen_index) vf_zip_fopen_index;
extern __typeof__(zip_fclose) vf_zip_fclose;
extern __typeof__(zip_fread) vf_zip_fread;
extern __typeof__(zip_get_name) vf_zip_get_name;
extern __typeof__(zip_source_buffer_create) vf_zip_source_buffer_create;
extern __typeof__(zip_source_buffer) vf_zip_source_buffer;
extern __typeof__(zip_source_free) vf_zip_source_free;
extern __typeof__(zip_file_add) vf_zip_file_add;
extern __typeof__(zip_set_file_compression) vf_zip_set_file_compression;
extern __typeof__(zip_strerror) vf_zip_strerror;
extern __typeof__(zip_name_locate) vf_zip_name_locate;
extern __typeof__(zip_stat_index) vf_zip_stat_index;
extern void *vf_mm_malloc(size_t n, size_t align);
extern int vf_fgetc(FILE *fp);
extern int vf_open(const char *name, int flags, ...);
extern int vf_ioctl(int fd, unsigned long req, ...);
extern int vf_isdigit(int), vf_isspace(int), vf_isalpha(int), vf_isalnum(int), vf_isprint(int);
/* heap */
#define malloc vf_malloc
#define calloc vf_calloc
#define realloc vf_realloc
#define free vf_free
#define posix_memalign vf_posix_memalign
#define aligned_alloc vf_aligned_alloc
#define _mm_malloc vf_mm_malloc
#define _mm_free vf_free
#define strdup vf_strdup
#define strndup vf_strndup
#define atexit vf_atexit
#define abort vf_abort
#define exit vf_exit
/* strings */
#define strlen vf_strlen
#define strnlen vf_strnlen
#define strcmp vf_strcmp
#define strncmp vf_strncmp
#define strcpy vf_strcpy
#define strncpy vf_strncpy
#define stpcpy vf_stpcpy
#define strcat vf_strcat
#define strncat vf_strncat
#define strchr vf_strchr
#define strrchr vf_strrchr
#define strstr vf_strstr
#define strspn vf_strspn
#define strcspn vf_strcspn
#define strpbrk vf_strpbrk
#define memchr vf_memchr
#define memcmp vf_memcmp
extern void *vf_memcpy(void *, const void *, size_t), *vf_memmove(void *, const void *, size_t), *vf_memset(void *, int, size_t);
#ifdef VF_BYTECOPY
#define memcpy vf_memcpy
#define memmove vf_memmove
#define memset vf_memset
#endif
#define strtol vf_strtol
#define strtoll vf_strtol
#define strtoul vf_strtoul
#define strtoull vf_strtoul
#define atoi vf_atoi
#define atol vf_atol
#define atoll vf_atol
#define strerror vf_strerror
#undef isdigit
#undef isspace
#undef isalpha
#undef isalnum
#undef isprint
#define isdigit vf_isdigit
#define isspace vf_isspace
#define isalpha vf_isalpha
#define isalnum vf_isalnum
#define isprint vf_isprint
/* stdio */
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#define fwrite vf_fwrite
#define fgets vf_fgets
#undef getc
#define fgetc vf_fgetc
#define getc vf_fgetc
#define feof vf_feof
#define ferror vf_ferror
#define fseek vf_fseek
#define ftell vf_ftell
#define rewind vf_rewind
#define fflush vf_fflush
#define printf vf_printf
#define fprintf vf_fprintf
#define vprintf vf_vprintf
#define vfprintf vf_vfprintf
#define sprintf vf_sprintf
#define snprintf vf_snprintf
#define vsprintf vf_vsprintf
#define vsnprintf vf_vsnprintf
#define puts vf_puts
#define fputs vf_fputs
#define putchar vf_putchar
#define fputc vf_fputc
#define putc vf_fputc
#define perror vf_perror
#define sscanf vf_sscanf
/* system */
#define open vf_open
#define close vf_close
#define lseek vf_lseek
#define fstat vf_fstat
#define mmap vf_mmap
#define munmap vf_munmap
#define access vf_access
#define isatty vf_isatty
#define ioctl vf_ioctl
#define rand vf_rand
#define srand vf_srand
#define time vf_time
#define localtime vf_localtime
#define dlopen vf_dlopen
#define dlsym vf_dlsym
#define dlclose vf_dlclose
#define dlerror vf_dlerror
/* math whose value is given by a contract */
#define sqrtf vf_sqrtf
#define sqrt vf_sqrt
#define logf vf_logf
#define log vf_log
#define expf vf_expf
#define exp vf_exp
#define tanhf vf_tanhf
#define tanh vf_tanh
#define expm1f vf_expm1f
#define log1pf vf_log1pf
#define expm1 vf_expm1
#define log1p vf_log1p
#define powf vf_powf
#define roundf vf_roundf
#define cosf vf_cosf
#define sinf vf_sinf
/* libzip */
#define zip_open vf_zip_open
#define zip_close vf_zip_close
#define zip_discard vf_zip_discard
#define zip_get_num_entries vf_zip_get_num_entries
#define zip_fopen_index vf_zip_fopen_index
#define zip_fclose vf_zip_fclose
#define zip_fread vf_zip_fread
#define zip_get_name vf_zip_get_name
#define zip_source_buffer_create vf_zip_source_buffer_create
#define zip_source_buffer vf_zip_source_buffer
#define zip_source_free vf_zip_source_free
#define zip_file_add vf_zip_file_add
#define zip_set_file_compression vf_zip_set_file_compression
#define zip_strerror vf_zip_strerror
#define zip_name_locate vf_zip_name_locate
#define zip_stat_index vf_zip_stat_index
#endif

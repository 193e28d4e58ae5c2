/* native replay of a counterexample: the nondeterministic values come from the command line */
#include "cb.h"
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef abort
#undef exit
#undef printf
#undef fprintf
#undef fflush
#undef strtoul
#undef stdout
static int argn, argi = 1; static char **args; static int failed;
unsigned long vf_nd(void)
{
    if (argi < argn) return strtoul(args[argi++], NULL, 0);
    return 0;
}
void vf_assert_(int c, const char *text) { if (!c) { printf("FAILED assertion of the library: %s\n", text); fflush(stdout); _exit(7); } }
void vf_abort(void) { printf("FAILED the library aborts\n"); fflush(stdout); _exit(7); }
void vf_exit(int r) { printf("FAILED the library exits\n"); fflush(stdout); _exit(7); }
void vf_check(int c, const char *msg) { if (!c) { printf("FAILED %s\n", msg); fflush(stdout); failed = 1; } }
void vf_assume(int c, const char *text) { if (!c) { printf("ASSUMPTION %s\n", text); fflush(stdout); _exit(failed ? 7 : 3); } }
void vf_reached(const char *name) { printf("REACHED %s\n", name); }
extern void harness(void);
int main(int argc, char **argv)
{
    argn = argc; args = argv;
    harness();
    printf("%s\n", failed ? "VIOLATED" : "PASSED");
    fflush(stdout);
    _exit(failed ? 7 : 0);
}

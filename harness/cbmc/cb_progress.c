/* C34: the progress bar, against its documented layout: an automaton reads the output character by character */
#include "cb.h"
#include "progress.h"
#ifndef P_WMAX
#define P_WMAX 24
#endif
#ifndef P_EXTRA
#define P_EXTRA 7                          /* brackets, blank, percentage, end of line */
#endif
#ifndef P_STR
#define P_STR ""
#endif
static const char label[] = P_STR;         /* constant: the library's label buffer has a variable length */
static char formatted;
static int len;
static int phase, k, c, e, pct; static char eol;
void vf_out_char(char ch)
{
    if (phase == 0) {
        if (k < len) {
            CHECK(ch == (k < (int) sizeof label - 1 ? label[k] : formatted), "the label is printed literally, with its arguments");
            k++; return;
        }
        CHECK(ch == '[', "the bar is opened"); phase = 1; return;
    }
    if (phase == 1) {
        if (ch == '#') { CHECK(e == 0, "the filled part comes first"); c++; return; }
        if (ch == '-') { e++; return; }
        CHECK(ch == ']', "the bar is closed"); phase = 2; return;
    }
    if (phase == 2) { CHECK(ch == ' ', "a blank follows"); phase = 3; pct = 0; k = 0; return; }
    if (phase == 3) {
        if (k < 3) {
            CHECK(vf_isdigit(ch) || (ch == ' ' && pct == 0 && k < 2), "the percentage is a number in three columns");
            pct = 10 * pct + (ch == ' ' ? 0 : ch - '0'); k++; return;
        }
        CHECK(ch == '%', "a percentage follows"); phase = 4; return;
    }
    if (phase == 4) { eol = ch; phase = 5; return; }
    CHECK(0, "nothing follows the end of the line");
}
void harness(void)
{
    vf_tty = nd_bool(); vf_ioctl_ok = nd_bool();
#ifdef P_COLS
    vf_cols = P_COLS; ASSUME(vf_ioctl_ok);
#else
    vf_cols = nd_int(0, P_WMAX);
#ifdef P_NODEFAULT
    ASSUME(!vf_tty || (vf_ioctl_ok && vf_cols > 0));
#endif
#endif
    int cols = !vf_tty ? 0 : vf_ioctl_ok && vf_cols > 0 ? vf_cols : 80;
#if defined(P_SMALL)
    int n = nd_int(1, P_SMALL), x = nd_int(0, P_SMALL);
    ASSUME(x <= n);
#elif defined(P_N)
    const int n = P_N; int x = nd_int(INT_MIN, INT_MAX);
#else
    int x = nd_int(INT_MIN, INT_MAX), n = nd_int(INT_MIN, INT_MAX);
#endif
    vf_out_on = 1;
    len = sizeof label - 1;
#ifdef P_CHAR
    formatted = (char) nd_u8(); ASSUME(formatted != 0);
    len++;
    progress_ascii(x, n, "%s%c", label, formatted);
#else
    progress_ascii(x, n, "%s", label);
#endif
    int w = cols - P_EXTRA - len;
    if (w < 1) { CHECK(phase == 0 && k == 0, "nothing is printed when there is no room or no terminal"); REACH("no room"); return; }
    CHECK(phase == 5, "label, bar and percentage are printed");
    CHECK(c + e == w, "the bar has the available width");
    CHECK(eol == (x == n ? '\n' : '\r'), "the line ends with a newline exactly when the position equals the total");
    CHECK(pct >= 0 && pct <= 100, "the percentage is between 0 and 100");
#ifdef P_ENDS
    if (x >= n && n > 0) CHECK(c == w && pct == 100, "the bar is full at completion");
    if (x <= 0 && n > 0) CHECK(c == 0 && pct == 0, "the bar is empty at the beginning");
    CHECK((pct < 100 || c == w) && (c < w || pct == 100), "the bar is full exactly at 100 percent");
#endif
#if defined(P_SMALL)
    CHECK(c * n <= w * x + n && c * n + n >= w * x, "the filled part is proportional to the position");
    CHECK(pct * n <= 100 * x + n && pct * n + n >= 100 * x, "the percentage is that of the position");
#endif
#ifdef P_N
    REACHIF(x > n, "beyond the end");
#else
    if (w > 1) REACHIF(c > 0 && c < w, "partly filled");
#endif
    REACH("end");
}

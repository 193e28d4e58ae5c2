/* C32: the logger: every line complete, numbering continues from the log */
#include "cb.h"
#include "logger.h"
#include "metrics.h"
#include "optimizer.h"
#ifndef P_METRICS
#define P_METRICS 2
#endif
#ifndef P_CAP
#define P_CAP 700
#endif
#ifndef P_LINE
#define P_LINE 260
#endif
static const char *const all[8] = { "mean_squared_error", "categorical_accuracy", "binary_accuracy", "mean_absolute_error", "binary_crossentropy", "categorical_crossentropy", "mean_absolute_percentage_error", "(unknown)" };
static float foreign(int n, const float *p, const float *t) { return 0.0f; }
static metric_func mf[P_METRICS + 1];
static const char *mname[P_METRICS];
static optimizer_t opt;
static unsigned char content[P_CAP];
static char out[P_LINE]; static int nout;
void vf_out_char(char c) { CHECK(nout < P_LINE, "model: long line"); out[nout++] = c; }
static vf_inode *logf_;
static const char line_start[] = "[01:02:03] Epoch ";

#if P_MODE == 0 || P_MODE == 1
static float res[2 * P_METRICS];
/* the text is one line with the epoch number and all names and values, in order */
static void check_line(const char *t, int len, long epoch, bool valid, int first)
{
    int p = 0;
    CHECK(len > 0 && t[len - 1] == '\n', "the line is complete");
    for (int i = 0; i < len - 1; i++) CHECK(t[i] != '\n', "exactly one line is written for an epoch");
    while (p < len && t[p] != 'E') p++;
    CHECK(p + 6 < len && t[p + 1] == 'p' && t[p + 2] == 'o' && t[p + 3] == 'c' && t[p + 4] == 'h' && t[p + 5] == ' ', "the line has the epoch");
    p += 5;
    while (t[p] == ' ') p++;
    long v = 0; int digits = 0;
    while (vf_isdigit(t[p]) && digits < 11) { v = 10 * v + (t[p] - '0'); p++; digits++; }
    CHECK(digits > 0 && v == epoch, "the epochs are numbered consecutively from the right number");
    for (int ph = 0; ph < (valid ? 2 : 1); ph++) for (int i = 0; i < P_METRICS; i++) {
        while (t[p] == ' ') p++;
        if (ph) { CHECK(t[p] == 'v' && t[p + 1] == 'a' && t[p + 2] == 'l' && t[p + 3] == '_', "validation results have a prefix"); p += 4; }
        for (int k = 0; mname[i][k]; k++) { CHECK(t[p] == mname[i][k], "the names of the metrics are in the line, in order"); p++; }
        CHECK(t[p] == ':', "a value follows the name"); p++;
        while (t[p] == ' ') p++;
#ifdef VF_CBMC
        CHECK(t[p] == '<' && t[p + 2] == 'a' + (first + ph * P_METRICS + i) % 26, "the values are in the line, in order");
        double w = vf_fval[first + ph * P_METRICS + i];
        CHECK(vf_bits((float) w) == vf_bits(res[ph * P_METRICS + i]), "the values are those of the epoch");
        p += VF_FLEN;
#else
        CHECK(t[p] == '<' && t[p + 2] == 'a' + (first + ph * P_METRICS + i) % 26 && vf_bits((float) vf_fval[first + ph * P_METRICS + i]) == vf_bits(res[ph * P_METRICS + i]), "the values are those of the epoch");
        p += VF_FLEN;
#endif
    }
    while (p < len - 1) { CHECK(t[p] == ' ', "nothing else is in the line"); p++; }
}
#endif

static void one_epoch(callback_t *cb, int mode, long number, bool valid, bool quiet)
{
#if P_MODE == 0 || P_MODE == 1
    for (int i = 0; i < 2 * P_METRICS; i++) res[i] = nd_finite();
    size_t before = logf_->len; int f0 = vf_nfval;
    nout = 0;
    callback_run(cb, &opt, res, valid);
    int nval = (valid ? 2 : 1) * P_METRICS;
    CHECK(vf_open_files == 0, "the log is closed again");
    if (mode) {
        CHECK(logf_->len > before, "the line is appended to the log");
        check_line((char*) content + before, (int)(logf_->len - before), number, valid, f0);
    } else CHECK(logf_->len == before, "nothing is written to the log");
    if (quiet) CHECK(nout == 0, "nothing is printed when disabled");
    else check_line(out, nout, number, valid, vf_nfval > f0 + nval ? f0 + nval : f0);
#endif
}

void harness(void)
{
    vf_out_on = 1;
    vf_tm.tm_hour = 1; vf_tm.tm_min = 2; vf_tm.tm_sec = 3;
    for (int i = 0; i < P_METRICS; i++) { int k = (i + P_FIRST) % 8; mf[i] = k == 7 ? foreign : get_metric_func(all[k]); mname[i] = all[k]; }
    mf[P_METRICS] = NULL;
    opt.metrics = mf;
    vf_fs[0].name = "log"; vf_fs[0].data = content; vf_fs[0].cap = P_CAP; vf_n_fs = 1;
    logf_ = &vf_fs[0];
#if P_MODE == 0            /* two loggers after one another on the same log */
    const bool valid = P_VALID, quiet = P_QUIET;
    const int start = P_START;
    const bool exists0 = P_EXISTS;
    logf_->exists = exists0; logf_->no_write = 0;
    callback_t *cb = CALLBACK(logger_new(LOGGER_SETTINGS(.epoch_count = start, .filename = "log", .no_stdout = quiet)));
    CHECK(cb != NULL && logf_->n_open_w == 0, "the log is not truncated");
    for (int e = 0; e < P_EPOCHS; e++) one_epoch(cb, 1, (long) start + e, valid, quiet);
    callback_free(cb);
    cb = CALLBACK(logger_new(LOGGER_SETTINGS(.epoch_count = 0, .filename = "log", .no_stdout = quiet)));
    CHECK(vf_open_files == 0, "the log is closed again");
    one_epoch(cb, 1, (long) start + P_EPOCHS, valid, quiet);
    callback_free(cb);
    cb = CALLBACK(logger_new(LOGGER_SETTINGS(.epoch_count = 7, .filename = "log", .no_stdout = quiet)));
    one_epoch(cb, 1, 7, valid, quiet);
    callback_free(cb);
    CHECK(logf_->n_open_w == 0, "the log is not truncated");
    CHECK(vf_live == 0, "nothing is leaked");
    REACH("end");
#elif P_MODE == 1          /* no log, a log that cannot be read or written */
    const int h = P_HOW; const bool quiet = P_QUIET, valid = P_VALID;
    if (h >= 2) { static const char old[] = "[01:02:03] Epoch   4 mse: 1\n"; for (int i = 0; i < (int) sizeof old - 1; i++) content[i] = old[i]; logf_->len = sizeof old - 1; logf_->exists = 1; }
    logf_->no_read = h == 2; logf_->no_write = h == 3 || h == 1;
    callback_t *cb = CALLBACK(logger_new(LOGGER_SETTINGS(.filename = h == 0 ? NULL : "log", .no_stdout = quiet)));
    CHECK(cb != NULL, "the logger is created");
    one_epoch(cb, h == 2, h == 3 ? 5 : 0, valid, quiet);
    one_epoch(cb, h == 2, h == 3 ? 6 : 1, valid, quiet);
    callback_free(cb);
    CHECK(vf_live == 0, "nothing is leaked");
#else                      /* any content: the logger is created and runs */
    int n = 0;
    for (int i = 0; i < P_BYTES; i++) content[n++] = nd_u8();
    logf_->len = n; logf_->exists = 1;
    float res[2 * P_METRICS];
    for (int i = 0; i < 2 * P_METRICS; i++) res[i] = nd_finite();
    nout = 0;
    callback_t *cb = CALLBACK(logger_new(LOGGER_SETTINGS(.filename = "log")));
    CHECK(cb != NULL, "the logger is created whatever the file holds");
    CHECK(vf_open_files == 0, "the log is closed again");
    CHECK(logf_->len == n && logf_->n_open_w == 0, "the log is not changed");
    /* the number it starts from is seen in its first line */
    logf_->no_write = 1;
    vf_out_on = 1;
    callback_run(cb, &opt, res, false);
    callback_free(cb);
    long v = vf_ival;
    CHECK(vf_nival > 0 && v >= 0 && v <= INT_MAX, "the epochs are numbered from a valid number");
    CHECK(v == 0 || n >= 5, "without an epoch in the log the numbering starts from the beginning");
    CHECK(vf_live == 0, "nothing is leaked");
#if P_BYTES > 5
    REACHIF(v > 0, "continued");
#endif
    REACHIF(v == 0, "from the beginning");
#endif
    REACH("last");
}

#ifndef TRAIN_H
#define TRAIN_H
#include "reference.h"
#include "optimizer.h"
#include "optimizer_implementations.h"
#include "evaluate.h"
static float *data(const char *name, int n, int per, int mis)
{
    float *p = vf_alloc(n * per * sizeof(float), mis);
    for(int i = 0; i < n * per; i++) p[i] = vf_sym(name, i);
    return p;
}
#endif

"""Scenarios of the properties decided with the irsym engine (C01-C09, C11-C17)."""
import time, itertools
import core

THOROUGH = core.TIER == "thorough"

# ranges of the settings on native runs (the proof itself does not restrict them)
SETTINGS = {"lr": (0.02, 0.5), "rho": (0.2, 0.95), "mom": (0.2, 0.95), "decay": (0.05, 0.5), "wd": (0.01, 0.3), "b1": (0.2, 0.9), "b2": (0.3, 0.95)}

def sc(pid, h, cfg, **p):
    extra = {}
    for k in list(p):
        if k.startswith("_"): extra[k[1:]] = p.pop(k)
    d = {"name": "%s/%s/%s/%s" % (pid, h, cfg, ",".join("%s=%s" % kv for kv in p.items())), "h": h, "cfg": cfg, "p": p}
    if h == "train": d["domain"] = SETTINGS
    d.update(extra)
    return d

def net(*sizes):
    d = {"L": len(sizes) - 1}
    for i, s in enumerate(sizes): d["s%d" % i] = s
    return d

def simd(cfg): return {"avx512": 16, "blas512": 16, "avx2": 8, "avx": 8, "blas": 8, "sse": 4}[cfg]

def widths(cfg):
    """layer widths around every vector-length threshold"""
    if THOROUGH: return list(range(1, 68))
    if simd(cfg) == 16: return list(range(1, 36)) + [39, 40, 41, 47, 48, 49, 50, 56, 63, 64, 65]
    if simd(cfg) == 8: return [1, 2, 3, 5, 7, 8, 9, 10, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 34]
    return [1, 2, 3, 4, 5, 7, 8, 9, 16, 17]

MIS = [0, 4, 8, 12, 16, 20, 28, 32, 36, 48, 60]

def C01():
    o = []
    for cfg in ("avx512", "avx2", "avx", "sse"):
        for k, w in enumerate(widths(cfg)):
            o.append(sc("C01", "predict", cfg, **net(3, w), mis_in=MIS[k % 11], mis_out=MIS[(k * 3 + 1) % 11]))
    for cfg in ("avx512", "avx2", "sse"):
        ws = [1, 7, 8, 9, 15, 16, 17, 24, 25, 33] + ([2, 3, 5, 31, 32, 34, 40, 41, 48, 49, 64, 65] if THOROUGH else [])
        for k, w in enumerate(ws):        # inputs that are exactly 0 or 1 (special-cased in the kernel)
            o.append(sc("C01", "predict", cfg, **net(5, w), zmask=0b00101 << (k & 1), omask=0b11000 >> (k % 3), mis_in=4 * (k % 3)))
        for k, w in enumerate(ws):        # as a hidden layer, and as input of the next
            o.append(sc("C01", "predict", cfg, **net(2, w, 3), mis_out=MIS[k % 11]))
        o.append(sc("C01", "predict", cfg, **net(17, 16, 1), zmask=0x5a5a, mis_in=4))
        o.append(sc("C01", "predict", cfg, **net(33, 3), mis_in=8))
        o.append(sc("C01", "predict", cfg, **net(1, 1), mis_out=4))
        o.append(sc("C01", "predict", cfg, **net(2, 3, 17, 2), mis_in=4, mis_out=12))
        o.append(sc("C01", "predict", cfg, **net(1, 9, 8, 7, 2), mis_out=20))
        for k, d in enumerate(DEEP): o.append(sc("C01", "predict", cfg, **d, mis_in=MIS[k % 11]))
        o.append(sc("C01", "predict", cfg, **net(1, 2, 1, 2, 9, 1, 2), mis_in=4))
        for bi in (1, 2, 3): o.append(sc("C01", "predict", cfg, **(net(2, 2, 2) if bi == 2 else net(2, 17, 3)), bi=bi, mis_out=4))
        if THOROUGH:
            for a, b, c in itertools.product((1, 7, 16, 17), (1, 8, 15, 33), (1, 9, 16)): o.append(sc("C01", "predict", cfg, **net(a, b, c), mis_in=4, mis_out=8))
            o.append(sc("C01", "predict", cfg, **net(4, 130), mis_out=4)); o.append(sc("C01", "predict", cfg, **net(130, 4), mis_in=4))
            o.append(sc("C01", "predict", cfg, **net(3, 257), mis_out=4))
    for cfg in ("blas",):
        for s in (net(3, 9), net(2, 17, 3)): o.append(sc("C01", "predict", cfg, **s, mis_in=4, mis_out=4))
    return o

def acts(pid):
    o = []
    ns = [1, 2, 3, 7, 8, 9, 15, 16, 17, 18, 24, 31, 32, 33]
    for cfg in ("avx512", "avx2", "sse") + (("avx",) if THOROUGH else ()):
        for a in range(9):
            vec = a in (0, 1, 2) and cfg != "sse"
            if a == 8:
                cases = [(1, 0), (2, 4), (5, 0), (8, 0), (9, 4), (16, 0), (21, 12)] if cfg != "sse" else [(1, 0), (4, 4), (9, 0)]
                if THOROUGH: cases += [(n, MIS[n % 11]) for n in (3, 7, 10, 12, 15, 17, 18, 20, 22, 24, 25, 26)] + [(32, 4)]
                for n, mis in cases: o.append(sc(pid, "activation", cfg, act=a, n=n, mis=mis, piv=n // 2, _softmax=True, _post="softmax_stable", _cost=n, total=1 if n < 8 or cfg == "sse" else 0))
                continue
            nn = ns if vec or THOROUGH else [1, 2, 9, 17]
            for k, n in enumerate(nn):
                for mis in ([0, MIS[(k + a) % 11]] if vec and n > 8 else [MIS[(k + a) % 11]]):
                    o.append(sc(pid, "activation", cfg, act=a, n=n, mis=mis, _cost=n / 4, _post="exp_stable"))
            if vec:
                for mis in (4, 28, 32, 60) if THOROUGH else (28,): o.append(sc(pid, "activation", cfg, act=a, n=40, mis=mis, _cost=10))
    return o

def C03(): return acts("C03")

def C04():
    o = []
    for cfg in ("avx512", "avx2", "avx", "sse"):
        for a in range(9):
            vec = a in (0, 1, 2) and cfg != "sse"
            ns = ([1, 2, 7, 8, 9, 15, 16, 17, 18, 31, 32, 33, 40] if vec else [1, 3, 9, 17]) if cfg in ("avx512", "avx2") else ([1, 16, 17, 33] if vec else [2, 17])
            if THOROUGH: ns = list(range(1, 50))
            for k, n in enumerate(ns):
                o.append(sc("C04", "actderiv", cfg, act=a, n=n, mis_a=MIS[(k + a) % 11], mis_g=MIS[(2 * k + a) % 11], _domain={"E": (0.001, 50)}, _cost=n))
            if vec: o.append(sc("C04", "actderiv", cfg, act=a, n=16, mis_a=0, mis_g=0, _domain={"E": (0.001, 50)}))
    return o

def C05():
    o = []
    for cfg in ("avx512", "sse"):
        for l in range(5):
            for n in ([1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33] if not THOROUGH else range(1, 41)):
                if l == 2 and n > 9 and not THOROUGH: continue
                o.append(sc("C05", "loss", cfg, loss=l, n=n, mis_p=MIS[n % 11], mis_t=MIS[(n + 3) % 11], mis_o=MIS[(n + 5) % 11], _cost=n))
    return o

def C06():
    o = []
    for cfg in ("avx512", "sse"):
        for k in range(7):
            for n in ([1, 2, 3, 4, 5, 7, 8, 9, 16, 17] if not THOROUGH else list(range(1, 34))):
                if k == 6 and n > (7 if not THOROUGH else 8): continue
                o.append(sc("C06", "metric", cfg, metric=k, n=n, mis_p=MIS[n % 11], mis_t=MIS[(n + 3) % 11], _cost=n * (3 if k == 6 else 1), _domain={"p": (0.01, 0.99)} if k in (3, 4) else ({"t": (0.0, 1.0)} if k == 5 else None)))
        for e in (3, 5, 6, 7): o.append(sc("C06", "metric", cfg, metric=6, n=4, eqp=e))
    return o

def C07():
    o = []
    for cfg in ("avx512", "avx2", "avx", "sse"):
        ws = [1, 2, 7, 8, 9, 15, 16, 17, 18, 24, 25, 31, 32, 33, 34] if cfg in ("avx512", "avx2") else [1, 3, 8, 9, 17]
        if THOROUGH: ws = list(range(1, 50))
        for k, w in enumerate(ws):
            o.append(sc("C07", "backprop", cfg, **net(2, w), mis_x=MIS[k % 11], mis_t=MIS[(k + 4) % 11], _cost=w))
        for k, w in enumerate(ws if cfg != "avx" else [1, 9]):
            o.append(sc("C07", "backprop", cfg, **net(2, w, 2) if w < 20 else net(1, w, 1), mis_x=MIS[(k + 2) % 11], _cost=2 * w))
            o.append(sc("C07", "backprop", cfg, **net(1, 2, w), mis_x=MIS[(k + 2) % 11], _cost=2 * w))
        o.append(sc("C07", "backprop", cfg, **net(5, 9), zmask=0b00110, omask=0b01000))
        o.append(sc("C07", "backprop", cfg, **net(2, 3, 2, 2), mis_t=4))
        o.append(sc("C07", "backprop", cfg, **net(1, 2, 1, 2, 1), mis_t=4))
        o.append(sc("C07", "backprop", cfg, **net(2, 17, 3), mis_x=4) if cfg == "avx512" else sc("C07", "backprop", cfg, **net(2, 9, 3), mis_x=4))
        for k, d in enumerate(DEEP if cfg != "avx" else DEEP[:1]): o.append(sc("C07", "backprop", cfg, **d, mis_x=MIS[k % 11], _cost=20))
        o.append(sc("C07", "backprop", cfg, **net(3, 2), mse=1))
        o.append(sc("C07", "backprop", cfg, **net(33, 2), mis_x=8))
        if THOROUGH:
            for a, b, c in itertools.product((1, 8, 17), (1, 7, 9, 16), (1, 8, 17)): o.append(sc("C07", "backprop", cfg, **net(a, b, c), mis_x=4, _cost=a * b * c / 20))
            o.append(sc("C07", "backprop", cfg, **net(2, 2, 9, 2, 2), _cost=20))
    o.append(sc("C07", "backprop", "blas", **net(2, 9, 3))); o.append(sc("C07", "backprop", "blas", **net(3, 2, 2), zmask=1))
    return o

SHAPES = [net(1, 1), net(2, 1), net(1, 2), net(3, 4), net(2, 8), net(2, 9), net(7, 8), net(1, 16), net(3, 17), net(4, 2, 3), net(2, 7, 5), net(1, 9, 8), net(2, 3, 4, 1), net(2, 2, 2, 2, 2), net(5, 33), net(3, 16, 2), net(2, 5, 9, 3)]
DEEP = [net(1, 1, 1, 1, 1, 1, 1), net(6, 5, 4, 3, 2, 1), net(1, 2, 3, 4, 5, 6), net(2, 3, 2, 3, 4, 2), net(3, 1, 2, 9, 2, 1, 3), net(1, 2, 1, 2, 1, 2, 1, 2)]

def C08():
    o = []
    for cfg in ("avx512", "avx2", "sse", "avx"):
        for k, s in enumerate(SHAPES + DEEP):
            o.append(sc("C08", "params", cfg, **s, mis_p=MIS[k % 11], mis_d=MIS[(k + 5) % 11]))
        for w in (list(range(1, 36)) if cfg == "avx512" or THOROUGH else [1, 3, 8, 15, 16, 17, 31, 32, 33]):
            o.append(sc("C08", "params", cfg, **net(1, w, 1), mis_d=4 * (w % 4), mis_p=4 * (w % 3)))
    o.append(sc("C08", "params", "blas", **net(3, 9, 2), mis_d=4))
    return o

def C09():
    o = []
    for cfg in ("avx512", "avx2", "sse"):
        for n, b, st in [(1, 1, 0), (2, 1, 0), (2, 1, 1), (3, 2, 0), (3, 2, 2), (3, 3, 0), (4, 3, 3), (4, 3, 1), (5, 2, 4), (5, 4, 0), (3, 7, 0), (6, 4, 4), (5, 5, 2)]:
            o.append(sc("C09", "batchgrad", cfg, **net(2, 3), n=n, batch=b, start=st, perm=(n + b) % 3, mis_x=4, mis_y=8))
        for k, w in enumerate([1, 5, 7, 8, 9, 11, 15, 16, 17, 24, 33]):
            o.append(sc("C09", "batchgrad", cfg, **net(1, w), n=3, batch=2, start=k % 2, perm=1, mis_x=MIS[k % 11], threads=1 + k % 2))
        o.append(sc("C09", "batchgrad", cfg, **net(2, 3, 2), n=3, batch=3, start=0, perm=2))
        for t in (2, 3, 4): o.append(sc("C09", "batchgrad", cfg, **net(2, 3), n=5, batch=4, start=1, perm=2, threads=t, reduce_mode=1 + t % 2))
    if THOROUGH:
        for n in range(1, 8):
            for b in range(1, 9):
                for st in range(0, n): o.append(sc("C09", "batchgrad", "avx2", **net(1, 4), n=n, batch=b, start=st, perm=(n + st) % 3, threads=1 + (b % 3)))
    o.append(sc("C09", "batchgrad", "blas", **net(2, 3), n=3, batch=2, start=1))
    return o

def train(pid, kind):
    o = []
    T = lambda cfg, **p: o.append(sc(pid, "train", cfg, opt=kind, **p))
    mom = kind in (0, 1)
    variants = [dict()]
    if kind <= 2: variants += [dict(decay=1)]
    if mom: variants += [dict(momentum=1), dict(momentum=1, nesterov=1), dict(momentum=1, decay=1), dict(momentum=1, nesterov=1, decay=1), dict(nesterov=1)]
    if kind == 3: variants += [dict(wd=1)]
    for v in variants:
        T("avx512", **net(1, 2), n=3, batch=2, epochs=2, **v)
        T("avx2", **net(1, 1), n=3, batch=1, epochs=1 if kind else 2, **v, full=1, _cost=5)
        T("avx512", **net(2, 17), n=2, batch=1, **v, mis_x=4, _cost=4)
        T("avx2", **net(1, 9), n=2, batch=1, **v, mis_y=4, _cost=4)
        T("sse", **net(1, 3), n=2, batch=1, **v)
        # another optimizer of the same kind, with its own network, data and settings, takes turns
        T("avx2", **net(1, 1), n=2, batch=1, n2=3, batch2=2, epochs=2, two=1, **v, _cost=5)
    for w in ([1, 3, 4, 7, 8, 11, 12, 15, 16, 20, 24, 31, 32, 33] if not THOROUGH else range(1, 50)):
        T("avx512", **net(1, w), n=1, batch=1, **variants[-1], epochs=2 if w < 9 else 1, _cost=w / 4)
    for w in ([1, 4, 5, 8, 9, 17] if not THOROUGH else range(1, 34)):
        T("avx2", **net(1, w), n=1, batch=1, **variants[min(1, len(variants) - 1)], _cost=w / 4)
    for k2 in range(4):
        if k2 != kind: T("avx2", **net(1, 1), n=2, batch=1, n2=2, batch2=2, epochs=2, two=2, opt2=k2, **variants[-1], _cost=4)
    T("avx512", **net(2, 2, 1), n=2, batch=2, epochs=1, full=1, shuffle=1, **variants[-1], _cost=3)
    T("avx512", **net(1, 1), n=4, batch=3, epochs=2, full=1, shuffle=1, **variants[-1], _cost=3)
    T("avx512", **net(1, 2), n=3, batch=5, epochs=2, full=1, **variants[-1], threads=2)
    # numbers for the settings, longer histories
    conc = dict(lrc=1, rhoc=1, decay=2 if kind <= 2 else 0, momentum=2 if mom else 0, wd=2 if kind == 3 else 0)
    T("avx2", **net(1, 1), n=2, batch=1, epochs=2, **conc, each=1, _cost=8)
    if mom: T("avx2", **net(1, 1), n=2, batch=1, epochs=2, nesterov=1, **conc, each=1, _cost=8)
    if THOROUGH:
        for v in variants:
            T("avx512", **net(1, 1), n=4, batch=1, epochs=1, **v, _cost=30)
            T("avx512", **net(1, 1), n=3, batch=1, epochs=2, **v, _cost=60)
            T("avx512", **net(1, 2, 1), n=2, batch=1, epochs=1, **v, _cost=30)
            T("avx", **net(1, 17), n=2, batch=1, epochs=1, **v, _cost=10)
            T("blas", **net(1, 3), n=2, batch=1, epochs=1, **v, _cost=10) if kind != 1 else None
    return o

def C11(): return train("C11", 0)
def C12(): return train("C12", 1)
def C13(): return train("C13", 2)
def C14(): return train("C14", 3)

def C15():
    o = []
    for cfg in ("avx512", "avx2", "sse", "blas"):
        for n in (1, 2, 3, 5):
            for nm in (1, 2, 3): o.append(sc("C15", "evaluate", cfg, **net(2, 3), n=n, nm=nm, first=n % 3, mis_x=4 * (n % 4), mis_y=8, mis_r=4))
        for w in (1, 8, 9, 17): o.append(sc("C15", "evaluate", cfg, **net(2, w, 2), n=2, nm=2, mis_x=4))
        for w in (9, 16, 17): o.append(sc("C15", "evaluate", cfg, **net(1, w), n=3, nm=2, mis_x=4))
        for n, nv, vn in [(2, 0, 0), (2, 1, 0), (3, 2, 0), (1, 3, 0), (2, 2, 1), (2, 2, 2)]:
            for d in (0, 1): o.append(sc("C15", "evaluate", cfg, **net(2, 2), mode=1, n=n, nv=nv, vnull=vn, nm=2 if n != 1 else 3, dflt=d, mis_x=4, mis_r=4))
        for d in (0, 1): o.append(sc("C15", "evaluate", cfg, **net(1, 2), mode=1, n=2, nv=1, nm=2, dflt=d, other=1))
        for t in (2, 3): o.append(sc("C15", "evaluate", cfg, **net(2, 3), n=4, nm=2, threads=t))
    if THOROUGH:
        for cfg in ("avx512", "avx2", "avx", "sse", "blas", "blas512"):
            for n in range(1, 9):
                for t in (1, 2, 4): o.append(sc("C15", "evaluate", cfg, **net(1, 3), n=n, nm=3, threads=t, reduce_mode=1 + n % 2))
    return o

def C16():
    o = []
    modes = [dict(reduce_mode=1), dict(reduce_mode=2), dict(reduce_mode=1, rev_threads=1), dict(reduce_mode=1, split_tail=1)]
    ts = (2, 3, 4, 5) if not THOROUGH else (2, 3, 4, 5, 6, 7, 8, 9)
    for cfg in ("avx512", "avx2") + (("sse", "avx") if THOROUGH else ()):
        for t in ts:
            for m in modes if t == 2 or THOROUGH else [modes[t % 4]]:
                o.append(sc("C16", "batchgrad", cfg, **net(2, 3), n=4, batch=4, start=0, perm=1, threads=t, **m))
                o.append(sc("C16", "batchgrad", cfg, **net(1, 9), n=5, batch=3, start=1, perm=1, threads=t, **m))
                o.append(sc("C16", "evaluate", cfg, **net(2, 3), n=4, nm=2, threads=t, **m))
                o.append(sc("C16", "evaluate", cfg, **net(1, 2), mode=1, n=3, nv=3, nm=2, threads=t, **m))
                o.append(sc("C16", "batch", cfg, **net(2, 9, 3), n=4, threads=t, mis_y=4, **m))
                o.append(sc("C16", "batch", cfg, **net(2, 3), n=5, threads=t, mis_y=4, **m))
                for k in range(4): o.append(sc("C16", "train", cfg, opt=k, **net(1, 9), n=3, batch=2, threads=t, momentum=1 if k < 2 else 0, full=1, wd=1 if k == 3 else 0, **m, _cost=3))
        o.append(sc("C16", "batchgrad", cfg, **net(2, 3, 2), n=4, batch=4, threads=2))
        o.append(sc("C16", "batchgrad", cfg, **net(1, 1), n=1, batch=1, threads=4))
        o.append(sc("C16", "train", cfg, opt=3, **net(1, 17), n=4, batch=3, threads=2, epochs=1, wd=1, _cost=5))
    for t in (2, 3): o.append(sc("C16", "evaluate", "blas", **net(2, 3), n=4, nm=2, threads=t)); o.append(sc("C16", "batchgrad", "blas", **net(2, 3), n=4, batch=4, threads=t))
    return o

def C17():
    o = []
    for cfg in ("avx512", "avx2", "sse", "blas", "blassmall"):
        for n in (0, 1, 2, 3, 4, 5):
            o.append(sc("C17", "batch", cfg, **net(2, 3), n=n, mis_x=4 * (n % 3), mis_y=4 * (n % 4)))
            o.append(sc("C17", "batch", cfg, **net(2, 3, 2), n=n, mis_x=4, mis_y=4 * (n % 4)))
        for w in (1, 7, 8, 9, 16, 17, 18): o.append(sc("C17", "batch", cfg, **net(1, w), n=3, mis_y=4)); o.append(sc("C17", "batch", cfg, **net(1, w, 2), n=3, whole=2))
        o.append(sc("C17", "batch", cfg, **net(2, 4, 3, 2), n=3, mis_y=4)); o.append(sc("C17", "batch", cfg, **net(1, 2, 3, 2, 2), n=2, mis_x=8))
        o.append(sc("C17", "batch", cfg, **net(2, 3), n=3, whole=1)); o.append(sc("C17", "batch", cfg, **net(2, 3, 3), n=4, whole=2))
        for t in (2, 3): o.append(sc("C17", "batch", cfg, **net(2, 3), n=5, threads=t, mis_y=4))
        if cfg == "blassmall" or THOROUGH:
            for n in range(1, 12): o.append(sc("C17", "batch", cfg, **net(1, 2, 3), n=n, whole=n % 3, mis_y=4))
            o.append(sc("C17", "batch", cfg, **net(2, 9, 8, 3), n=5)); o.append(sc("C17", "batch", cfg, **net(2, 20), n=2)); o.append(sc("C17", "batch", cfg, **net(1, 5, 12), n=3))
    return o

def C02():
    """memory, alignment and initialisation over all kernels (the engine checks every access in every scenario)"""
    o = []
    for cfg in ("avx512", "avx2", "avx", "sse"):
        for k, s in enumerate([net(1, 1), net(3, 7), net(2, 8), net(2, 9), net(2, 15), net(2, 16), net(3, 17), net(2, 25), net(17, 3), net(2, 33), net(3, 9, 2), net(2, 17, 9), net(2, 8, 16, 1), net(2, 3, 17, 5)] + DEEP):
            for m in range(3 if not THOROUGH else 6):
                mi = {"mis_in": MIS[(k + 3 * m) % 11], "mis_out": MIS[(k + 5 * m + 1) % 11]}
                o.append(sc("C02", "predict", cfg, **s, **mi))
            o.append(sc("C02", "backprop", cfg, **s, mis_x=MIS[(k + 2) % 11], mis_t=MIS[(k + 7) % 11], _cost=4))
            o.append(sc("C02", "params", cfg, **s, mis_p=MIS[(k + 2) % 11], mis_d=MIS[(k + 7) % 11]))
        for n in (1, 8, 15, 16, 17, 31, 33) if not THOROUGH else range(1, 41):
            for a in (0, 1, 2, 8):
                if a == 8 and n > 17: continue
                o.append(sc("C02", "activation", cfg, act=a, n=n, mis=MIS[(n + a) % 11], _softmax=a == 8, _memonly=True))
            for a in (0, 1, 2): o.append(sc("C02", "actderiv", cfg, act=a, n=n, mis_a=MIS[(n + a) % 11], mis_g=MIS[(n + 2 * a) % 11], _memonly=True, _domain={"E": (0.001, 50)}))
        for w in (1, 7, 8, 9, 16, 17, 23):
            o.append(sc("C02", "batchgrad", cfg, **net(2, w), n=3, batch=2, start=2 * (w & 1), mis_x=4, mis_y=12, threads=1 + w % 2))
            for opt in range(4): o.append(sc("C02", "train", cfg, opt=opt, **net(2, w), n=3, batch=2, mis_x=12, mis_y=4, momentum=1, nesterov=w % 2, decay=1, wd=1, full=1, threads=1 + w % 2, _cost=4, _memonly=True))
            o.append(sc("C02", "evaluate", cfg, **net(2, w), mode=1, n=3, nv=2, mis_x=4, mis_y=8, mis_r=4))
            o.append(sc("C02", "batch", cfg, **net(2, w), n=3, mis_x=4, mis_y=4))
            o.append(sc("C02", "batch", cfg, **net(2, w, 3), n=2, mis_x=20, mis_y=8))
    for n in (0, 1, 3, 7):
        for s in (net(2, 3), net(2, 3, 2), net(2, 5, 3, 2)):
            for cfg in ("blas", "blassmall"): o.append(sc("C02", "batch", cfg, **s, n=n, mis_x=4, mis_y=4))
    o.append(sc("C02", "evaluate", "blas", **net(2, 3), mode=1, n=3, nv=2, mis_x=4, mis_y=8, mis_r=4))
    return o

BOUNDS = {
    "C01": "widths 1..35 and to 65 (avx512), to 34 (avx2/avx), to 17 (sse); depths 1..6; all parameters, inputs and activation functions symbolic; addresses: every residue class used by the kernels swept over widths",
    "C02": "layer widths 1..33, depth 1..3, 1..7 samples, batches of 2, 1 and 2 threads, input/target/output addresses at 11 residues modulo 64, four instruction-set levels plus the BLAS build",
    "C03": "vector lengths 1..40 (softmax to 21, thorough to 32), 11 address residues, all real inputs; exponential lemma for every range-reduction index",
    "C04": "vector lengths 1..40, 11 residues for both vectors, all real points",
    "C05": "vector lengths 1..33, all reals (points without derivative excluded)",
    "C06": "vector lengths 1..17 (categorical accuracy 1..7), all reals (binary accuracy: targets in [0,1])",
    "C07": "widths 1..34, depths 1..4, opaque activations, derivatives and loss, all reals",
    "C08": "17 shapes plus widths 1..35, all reals",
    "C09": "1..6 samples, batch sizes 1..7, every start residue listed, widths 1..33, 1..4 threads",
    "C11": "1..4 steps of up to 2 epochs, 1..4 samples, parameter counts 2..66, symbolic settings, second optimizer alive",
    "C12": "1..4 steps of up to 2 epochs, 1..4 samples, parameter counts 2..66, symbolic settings, second optimizer alive",
    "C13": "1..4 steps of up to 2 epochs, 1..4 samples, parameter counts 2..66, symbolic settings, second optimizer alive",
    "C14": "1..4 steps of up to 2 epochs, 1..4 samples, parameter counts 2..66, symbolic settings, second optimizer alive",
    "C15": "1..5 samples, 0..3 validation samples, 1..3 opaque metrics, default metric, second optimizer",
    "C16": "2..5 threads (thorough 2..9), 1..5 iterations, critical and atomic reductions, two iteration distributions, two execution orders plus pairwise access check for all others",
    "C17": "0..5 samples (0..11 with a 10-float work memory), widths 1..18, depth 1..4, threaded and BLAS build",
}
ASSUME = ["floats are modelled as real numbers: rounding, overflow and NaN propagation are outside (validated on one native run per scenario)",
          "the OpenMP run time and libm are modelled by their specifications; cblas by a reference implementation",
          "buffer addresses are no more aligned than promised (64*odd + residue)"]

def run(pid):
    t0 = time.time()
    scs = globals()[pid]()
    core.prepare({(s["h"], s["cfg"]) for s in scs})
    res = core.run_all(scs)
    return core.finish_numeric(pid, res, t0, {"swept": BOUNDS[pid], "scenarios": len(scs)}, ASSUME)

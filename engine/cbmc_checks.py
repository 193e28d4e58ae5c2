"""Scenarios of the properties decided with cbmc (harness/cbmc)."""
import time
import core, cbmc
T = core.TIER == "thorough"

ASSUME = ["the C library, libzip, the dynamic loader, the terminal and the random number generator are modelled from their documentation (harness/cbmc/stubs.c)",
          "the library is compiled without AVX and OpenMP flags (the code of these properties does not depend on them, except the alignment, which is checked separately)"]
BOUNDS = {}


def run(pid):
    t0 = time.time()
    f = globals().get(pid)
    if f is None: raise core.CheckError("unknown property " + pid)
    scs = f()
    return cbmc.decide(pid, scs, {"stated": BOUNDS[pid], "scenarios": len(scs)}, ASSUME, t0)


def S(h, unwind=10, cost=1, **kw):
    d = {k[2:] if k.startswith("d_") else k: v for k, v in kw.items()}
    defs = {k: v for k, v in d.items() if k[0].isupper()}
    rest = {k: v for k, v in d.items() if not k[0].isupper()}
    return dict({"h": h, "defs": defs, "unwind": unwind, "cost": cost}, **rest)


BOUNDS["C10"] = "training sets of 1..5 samples (6 in the thorough tier), every batch size, every random stream, two optimizers of each kind with up to 3 epochs in any interleaving and sizes changing between epochs; every order of up to 4 samples shown possible"
def C10():
    out = []
    st = ["neuralnet_backpropagation", "neuralnet_update", "evaluate", "vector_accumulate_unaligned", "vector_accumulate", "vector_divide_by_scalar", "vector_scale"]
    def S(*a, **k): return globals()["S"](*a, stub=st, **k)
    for k in range(4):
        out.append(S("cb_shuffle", 9, P_MAX=3, P_EPOCHS=2, P_KIND=k))
        out.append(S("cb_shuffle", 9, P_MAX=5, P_EPOCHS=1, P_KIND=k))
    out.append(S("cb_shuffle", 9, P_MAX=3, P_EPOCHS=3, P_KIND=0, cost=5))
    out.append(S("cb_shuffle", 9, P_MAX=6 if T else 5, P_EPOCHS=2, P_KIND=0, P_MODE=1, cost=6))
    out.append(S("cb_shuffle", 9, P_MAX=6 if T else 5, P_EPOCHS=2, P_KIND=0, P_MODE=2))
    for n in (2, 3, 4): out.append(S("cb_shuffle", 25, P_MAX=n, P_PERM=1, reach_is_property=True))
    return out


BOUNDS["C30"] = "every sequence of 4..5 finite results (6 in the thorough tier), 1..3 metrics, 1..2 instances interleaved in any way, every monitored index, patience 0..epochs, both directions, with and without validation in each epoch; default configuration over 12 epochs"
def C30():
    out = [S("cb_earlystop", 10, P_EPOCHS=6 if T else 4, P_INST=2, P_METRICS=m, cost=m) for m in (1, 2)]
    out += [S("cb_earlystop", 10, P_EPOCHS=5, P_INST=1, P_METRICS=3), S("cb_earlystop", 13, P_EPOCHS=12, P_INST=1, P_METRICS=1, P_DEFAULT=1)]
    return out


BOUNDS["C31"] = "every sequence of 3..4 finite results (5 in the thorough tier), 1..3 metrics, 1..2 instances interleaved in any way, every monitored index, both directions, every file name of up to 6 bytes or none"
def C31():
    out = [S("cb_checkpoint", 10, P_EPOCHS=5 if T else 3, P_INST=2, P_METRICS=m, cost=m, stub=["neuralnet_save"]) for m in (1, 2)]
    out += [S("cb_checkpoint", 10, P_EPOCHS=4, P_INST=1, P_METRICS=3, stub=["neuralnet_save"]),
            S("cb_checkpoint", 16, P_EPOCHS=4, P_INST=1, P_METRICS=1, P_DEFAULT=1, stub=["neuralnet_save"])]
    return out


BOUNDS["C34"] = "every position and total (all 2^64 pairs), labels of length 0, 1, 3, 7, 13 (with conversion specifiers in their text, and with one formatted character of any value), every terminal width 0..24, 80 and 132, failing and missing terminals; proportionality for totals up to 40 (100 in the thorough tier); full bar and 100% beyond the end for 4 totals"
def C34():
    def P(*a, label="", **k): return S(*a, VF_OUTCHAR=1, VF_DIGITS=4, P_STR='"%s"' % label, **k)
    out = [P("cb_progress", 30, label=l, P_WMAX=24, P_NODEFAULT=1, cost=3) for l in ("", "%", "%s%", "Epoch: ", "%d%%n#[]--% 7")]
    out += [P("cb_progress", 82, label="x", P_WMAX=0, cost=2), P("cb_progress", 82, label="%n", P_COLS=80, cost=2),
            P("cb_progress", 134, label="a", P_COLS=132, cost=4), P("cb_progress", 30, label="e", P_WMAX=20, P_NODEFAULT=1, P_CHAR=1)]
    for w in (2, 7, 16): out.append(P("cb_progress", w + 4, P_COLS=w + 7, P_SMALL=100 if T else 40, P_ENDS=1, cost=5))
    for n in (2, 3, 10, 1000): out.append(P("cb_progress", 14, P_COLS=17, P_N=n, P_ENDS=1, cost=5))
    return out


BOUNDS["C28"] = "every string of up to 13 bytes for activations and 32 for losses and metrics (every byte value); every documented name with up to two bytes replaced at any place; all pairs of names; characteristic values of every function"
def C28():
    out = []
    for k in range(3):
        L = 14 if k == 0 else 32
        out.append(S("cb_names", L + 2, P_KIND=k, P_MODE=0, P_MAXLEN=L, cost=3))
        out.append(S("cb_names", L + 2, P_KIND=k, P_MODE=0, P_MAXLEN=L, P_NEAR=1, cost=3))
        out.append(S("cb_names", 20, P_KIND=k, P_MODE=1))
        out.append(S("cb_names", 41, P_KIND=k, P_MODE=2, VF_EXACTMATH=1))
    return out


BOUNDS["C18"] = "every network of 1..3 layers (4 in the thorough tier) with every combination of the nine activations and an unregistered one, every sequence of up to 3 calls with the eight documented loss names and four unknown ones; any previous derivative pointers"
def C18():
    out = [S("cb_setloss", 34, P_LAYERS=4 if T else 3, P_CALLS=2, cost=4), S("cb_setloss", 34, P_LAYERS=1, P_CALLS=3), S("cb_setloss", 34, P_LAYERS=2, P_CALLS=3, cost=2)]
    return out


BOUNDS["C33"] = "1..3 layers: every list of sizes in -40..40, and every list over the whole int range whose second and fourth size are one of 1, 3, 65536, 2^31-1, 0 and -1 (allocations of up to 2^40 bytes succeed); five non-positive numbers of layers; every combination of known, unknown and missing activation names; an alignment of 16, 32 and 64 bytes"
def C33():
    out = [S("cb_create", 34, P_LAYERS=0, P_ODD=5)]
    for l in (1, 2, 3):
        out.append(S("cb_create", 34, P_LAYERS=l, P_NAMES=1 if l < 3 or T else 0, P_RANGE=40 if l < 3 or T else 10, cost=l))
        for odd in ("1", "3", "65536", "2147483647", "0", "-1"): out.append(S("cb_create", 34, P_LAYERS=l, P_ODD="(%s)" % odd, cost=l))
    for lib, a in (("avxalign", 32), ("avx512align", 64)): out.append(S("cb_create", 34, P_LAYERS=2, P_ALIGN=a, P_ODD=3, lib=lib))
    return out


BOUNDS["C19"] = "layers of 1x1, 2x1, 2x2, 3x1, 1x8, 8x1 and 3x5 weights; every stream of random numbers with at most 4 rejected pairs; every activation (and an unregistered one) with every way of naming or not naming the scheme; two layers"
def C19():
    out = []
    def I(mode, i, o, draws, **k): return S("cb_init", 42, P_MODE=mode, P_IN=i, P_OUT=o, P_DRAWS=draws, VF_OWN_RAND=1, **k)
    for i, o in ((1, 1), (2, 2), (3, 5), (8, 1)): out.append(I(0, i, o, i * o, VF_SQRTACC=1, P_LIM=repr((6 / (i + o)) ** .5) + "f"))
    for i, o, d in ((1, 1, 6), (3, 1, 8 if T else 6), (2, 2, 8 if T else 6)): out.append(dict(I(1, i, o, d, cost=5, VF_SQRTACC=1), unwind=12))
    for st in (0, 1):
        out.append(I(2, 2, 1, 8, VF_EXACTMATH=1, P_STREAM=st, cost=4))
        for i, o, d in ((2, 1, 8), (1, 8, 16), (3, 2, 16)): out.append(I(3, i, o, d, VF_EXACTMATH=1, P_STREAM=st, P_RATIO=repr((i / o) ** .5) + "f", P_SCALE=repr((2 / i) ** .5) + "f", cost=4))
        out.append(I(4, 2, 1, 16, VF_EXACTMATH=1, P_STREAM=st, cost=4))
    return out


BOUNDS["C32"] = "1..3 and 5 metrics of every kind, with and without validation, with and without output, 2 epochs, a second logger and a third with a configured number; thirteen start numbers of 1 to 10 digits; missing, unreadable and unwritable logs; logs of up to 6 (thorough: 7) arbitrary bytes"
def C32():
    FS = ["--max-field-sensitivity-array-size", "2000"]
    def G(mode, m, first=0, unwind=40, line=None, epochs=1, **k):
        if mode < 2: k["VF_CONSTDIGITS"] = 1
        ln = line or 60 + 48 * 2 * m
        k.setdefault("strlen", 300)
        return S("cb_logger", unwind, P_MODE=mode, P_METRICS=m, P_FIRST=first, P_LINE=ln, P_CAP=ln * (epochs + 2) + 40, VF_OUTCHAR=1, VF_STREAMS=24, VF_FLEN=12, flags=FS, **k)
    out = []
    for i, st in enumerate((1, 8, 9, 42, 98, 99, 100, 998, 999, 1000, 12345, 999999, 2147483640)): out.append(G(0, 1 + i % 3, i, 400, P_EPOCHS=2, epochs=2, P_START=st, P_EXISTS=i % 2, P_VALID=i // 3 % 2, P_QUIET=i // 2 % 2))
    out.append(G(0, 5, 5, 1300, P_EPOCHS=1, P_START=3, P_EXISTS=0, P_VALID=1, P_QUIET=0, cost=4, strlen=1300))
    for h in range(4):
        for q in ((0, 1) if T else (h % 2,)): out.append(G(1, 2, 0, 300, P_HOW=h, P_QUIET=q, P_VALID=1 - q))
    for n in (1, 5, 6) + ((7,) if T else ()):
        us = {k: n + 3 for k in ("vf_strchr.0", "vf_strstr.1", "vf_strtol.0", "vf_strtol.1", "vf_fgets.0")}
        out.append(G(3, 1, 0, 20, P_BYTES=n, line=120, strlen=60, unwindset=dict(us, **{"vf_strstr.0": 7, "find_last_epoch_from_logfile.0": n + 2}), VF_OPAQUEINT=1, cost=3, mem=20))
    return out


BOUNDS["C29"] = "every sequence of up to 3 lookups of 18 names in three groups (names with and without '@', with empty parts, with a second '@', starting with a built-in name, up to 102 bytes long), three libraries with four symbols each, every combination of existing and missing libraries, symbols and derivatives, any previous loader error, every single failing allocation"
def C29():
    good = ((0, 1, 2), (0,), (0, 1, 2, 4))
    def D(pool, seq, check, faults, **k):
        n = 110 if pool == 2 else 20
        return S("cb_dynload", n, P_POOL=pool, P_CALLS=len(seq), P_SEQ=",".join(map(str, seq)), P_GOOD=sum(i in good[pool] for i in seq), P_CHECK=check, P_FAULTS=faults, VF_OWN_LOADER=1, strlen=n, flags=["--max-field-sensitivity-array-size", "2000"], unwindset={f + ".0": len(seq) + 2 for f in ("get_activation_name", "get_activation_func_dynamic", "get_activation_derivative_dynamic", "cleanup_dynamic_symbols")}, **k)
    out = []
    for p in range(3):
        out += [D(p, (i,), 1, 1) for i in range(6)]
        for q in ((0, 1), (0, 3, 2), (1, 0, 2), (4, 0), (5, 1, 0), (0, 0)): out.append(D(p, q, 0, 0, cost=3))
        out.append(D(p, (0, 2), 0, 1, cost=3))
    return out


FS = ["--max-field-sensitivity-array-size", "2000"]
BOUNDS["C21"] = "0..8 dimensions of 1..20 digits in 21 combinations of digit counts (all values with these digit counts, including 2^64-1), element sizes of 1, 2, 3 and 19 digits, every type letter and byte order (also missing), both storage orders; header lengths of 128, 192 and 256 bytes and the lengths next to the limits"
def C21():
    def H(dims, es=1, fortran=0, **k):
        return S("cb_npyheader", 300, P_NDIM=len(dims), P_LENS=",".join(map(str, list(dims) + [es])), P_FORTRAN=fortran, VF_TOKENS=9, lib="bytes", strlen=300, flags=FS,
                 unwindset={"vf_memcpy.0": 320}, **k)
    out = []
    for i, d in enumerate(((), (1,), (20,), (1, 1), (3, 2), (19, 4), (1, 2, 3), (5, 5, 5, 5), (1,) * 8, (2, 3, 4, 5, 6, 7, 8), (20,) * 8, (10,) * 8, (20,) * 7)):
        for es in ((1, 2) if i % 2 else (2, 1)): out.append(H(d, es, (i + es) % 2))
    # around the limit of the shortest header
    for k in range(15, 21): out.append(H((20, 20, k), 1, k % 2))
    out += [H((4, 4), 3, 0), H((2,), 19, 1)]
    return out


def round_trip(dims, es, fortran, d=0, mmap=0, **k):
    n = es
    for x in dims: n *= x
    kw = dict(P_D=d) if d else dict(P_SIZE=n)
    if dims: kw.update(P_TYPE=str(ord("fiubcSVO?f"[(es + len(dims)) % 10])), P_ENDIAN=str(ord("<>|"[(len(dims) + es + fortran) % 3])))
    if d: kw["VF_NOMAX"] = 1
    return S("cb_npyround", 300, P_NDIM=len(dims), P_DIMS=",".join(map(str, list(dims) + [0])), P_ES=es, P_FORTRAN=fortran, P_MMAP=mmap, VF_TOKENS=12, VF_TYPED=1, lib="bytes", strlen=300, flags=FS,
             unwindset={"vf_memcpy.0": 320, "vf_strstr.0": 40}, **kw, **k)

BOUNDS["C20"] = "arrays with 0..8 dimensions of lengths 0..5 and element sizes 1..16 with every data byte, type letter and byte order and both storage orders; arrays with one dimension of any length of 1..12 digits (all values), next to constant ones"
def C20():
    out = []
    small = [((), 1), ((1,), 4), ((0,), 4), ((5,), 1), ((3, 2), 2), ((2, 0, 3), 8), ((1,) * 8, 4), ((1, 2, 1, 2, 1, 2, 1, 1), 1), ((2, 2), 16), ((0,) * 8, 2), ((1, 1, 1, 0, 1, 1, 1), 1), ((4, 3, 1), 1)]
    for i, (d, es) in enumerate(small): out.append(round_trip(d, es, i % 2))
    for i, (d, es, n) in enumerate((((-1,), 1, 2), ((-1,), 4, 5), ((3, -1), 4, 8), ((-1, 2, 1), 8, 12), ((1,) * 7 + (-1,), 2, 3), ((-1, 0), 4, 9), ((-1,), 4, 10))): out.append(round_trip(d, es, i % 2, n))
    return out


NPYD = ("{'descr': '<f4", "', 'fortran_order': False", ", 'shape': (3, 2), }\n")
def npy_files(mmap):
    """array files: (dictionary before the window, window length, dictionary after it, ...)"""
    out = []
    def F(pre, w, post, kind=0, data=24, expect=2, cut=None, hl=None, **k):
        d = len(pre) + w + len(post)
        kw = dict(P_PRE='"%s"' % pre.replace("\n", "\\n"), P_POST='"%s"' % post.replace("\n", "\\n"), P_W=w, P_KIND=kind, P_DATA=data, P_EXPECT=expect, P_MMAP=mmap, VF_TYPED=1, VF_LEFT=1)
        if cut is not None: kw["P_CUT"] = 10 + d + data + cut if cut < 0 else cut
        if hl is not None: kw["P_HL"] = hl
        n = max(d, kw.get("P_HL", 0) if kw.get("P_HL", 0) < 400 else 0) + 4
        us = {"vf_memcpy.0": d + data + 12, "vf_strstr.0": 22, "vf_strlen.0": 22, "vf_strchr.0": 8, "npy_array_calculate_datasize.0": 10, "_read_matrix.2": 10}
        if kind == 0 and w: us.update({"_read_matrix.1": 12, "vf_strtol.0": 6, "vf_strtol.1": 7})
        if kind == 3: us.update({"_read_matrix.1": w + 4, "vf_strtol.0": w + 3, "vf_strtol.1": w + 3})
        out.append(S("cb_npyfile", n + data + 10, lib="bytes", strlen=60, flags=FS, unwindset=us, **kw, **k))
    a, b, c = NPYD
    full = a + b + c
    # complete, cut everywhere, wrong header lengths
    F(full, 0, "", 0, 24, 1); F(full, 0, "", 0, 30, 1); F(full, 0, "", 0, 0, 2)
    for cut in (0, 1, 5, 6, 8, 9, 10, 11, 40, -24, -23, -12, -1): F(full, 0, "", 0, 24, 2, cut)
    for hl in (0, 1, 9, 20, len(full) - 1, len(full) + 1, len(full) + 24, len(full) + 25, 127, 128, 255, 256, 32767, 32768, 65535): F(full, 0, "", 0, 24, 0, hl=hl)
    for raw in (1, 2, 3): F(full, 0, "", 0, 24, 3, P_RAW=raw)
    # type
    for w in (3, 4): F("{'descr': '", w, b + c, 1, 24, 3)
    for w in (1, 2): F("{'descr': '", w, b + c, 0, 24, 2)
    # order
    for w in (4, 5): F(a + "', 'fortran_order': ", w, c, 2, 24, 1)
    # shape
    for w in (0, 1, 2, 3, 4, 6) + ((7, 8) if T else ()): F(a + b + ", 'shape': (", w, "), }\n", 3, 8, 3 if w > 1 else 1, cost=3 + w)
    # windows in the keys and between the items
    for i in range(0, len(full), 4 if not T else 1):
        F(full[:i], 3, full[i + 3:], 0, 24, 0, cost=3)
    F(full, 3, "", 0, 24, 1)
    # large numbers
    for sh, nd, good in (("4294967296, 4294967296", 2, 1), ("2305843009213693952, 2", 2, 1), ("9223372036854775807", 1, 0), ("9223372036854775807, 3", 2, 1), ("18446744073709551617,", 1, 0), ("0, 9223372036854775807", 2, 1), ("6,", 1, 1), ("1, 1, 1, 1, 1, 1, 2, 3", 8, 1),
                        ("1, 1, 1, 1, 1, 1, 2, 3, 1", 8, 0), ("1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1", 8, 0), ("0, 0", 2, 1), ("-1,", 1, 0), ("1048576, 1048576, 1048576, 4", 4, 1)):
        F(a + b + ", 'shape': (" + sh + "), }\n", 0, "", 4, 24, 0, P_SHAPE=", ".join(x.strip() + "UL" for x in sh.split(",") if x.strip() and "-" not in x and int(x) < 2 ** 64) or "0", P_NDIM=nd, P_ES=4, P_GOOD=good)
    for es, good in (("9223372036854775807", 1), ("4611686018427387904", 1), ("0", 0), ("-4", 0), ("", 0), ("4 ", 0)):
        F("{'descr': '<f" + es + b + c, 0, "", 4, 24, 0, P_SHAPE="3, 2", P_NDIM=2, P_ES="%sUL" % es if good else 0, P_GOOD=good)
    return out
BOUNDS["C22"] = "files of up to 130 bytes: complete ones, cut at 13 places, 15 header lengths, arbitrary magic and version; every dictionary that differs from a valid one in the type (3 and 4 arbitrary bytes), the order (4, 5), the shape (0..6, thorough 8, arbitrary bytes), or in 3 arbitrary bytes at every fourth (thorough: every) position; 19 large, zero, negative or too many numbers; all data bytes"
def C22(): return npy_files(0)
BOUNDS["C23"] = "the files of C22 (mapped and loaded), and the arrays of C20 with at most 40 bytes of data saved, mapped and loaded"
def C23():
    out = npy_files(1)
    for i, (d, es) in enumerate((((), 1), ((1,), 4), ((0,), 4), ((3, 2), 2), ((2, 0, 3), 8), ((1,) * 8, 4), ((2, 2), 8))): out.append(round_trip(d, es, i % 2, mmap=1))
    return out


BOUNDS["C24"] = "lists of 1..4 arrays of four kinds (0 to 2 dimensions, an empty one, both orders) with every data byte, ten names (format characters, empty, 80, 81 and 169 bytes, non-ASCII, repeated, missing) and 16 sequences of append and prepend; every compression method and level; every single failure of the archive library while saving; archives of others with names of up to 169 bytes, repeated names and an entry that is no array"
def C24():
    A, B, PC, DIR, EMPTY, N80, N81, NL, UT, ARR = range(10)
    def L(ops, comp=1, faults=0, mode=0, **k):
        return S("cb_list", 200, P_OPS=",".join(map(str, ops)), P_COMP=comp, P_FAULTS=faults, P_MODE=mode, VF_TYPED=1, VF_CONSTDIGITS=1, lib="bytes", strlen=200, flags=FS,
                 unwindset={"vf_memcpy.0": 300, "vf_strstr.0": 22, "vf_strchr.0": 12}, **k)
    out = []
    for i, ops in enumerate(((2*A,), (2*A+1,), (2*A, 2*B), (2*A, 2*B+1), (2*A+1, 2*B+1), (2*PC, 2*DIR, 2*EMPTY), (2*N80, 2*N81, 2*A), (2*NL, 2*UT+1), (2*A, 2*B, 2*PC+1, 2*UT), (2*DIR+1, 2*A, 2*B+1), (2*A, 2*B, 2*A), (2*A, 2*A+1))):
        out.append(L(ops, int(i % 3 != 0)))
    out += [L((2*A, 2*B, 2*UT), i % 2, i) for i in range(1, 9)]
    for rn in ((NL, PC), (N81, UT, EMPTY), (-1, NL, N80), (PC, -1, ARR)): out.append(L([0, 2, 4][:len(rn)], P_RENAME=','.join(map(str, rn))))
    out += [L((0, 0, 0), 1, 0, 1), L((0,), 0, 0, 1)]
    return out
def Q(*names): return ",".join('"%s"' % n for n in names)
LIB = "/a/rather/long/directory/of/libraries/libactivations.so.1"
BOUNDS["C25"] = "networks of 1..3 layers with 1..4 inputs and outputs in ten combinations, every bit pattern of all parameters, all nine activations, loaded activations with names of up to 63 bytes, the activations at every place of the archive"
def C25():
    def N(sizes, act, at=None, epoch=7, **k):
        return S("cb_savenet", 200, P_SIZES=",".join(map(str, sizes)), P_ACT=act, P_AT=2 * (len(sizes) - 1) if at is None else at, P_EPOCH=epoch, VF_TYPED=1, VF_NETTYPES=1, VF_LIST0=1, VF_LIST1=1 + 2 * (2 * len(sizes) - 1), VF_PTRS=2 * len(sizes) - 1, VF_CONSTDIGITS=1, lib="bytes", strlen=200, flags=FS,
                 cost=len(sizes), unwindset={"vf_memcpy.0": 300, "vf_strstr.0": 22, "vf_strchr.0": 12}, **k)
    out = [N((1, 1), Q("relu")), N((3, 2), Q("exponential"), 0), N((2, 4), Q("tanh"), 1), N((1, 3), Q("hard_sigmoid"), epoch=-12345),
           N((2, 1, 2), Q("relu", "softmax")), N((1, 2, 1), Q("linear", "sigmoid"), 0), N((1, 1, 3), Q("softplus", "softsign"), 3),
           N((2, 2), Q("my@libact.so"), VF_OWN_LOADER=1), N((1, 2, 1), Q("relu", "my@" + LIB), 2, VF_OWN_LOADER=1), N((1, 2, 1, 1), Q("tanh", "hard_sigmoid", "relu"), 5)]
    if T: out += [N((1, 1, 1), Q("relu", "tanh"), i) for i in range(5)] + [N((2, 3, 2, 1), Q("exponential", "linear", "sigmoid"))]
    return out


def net_list(arrays, acc=1, rej=1, **k):
    n = len(arrays)
    return S("cb_netload", 14, P_N=n, P_LIST=",".join(arrays), VF_TYPED=1, VF_NETTYPES=1, VF_LIST0=0, VF_LIST1=n, VF_PTRS=n, lib="bytes", strlen=80, flags=FS, stub=["npy_array_list_load"],
             unwindset={"vf_memcpy.0": 42, "vf_memset.0": 16, "vf_strcmp.0": 14, "vf_strchr.0": 14}, **({"P_ACC": 1} if acc else {}), **({"P_REJ": 1} if rej else {}), **k)
def W(r, c, s=0): return "F2(%d,%d,%d)" % (r, c, s)
def B(n, s=0): return "F1(%d,%d)" % (n, s)
def NM(n, es, s=0, t=None): return "NAMES(%d,%d,%d,%s)" % (n, es, s, '"%s"' % t if t else "NULL")

BOUNDS["C26"] = "lists of 0..5 arrays: eight that hold a network of one or two layers, four of one layer in which the dimension count or the lengths (0..3, or any up to 2^36 with at most 9 elements) of one or two arrays are arbitrary, and about 60 that hold none (missing, repeated and misplaced arrays, wrong sizes, dimension counts, element types and sizes, big-endian, Fortran order); all data bytes of the parameters; given activation names"
def C26():
    A = net_list
    ND, SH, BIG, DATA = 2, 4, 8, 16
    def X(t, nd, a=0, b=0, c=0, es=4, s=0, en="\\0", fo=0, txt=None): return "ANY('%s',%d,%d,%d,%d,%d,%d,'%s',%d,%s)" % (t, nd, a, b, c, es, s, en, fo, '"%s"' % txt if txt else "NULL")
    relu = NM(1, 4, t="relu"); two = NM(2, 7, t="sigmoidtanh\\0\\0\\0")
    ok = [[W(1, 2), B(2), relu], [relu, W(2, 1), B(1)], [W(1, 2), NM(1, 7, t="softmax"), B(2)], [W(2, 2), B(2), W(2, 1), B(1), two], [two, W(1, 2), B(2), W(2, 1), B(1)],
          [W(1, 2), B(2), X("S", 1, 1, es=4, en="<", txt="tanh")], [W(1, 2), B(2), NM(1, 12, t="hard_sigmoid")], [W(3, 3), B(3), relu]]
    out = [A(a, rej=0) for a in ok]
    for a in ([W(1, 2, SH), B(2, SH), relu], [W(2, 2), B(2, ND), relu],
              [W(1, 2, SH | BIG), B(2, SH), relu], [W(2, 1), B(1, SH | BIG), relu]):
        out.append(A(a, cost=5))
    bad = [[], [relu], [W(1, 2)], [W(1, 2), B(2)], [W(1, 2), relu], [B(2), W(1, 2), relu], [relu, relu, W(1, 2), B(2)], [W(1, 2), B(2), W(2, 1), two], [W(1, 2), B(2), B(2), relu], [W(1, 2), B(2), W(2, 1), B(1), relu],
           [W(1, 2), B(2), two], [W(1, 2), B(2), W(2, 1), B(1)], [relu, NM(1, 4, t="tanh")], [W(1, 2), W(2, 1), B(2), B(1), two], [W(1, 2), B(1), relu], [W(1, 1), B(2), relu], [W(1, 2), B(2), W(1, 1), B(1), two], [W(2, 1), B(1), W(2, 1), B(1), two],
           [W(0, 1), B(1), relu], [W(1, 0), B(0), relu], [W(1, 2), X("f", 2, 1, 2), relu], [X("f", 1, 2), B(2), relu], [X("f", 3, 1, 2, 1), B(2), relu], [W(1, 2), B(2), X("S", 2, 1, 1, es=4, txt="relu")], [W(1, 2), B(2), X("S", 0, 0, es=4)],
           [W(2, 2), B(1), W(2, 1), B(1), two], [W(2, 2), B(2), W(2, 1), B(2), two], [W(2, 2), B(2), W(3, 1), B(1), two], [W(2, 2), B(2), W(1, 2), B(2), two], [W(2, 3), B(3), W(2, 1), B(1), two],
           [W(2, 2), B(2), NM(2, 2, t="relu")], [W(2, 2), B(2), NM(3, 4, t="relu\\0\\0\\0\\0tanh")], [W(2, 2), B(2), NM(0, 4, t="")],
           [X("f", 0), B(2), relu], [X("f", 3, 1, 2, 2), B(2), relu], [W(1, 2), X("f", 0), relu], [W(1, 2), B(2), X("S", 3, 1, 1, 1, es=4, txt="relu")]]
    for kw in (dict(es=8), dict(es=2), dict(es=1), dict(en=">"), dict(fo=1)):
        bad.append([X("f", 2, 2, 2, **kw), B(2), relu])
        if "fo" not in kw: bad.append([W(1, 2), X("f", 1, 2, **kw), relu])
    for t in ("i", "u", "V", "F", "U", "\\0") + (("b", "O", "s", "c") if T else ()): bad += [[X(t, 2, 1, 2), B(2), relu], [W(1, 2), X(t, 1, 2), relu], [W(1, 2), B(2), relu, X(t, 1, 1)], [W(1, 2), B(2), X(t, 1, 1)]][:4 if T or t == "i" else 2]
    out += [A(r, acc=0) for r in bad]
    return out


BOUNDS["C27"] = "each single failing allocation while creating networks of 1..3 layers and while loading networks of 1 and 2 layers; each single failing allocation or file operation while loading and mapping an array; eight of the 39 allocations, file and archive operations (thorough: all) while loading a network of one layer; each single failing file or archive operation while saving an array and a network; built-in activations"
def C27():
    out = []
    for sizes in ((1, 1), (2, 1, 3), (1, 2, 1, 1)):
        for at in range(2 * len(sizes)): out.append(S("cb_fault", 20, P_OP=0, P_SIZES=",".join(map(str, sizes)), P_AT=at, VF_TYPED=1, VF_NETTYPES=1, VF_LIST0=0, VF_LIST1=0, VF_PTRS=1, lib="bytes", flags=FS))
    for op, n in ((1, 7), (2, 4), (3, 4)):
        for at in range(n): out.append(S("cb_fault", 200, P_OP=op, P_AT=at, VF_TYPED=1, VF_CONSTDIGITS=1, lib="bytes", strlen=200, flags=FS, unwindset={"vf_memcpy.0": 200, "vf_strstr.0": 22, "vf_strchr.0": 12}))
    for arrays in ([W(1, 2), B(2), NM(1, 4, t="relu")], [W(2, 2), B(2), W(2, 1), B(1), NM(2, 7, t="sigmoidtanh\\0\\0\\0")]):
        for at in range(5 + len(arrays) - 1): out.append(net_list(arrays, 0, 0, P_AT=at))
    def N(**k):
        return S("cb_savenet", 200, P_SIZES="1,1", P_ACT=Q("relu"), P_AT=1, P_EPOCH=7, VF_TYPED=1, VF_NETTYPES=1, VF_LIST0=1, VF_LIST1=7, VF_PTRS=3, VF_CONSTDIGITS=1, lib="bytes", strlen=200, flags=FS,
                 cost=2, unwindset={"vf_memcpy.0": 300, "vf_strstr.0": 22, "vf_strchr.0": 12}, **k)
    out += [N(P_SAVE_FAULT=i) for i in range(8)]
    out += [N(P_LOAD_FAULT=i) for i in (range(39) if T else (2, 8, 12, 17, 22, 27, 31, 34))]
    for sc in out: sc["may_miss"] = "the operation fails"
    return out

#!/usr/bin/env python3
"""Fills the property table of DESIGN.md (between the two marker lines) from the check definitions."""
import os, sys, json, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(ROOT, "engine"))
import cbmc_checks, numeric_checks
man = {c["property"] for c in json.load(open(os.path.join(ROOT, "MANIFEST.json")))["checks"]}
ORACLE = {
 "C01": ("h_predict.c", "the layer recursion a_l = f_l(W a_{l-1} + b) in plain C with opaque f"),
 "C02": ("all numeric harnesses", "every load/store inside a live object, initialised, on the alignment its instruction needs; canary bytes around buffers"),
 "C03": ("h_activation.c", "defining formula over the reals; exp kernels by an error lemma per range-reduction index"),
 "C04": ("h_actderiv.c", "the derivative as a function of the activation's output, branch points excluded as stated"),
 "C05": ("h_loss.c", "analytic gradient of the named loss"),
 "C06": ("h_metric.c", "defining formula of each metric"),
 "C07": ("h_backprop.c", "chain rule written out on the reference network, opaque f, f', loss"),
 "C08": ("h_params.c", "an index map computed from the shape alone"),
 "C09": ("h_batchgrad.c", "mean of reference per-sample gradients over pivot[i..]"),
 "C10": ("cb_shuffle.c", "each index occurs once per epoch; a reachability query per permutation"),
 "C11": ("h_train.c", "update rule on a shadow parameter vector"), "C12": ("h_train.c", "update rule on a shadow parameter vector"),
 "C13": ("h_train.c", "update rule on a shadow parameter vector"), "C14": ("h_train.c", "update rule on a shadow parameter vector, powers of beta recomputed per step"),
 "C15": ("h_evaluate.c, h_train.c", "mean of opaque metrics over each set, order training then validation"),
 "C16": ("h_batchgrad.c, h_evaluate.c", "the serial result; pairwise disjointness of all accesses of different threads outside critical/atomic"),
 "C17": ("h_batch.c", "single predictions; cblas replaced by its definition"),
 "C18": ("cb_setloss.c", "table loss/last activation -> derivative pointers"),
 "C19": ("cb_init.c", "bounds of each scheme, zero bias, automatic choice by activation"),
 "C20": ("cb_npyround.c", "loaded array equals saved array field by field and byte by byte"),
 "C21": ("cb_npyheader.c", "independent parser for format 1.0 in the harness"),
 "C22": ("cb_npyfile.c", "pointer/bounds checks; an accepted array owns shape*size readable bytes and reports what the header says; no leak"),
 "C23": ("cb_npyfile.c, cb_npyround.c", "both loaders agree; the mapping covers the array"),
 "C24": ("cb_list.c", "a model archive (sequence of named entries); result of load equals list saved"),
 "C25": ("cb_savenet.c", "all parameters bit-equal, same activations, same shape"),
 "C26": ("cb_netload.c", "an independent predicate 'this list describes a network'; accepted iff true, memory safety, no leak, caller's list untouched"),
 "C27": ("cb_fault.c, cb_netload.c, cb_savenet.c", "one operation fails: failure is returned (or, where the API documents it, success without it), no invalid access, no leak"),
 "C28": ("cb_names.c", "the documented name tables, both directions"),
 "C29": ("cb_dynload.c", "a model loader (open count, symbols, errors): resolved iff both exist, each handle closed once"),
 "C30": ("cb_earlystop.c", "a counter machine per instance"), "C31": ("cb_checkpoint.c", "running best per instance"),
 "C32": ("cb_logger.c", "the exact text expected in the log; last number of an existing log + 1"),
 "C33": ("cb_create.c", "accept iff sizes positive, activations known and memory suffices; then shape, padding, alignment"),
 "C34": ("cb_progress.c", "line length, filled fraction, final newline exactly at total"),
}
rows = ["| id | property | decided by | harness | oracle | bounds (quick tier) |", "|---|---|---|---|---|---|"]
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l); i = p["id"]; h, o = ORACLE[i]
    b = numeric_checks.BOUNDS.get(i) or cbmc_checks.BOUNDS.get(i) or ""
    how = ("irsym+z3" if i in numeric_checks.BOUNDS else "CBMC") if i in man else "not claimed"
    rows.append("| %s | %s | %s | %s | %s | %s |" % (i, p["title"], how, h, o.replace("|", "\\|"), b))
f = os.path.join(ROOT, "DESIGN.md"); s = open(f).read()
a, z = "<!-- table begin -->", "<!-- table end -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(z):]
fx = json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
a, z = "<!-- fixes begin -->", "<!-- fixes end -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join("- " + x for x in fx) + "\n" + s[s.index(z):]
open(f, "w").write(s)

"""C17 - data in: CSV reading, splitting, and the three programs from file to printed accuracy."""
import contextlib
import io
import itertools
import logging
import os
import random
import re
import shutil
import sys
import tempfile
import traceback

import numpy as np

from mc import compat, core, fed, scale, sim
from mc.core import expect, close
from computing.d_table import DTable
from i_o import utils as readers
import ml.tree.hetero_secureboosting_tree_guest as gmod
import ml.tree.hetero_secureboosting_tree_host as hmod
from federation import transfer_inst  # noqa: F401

META = dict(
    title="The programs train and score on exactly the CSV rows, aligned across parties",
    statement="Reading a CSV file yields per line its id, its label (guest) and its feature values in column order, with the feature names of the header, whatever the line ending. Splitting puts every row into exactly one of two parts, the first holding the given share, in the original order unless shuffling is asked for; with equal length, share and seed all parties get the same rows at the same positions, whatever was drawn before. The guest, host and standalone programs fit on the first part and predict the second, every party under the same keys for the same ids, and the printed accuracy is the share of test rows whose predicted class is the label in the file.",
    quantifier=dict(over=["inputs", "configurations"], text="all files over small pools of headers, ids, labels, number spellings and line endings, all list lengths up to 12 with 14 shares, seeds and shuffling on and off, and the complete programs with one and two hosts for all label patterns and shares over four to seven rows; files of up to 5000 rows or 1030 columns, programs with up to 60 rows and 5 hosts, sizes enumerated"),
    why_tests_cant="No test reads a file or runs a program. A row lost at the cut, a label column off by one or a shuffle that differs between parties shows only in the joint behaviour of separate processes on whole files.",
    anchors=dict(files=["i_o/utils.py", "guest.py", "host.py", "test_xgboost.py", "computing/d_table.py", "ml/feature/instance.py"],
                 state=[dict(name="train and test instances", meaning="the rows of a party under their positions", where="guest.py, host.py")],
                 mechanism=[dict(name="reading", where="read_from_csv_with_lable, read_from_csv_with_no_lable"), dict(name="splitting", where="data_split"), dict(name="program", where="guest.py, host.py, test_xgboost.py")],
                 observe_at=["returned lists", "tables handed to fit and predict", "printed accuracy"], hook_needed=None),
    level="model_checking",
    technique="exhaustive enumeration of files and splits, and of whole multi-program runs over simulated sockets, against the file contents",
    level_note="Exhaustive over the stated pools; the programs run with an identity function behind Paillier and the default schedule (schedules are C03's).",
    bounds=dict(quick=dict(csv_rows=2, csv_columns=3, list_length=12, program_rows=7, hosts=2), thorough=dict(csv_rows=3, csv_columns=3, list_length=24, program_rows=8, hosts=2)),
    rule="a case is a file, a split, or one run of all programs; states are distinct cases, outcomes distinct results",
    assumptions=["files are comma separated without quoting or blank lines, rows of the parties' files describe the same ids in the same order (the repository has no id alignment)"],
)

_DIR = None


def scratch():
    """A directory of this process; removed when the block ends."""
    global _DIR
    if _DIR is None or not os.path.isdir(_DIR):
        _DIR = tempfile.mkdtemp(prefix="verif-c17-")
    return _DIR


def drop():
    global _DIR
    if _DIR and os.path.isdir(_DIR):
        shutil.rmtree(_DIR, ignore_errors=True)
    _DIR = None


def write(name, header, rows, eol="\n", last=True):
    path = os.path.join(scratch(), name)
    text = eol.join([",".join(header)] + [",".join(r) for r in rows]) + (eol if last else "")
    with open(path, "wb") as f:
        f.write(text.encode())
    return path


def widen(case):
    """A long or wide file: its fields follow from the sizes."""
    if "wide" not in case:
        return case
    n, m, h = case["wide"], case["width"], scale.h
    rows = [["u%d" % (i * 7 % n if n % 7 else i)] + (["abc"[h(i) % 3]] if case["labelled"] else []) + [("%.6g", "%d", "%.3e", "-%d.25")[(i + c) % 4] % (h(i, c) % 100003) for c in range(m)] for i in range(n)]
    return dict(case, header=(["id", "y"] if case["labelled"] else ["id"]) + ["x%d" % (m - c) for c in range(m)], rows=rows)


def run_read(case):
    case = widen(case)
    header, rows, labelled = case["header"], case["rows"], case["labelled"]
    path = write("t.csv", header, rows, case["eol"], case["last"])
    got = (readers.read_from_csv_with_lable if labelled else readers.read_from_csv_with_no_lable)(path)
    first = 2 if labelled else 1
    expect(len(got) == (4 if labelled else 3), "%d things are returned", len(got))
    h, ids, feats = got[:3]
    expect(list(h) == header[first:], "the header is %r instead of %r", h, header[first:])
    expect(list(ids) == [r[0] for r in rows], "the ids are %r", ids)
    expect(len(feats) == len(rows), "%d rows of %d", len(feats), len(rows))
    for r, f in zip(rows, feats):
        expect([float(x) for x in f] == [float(x) for x in r[first:]], "the row %r became %r", r, f)
    if labelled:
        expect(list(got[3]) == [r[1] for r in rows], "the labels are %r", got[3])
    return [list(map(float, f)) for f in feats]


def load(script):
    """Names of a program, loaded without running it (in the scratch directory: it opens a log file)."""
    path = os.path.join(compat.REPO, script)
    ns = {"__name__": "loaded", "__file__": path}
    with quiet():
        exec(compile(open(path).read(), path, "exec"), ns)
    return ns


@contextlib.contextmanager
def quiet():
    cwd = os.getcwd()
    os.chdir(scratch())
    logging.disable(logging.CRITICAL)
    try:
        yield
    finally:
        os.chdir(cwd)
        for n in ("guest", "host"):
            lg = logging.getLogger(n)
            for h in list(lg.handlers):
                lg.removeHandler(h)
                h.close()
        logging.disable(logging.NOTSET)


_FUN = {}


def splitter(script):
    if script not in _FUN:
        _FUN[script] = load(script).get("data_split")
    return _FUN[script]


def sizes(n, ratio):
    return {int(n * ratio - 1e-9) if n * ratio > 1e-9 else 0, int(n * ratio + 1e-9)}


def run_split(case):
    n, ratio = case["n"], case["ratio"]
    outs = []
    for script in ("guest.py", "host.py", "test_xgboost.py"):
        f = splitter(script)
        if f is None:
            continue
        random.seed(len(outs) * 77 + 5)
        for _ in range(len(outs) * 3):
            random.random()
        data = ["r%d" % i for i in range(n)]
        a, b = f(list(data), ratio, *case["args"])
        expect(sorted(list(a) + list(b)) == sorted(data), "%s: %d rows were split into %r and %r", script, n, a, b)
        expect(len(a) in sizes(n, ratio), "%s: share %r of %d rows is %d rows", script, ratio, n, len(a))
        if not (case["args"] and case["args"][0]):
            expect(list(a) + list(b) == data, "%s: unshuffled rows come back as %r, %r", script, a, b)
        outs.append((list(a), list(b)))
    if not case["args"] or not case["args"][0] or len(case["args"]) > 1 and case["args"][1] is not None:
        expect(all(o == outs[0] for o in outs), "the parties split the same rows differently: %r", outs)
        return outs[0] if outs else None
    return len(outs[0][0]) if outs else None


# ---------------------------------------------------------------------- whole programs

@contextlib.contextmanager
def recording(classes, log):
    saved = []
    for tag, cls in classes:
        for m in ("fit", "predict"):
            orig = cls.__dict__.get(m)
            if orig is None:
                continue
            saved.append((cls, m, orig))

            def wrap(self, *a, _o=orig, _m=m, _t=tag, **kw):
                tab = next((x for x in list(a) + list(kw.values()) if isinstance(x, DTable)), None)
                if tab is not None:
                    p = sim.current_party()
                    log.append(((p.name if p is not None else _t), _m, {k: (v.inst_id, v.label, [float(x) for x in v.features]) for k, v in tab.collect()},
                                list(tab.schema.get("header", []))))
                r = _o(self, *a, **kw)
                if _m == "predict" and tab is not None and r is not None:
                    log.append(((p.name if p is not None else _t), "result", dict(r.collect()), None))
                return r
            setattr(cls, m, wrap)
    try:
        yield
    finally:
        for cls, m, orig in saved:
            setattr(cls, m, orig)


def program(script, argv):
    path = os.path.join(compat.REPO, script)
    code = compile(open(path).read(), path, "exec")
    sys.argv = [script] + [str(a) for a in argv]
    exec(code, {"__name__": "__main__", "__file__": path})


def judge_party(name, log, rows, labels, header, n, ratio):
    """rows: id -> features of this party's file; returns (train, test) as key -> id"""
    fits = [e for e in log if e[0] == name and e[1] == "fit"]
    preds = [e for e in log if e[0] == name and e[1] == "predict"]
    expect(len(fits) == 1 and len(preds) == 1, "%s fits %d and predicts %d times", name, len(fits), len(preds))
    train, test = fits[0][2], preds[0][2]
    expect(len(train) in sizes(n, ratio) and len(train) + len(test) == n, "%s: %d rows give %d training and %d test rows (share %r)", name, n, len(train), len(test), ratio)
    seen = sorted([v[0] for v in train.values()] + [v[0] for v in test.values()])
    expect(seen == sorted(rows), "%s trains and tests on the ids %r", name, seen)
    for v in list(train.values()) + list(test.values()):
        expect(v[2] == rows[v[0]], "%s: id %s has the features %r instead of %r", name, v[0], v[2], rows[v[0]])
        if labels is not None:
            expect(v[1] == labels[v[0]], "%s: id %s has the label %r instead of %r", name, v[0], v[1], labels[v[0]])
    for e in (fits[0], preds[0]):
        expect(e[3] == header, "%s: the header is %r instead of %r", name, e[3], header)
    return {k: v[0] for k, v in train.items()}, {k: v[0] for k, v in test.items()}


def judge_result(log, name, test, labels, out):
    res = [e[2] for e in log if e[0] == name and e[1] == "result"]
    expect(len(res) == 1, "%s has %d prediction results", name, len(res))
    expect(set(res[0]) == set(test), "predictions for the keys %r, test rows are %r", sorted(res[0]), sorted(test))
    hits = 0
    for k, v in res[0].items():
        expect(v[0] == labels[test[k]], "row %s is reported with the label %r instead of %r", test[k], v[0], labels[test[k]])
        hits += v[1] == labels[test[k]]
    m = re.findall(r"accuracy\D*([0-9.]+(?:[eE][-+]?\d+)?)", out)
    if m:      # the line could be worded differently; then there is nothing to compare
        expect(close(float(m[-1]), hits / len(test), 1e-6), "accuracy %s is printed for %d of %d correct rows", m[-1], hits, len(test))
    return hits, {repr(k): repr(v[1]) for k, v in res[0].items()}


def numbers(kind, i, c):
    """feature value of row i, column c, as written in the file"""
    if kind == "ladder":
        return "%d.5" % (i * (c + 1) - 2)
    if kind == "zigzag":
        return "%s" % ((i * 7 + c * 3) % 5 - 1)
    return "%g" % (1.25 if (i + c) % 3 else 0)


def run_program(case):
    y, hosts, ratio, kind = case["y"], case["hosts"], case["ratio"], case["kind"]
    n = len(y)
    ids = ["id%d" % ((i * 5) % 11 if n <= 11 else i) for i in range(n)]
    labels = dict(zip(ids, y))
    gh, hh = ["x0", "x1"], [["h%d_%d" % (j, c) for c in range(max(1, 2 - j))] for j in range(hosts)]
    grow = [[numbers(kind, i, c) for c in range(2)] for i in range(n)]
    hrow = [[[numbers(kind, (i * (j + 2)) % n, c + j + 1) for c in range(max(1, 2 - j))] for i in range(n)] for j in range(hosts)]
    if case.get("bare") == "guest":
        gh, grow = [], [[] for _ in range(n)]
    elif case.get("bare") == "host":
        hh[-1], hrow[-1] = [], [[] for _ in range(n)]
    gpath = write("g.csv", ["id", "y"] + gh, [[ids[i], y[i]] + grow[i] for i in range(n)])
    hpaths = [write("h%d.csv" % j, ["id"] + hh[j], [[ids[i]] + hrow[j][i] for i in range(n)]) for j in range(hosts)]
    log, out = [], io.StringIO()
    argv = sys.argv
    s = sim.Sim(None, horizon=3000000)
    s.spawn("guest", lambda: program("guest.py", [gpath, hosts, ratio, case.get("task", "CLASSIFICATION"), 12345]))
    for j in range(hosts):
        s.spawn("host%d" % j, lambda j=j: program("host.py", [hpaths[j], ratio, 12345, j]))
    random.seed(case.get("seed", 11))
    np.random.seed(3)
    try:
        with quiet(), fed.FakeKeys.on(), contextlib.redirect_stdout(out), \
                recording([("guest", gmod.HeteroSecureBoostingTreeGuest), ("host", hmod.HeteroSecureBoostingTreeHost)], log):
            if case.get("task"):
                fed.run_parties(s, allow_errors=True)
            else:
                fed.run_parties(s)
    finally:
        sys.argv = argv
    if case.get("task"):
        expect(isinstance(s.parties[0].error, ValueError), "the task type %r is accepted (%r)", case["task"], s.parties[0].error)
        return "refused"
    feats = lambda rows: {ids[i]: [float(x) for x in rows[i]] for i in range(n)}
    train, test = judge_party("guest", log, feats(grow), labels, gh, n, ratio)
    for j in range(hosts):
        t2, s2 = judge_party("host%d" % j, log, feats(hrow[j]), None, hh[j], n, ratio)
        expect(t2 == train and s2 == test, "host %d has the ids %r / %r under the keys where the guest has %r / %r", j, t2, s2, train, test)
    return judge_result(log, "guest", test, labels, out.getvalue()), s.steps


def run_alone(case):
    y, kind = case["y"], case["kind"]
    n, ratio = len(y), 0.8
    ids = ["id%d" % i for i in range(n)]
    labels = dict(zip(ids, y))
    import xgboost.hetero_secureboosting_tree_guest as xmod
    g = [[numbers(kind, i, c) for c in range(2)] for i in range(n)]
    h = [[numbers(kind, i * 3 % n, c + 3) for c in range(2)] for i in range(n)]
    d = os.path.join(scratch(), "data", "vehicle_scale_hetero")
    os.makedirs(d, exist_ok=True)
    write("data/vehicle_scale_hetero/vehicle_scale_hetero_guest.csv", ["id", "y", "x0", "x1"], [[ids[i], y[i]] + g[i] for i in range(n)])
    write("data/vehicle_scale_hetero/vehicle_scale_hetero_host.csv", ["id", "x2", "x3"], [[ids[i]] + h[i] for i in range(n)])
    log, out, argv = [], io.StringIO(), sys.argv
    random.seed(5)
    np.random.seed(3)
    try:
        with quiet(), fed.FakeKeys.on(), contextlib.redirect_stdout(out), recording([("alone", xmod.HeteroSecureBoostingTreeGuest)], log):
            program("test_xgboost.py", [])
    finally:
        sys.argv = argv
    train, test = judge_party("alone", log, {ids[i]: [float(x) for x in g[i] + h[i]] for i in range(n)}, labels, ["x0", "x1", "x2", "x3"], n, ratio)
    return judge_result(log, "alone", test, labels, out.getvalue())


# ---------------------------------------------------------------------- enumeration
RATIOS = [0, 0.05, 0.1, 0.25, 0.3, 1 / 3, 0.4, 0.5, 0.6, 2 / 3, 0.7, 0.8, 0.9, 1, 1.0]


def tasks(tier):
    big = tier != "quick"
    out = [dict(b="read", labelled=l, rows=r, part=i, of=4) for l in (True, False) for r in ((0, 1, 2, 3) if big else (0, 1, 2)) for i in range(4)]
    out += [dict(b="split", top=24 if big else 12)]
    out += [dict(b="program", n=n, hosts=h, part=i, of=8) for h in (1, 2) for n in ((4, 5, 6, 7, 8) if big else (4, 5, 6, 7)) for i in range(8 if n < 8 else 24)]
    out += [dict(b="alone", n=n, part=i, of=2) for n in (5, 6) + ((7,) if big else ()) for i in range(2)]
    out += [dict(b="wrong"), dict(b="bare")]
    out += [dict(b="wide", big=big, part=i, of=6) for i in range(6)]
    return out


NUMS = ["0", "-1.5", "1e-3", "007", "2.", " 3 ", "-0.0", "1E5", "nan1"][:8]
IDS = ["0", "a b", "0"]
LABELS = ["1", "0", "yes", "2.0", ""]


def patterns(n, offset, kinds):
    """label patterns of which every choice of offset rows has two classes"""
    for y in itertools.product(kinds, repeat=n):
        cnt = sorted(y.count(k) for k in set(y))
        if len(cnt) > 1 and n - cnt[-1] > n - offset and sum(cnt) == n:
            yield list(y)


def cases(block):
    b = block["b"]
    if b == "read":
        names = ["id", "y", "x0", "x 1", "x2"]
        for m in (1, 2, 3):
            header = (["id", "y"] if block["labelled"] else ["id"]) + names[2:2 + m]
            pool = NUMS if m * block["rows"] <= 2 else NUMS[1:4] + ["-0.0"] if m * block["rows"] < 5 else ["-1.5", "1e-3"]
            for flat in itertools.product(pool, repeat=m * block["rows"]):
                for lab in itertools.product(LABELS if block["rows"] < 2 else LABELS[:3], repeat=block["rows"] if block["labelled"] and m < 3 else 0) if block["labelled"] and m < 3 else [("1",) * block["rows"]]:
                    rows = []
                    for i in range(block["rows"]):
                        rows.append([IDS[i % 3] if i % 3 != 2 else "id2"] + ([lab[i]] if block["labelled"] else []) + list(flat[i * m:(i + 1) * m]))
                    for eol, last in (("\n", True), ("\n", False), ("\r\n", True)):
                        yield dict(k="read", header=header, rows=rows, labelled=block["labelled"], eol=eol, last=last)
        # lines may repeat: every line is a row
        if block["rows"] == 2:
            for n in (2, 3, 4, 5, 6):
                for which in itertools.product(range(2), repeat=n):
                    for m in (0, 1, 2):
                        pool = [[["u", "v"][w]] + (["1"] if block["labelled"] else []) + ["1.5"] * m for w in range(2)]
                        for eol, last in (("\n", True), ("\r\n", False)):
                            yield dict(k="read", header=(["id", "y"] if block["labelled"] else ["id"]) + ["x0", "x1"][:m], rows=[pool[w] for w in which], labelled=block["labelled"], eol=eol, last=last)
        # blanks and odd characters belong to the fields they stand in
        if block["rows"] == 1:
            # ids and labels are strings, whatever they look like
            odd = ["007", "7", "+7", "-0", "1e3", "1.0", "0.0", "00", "0x1f", "1_000", "nan", "None", "True", "inf", "1" * 25, "A", "ID", "id", "y"]
            for i, lab in itertools.product(odd, odd if block["labelled"] else [""]):
                yield dict(k="read", header=["id"] + (["y"] if block["labelled"] else []) + ["x0"], rows=[[i] + ([lab] if block["labelled"] else []) + ["1.5"]], labelled=block["labelled"], eol="\n", last=True)
            for i in (" a", "a ", "\ta", "", " ", "\u00e9", "#1", "'q'"):
                for lab in (" 1", "1 ", "\t", "\u00e9") if block["labelled"] else ("",):
                    for name in ("x0", " x0 ", "x0\t"):
                        for v in ("1.5", " 1.5", "1.5 "):
                            for eol, last in (("\n", True), ("\n", False), ("\r\n", True)):
                                h = ["id"] + (["y"] if block["labelled"] else [])
                                yield dict(k="read", header=h + [name, "x1"], rows=[[i] + ([lab] if block["labelled"] else []) + ["2", v]], labelled=block["labelled"], eol=eol, last=last)
                                yield dict(k="read", header=h + ["x1", name], rows=[[i] + ([lab] if block["labelled"] else []) + [v, "2"]], labelled=block["labelled"], eol=eol, last=last)
    elif b == "split":
        for n in range(block["top"] + 1):
            for ratio in RATIOS:
                for args in ([], [False], [False, 2], [True], [True, 2], [True, 0], [True, 99], [True, None]):
                    yield dict(k="split", n=n, ratio=ratio, args=args)
    elif b == "program":
        n = block["n"]
        for ratio in (0.5, 0.7, 0.8, 0.9):
            off = int(n * ratio)
            for y in patterns(n, off, ["0", "1"]):
                if n > 6 and y[0] == "1":      # the other half only renames the classes
                    continue
                for kind in ("ladder", "zigzag", "two") if n < 7 else ("zigzag", "two"):
                    yield dict(k="program", y=y, hosts=block["hosts"], ratio=ratio, kind=kind)
        for y in (["a", "b", "c"] * n)[:n], (["1", "3", "2", "2"] * n)[:n]:
            yield dict(k="program", y=y, hosts=block["hosts"], ratio=0.9, kind="zigzag")
    elif b == "alone":
        n = block["n"]
        for y in patterns(n, int(n * 0.8), ["0", "1"]):
            for kind in ("ladder", "two"):
                yield dict(k="alone", y=y, kind=kind)
        yield dict(k="alone", y=(["1", "3", "2"] * n)[:n], kind="zigzag")
    elif b == "wide":
        for n, m in [(n, m) for n in (9, 10, 11, 33, 101) for m in (1, 9, 10, 11, 33, 130)] + [(1025, 3), (5000, 1), (2, 1030), (70000, 2)] + ([(300000, 2), (3, 9000)] if block["big"] else []):
            for labelled in (True, False):
                for eol, last in (("\n", True), ("\r\n", False)):
                    yield dict(k="read", wide=n, width=m, labelled=labelled, eol=eol, last=last)
        for n in (25, 60, 99, 100, 101, 128, 500, 1000, 1001) + ((20000,) if block["big"] else ()):
            for ratio in RATIOS:
                for args in ([], [True], [True, 2], [True, 0], [True, None]):
                    yield dict(k="split", n=n, ratio=ratio, args=args)
        for n in (9, 12, 20, 33, 60) + ((120, 300) if block["big"] else ()):
            for hosts in (1, 2, 3, 5):
                for lab in ("01", "abc", "0123456"):
                    if len(lab) < 5 or n < 21:
                        for ratio in (0.75, 0.9) if n < 21 else (0.8,):
                            yield dict(k="program", y=[lab[scale.h(i, n) % len(lab)] if i >= 2 * len(lab) else lab[i % len(lab)] for i in range(n)], hosts=hosts, ratio=ratio, kind="zigzag" if n % 2 else "ladder")
    elif b == "bare":
        # a guest's file of ids and labels only, a host's file of ids only
        for n in (4, 7, 12):
            for hosts in (1, 2):
                for bare in ("guest", "host"):
                    for lab in ("01", "abc"):
                        for kind in ("ladder", "zigzag"):
                            yield dict(k="program", y=[lab[i % len(lab)] for i in range(n)], hosts=hosts, ratio=0.8, kind=kind, bare=bare)
        for labelled in (True, False):
            for k in range(4):
                for eol, last in (("\n", True), ("\n", False), ("\r\n", True)):
                    yield dict(k="read", header=["id", "y"] if labelled else ["id"], rows=[["u%d" % i] + (["ab"[i % 2]] if labelled else []) for i in range(k)], labelled=labelled, eol=eol, last=last)
    elif b == "wrong":
        for t in ("REGRESSION", "classification", "x"):
            for h in (1, 2):
                yield dict(k="program", y=["0", "1", "0", "1"], hosts=h, ratio=0.8, kind="two", task=t)


def explore(ctx, block):
    try:
        for i, case in enumerate(cases(block)):
            if i % block.get("of", 1) != block.get("part", 0):
                continue
            r = ctx.case(case, lambda: run_case(case))
            if r is not None:
                ctx.state(core.jsonable(case))
                ctx.outcome(r)
                if case["k"] == "program" and not case.get("task"):
                    ctx.step(r[1])
    finally:
        drop()


def run_case(case):
    return dict(read=run_read, split=run_split, program=run_program, alone=run_alone)[case["k"]](case)

"""C06 - what the hosts get to see of the guest's secrets: ciphertexts and structure only."""
import itertools
import math
import pickle
import random

import numpy as np

from mc import core, fed, priv, scale
from mc.core import expect
from mc.props import c05

META = dict(
    title="Hosts never receive labels, gradients, scores, weights or guest values in clear",
    statement="In every message a guest sends during training and prediction, gradients, hessians and gains appear only as ciphertexts; no label, class name, score, gradient or hessian sum, leaf weight, guest feature value, guest threshold, guest bin number or feature name appears in clear, and no private key material does. Ciphertexts are randomised: no two of a strict-mode training are related by a factor that reveals the difference of their plaintexts, and none reveals its own; every training uses a fresh key of the configured length, and neither keys nor that randomness follow from the state of the seedable generators. What a host sees before its own first answer does not depend on the labels at all, and nothing it sees depends on the guest's feature values beyond their order.",
    quantifier=dict(over=["inputs", "configurations", "histories"], text="all labellings of small data sets, all objectives, 2 and 3 classes, several tree shapes and encryption modes, predictions on rows seen and unseen, all rank-preserving changes of the guest's values from a set, key lengths from 128 to 3072 bits with re-seeded generators; every size swept far beyond the grids on fixed data"),
    why_tests_cant="A leak changes no result: every functional test passes while labels travel in clear. It shows only when every message of every run is inspected.",
    anchors=dict(files=["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_secureboosting_tree_guest.py", "ml/secureprotol/encrypt_mode.py", "ml/secureprotol/fate_paillier.py"],
                 state=[dict(name="messages", meaning="everything handed to send_data_to_hosts", where="transfer_inst")],
                 mechanism=[dict(name="masking of nodes and trees", where="sync_tree_node_queue, sync_tree, encode"),
                            dict(name="encryption of gradients and gains", where="encrypt_grad_and_hess, find_host_split"),
                            dict(name="obfuscation", where="PaillierPublicKey.encrypt, apply_obfuscator")],
                 observe_at=["messages from guest to hosts"], hook_needed=None),
    level="model_checking",
    technique="exhaustive execution of small trainings with opaque ciphertexts; every message inspected atom by atom, and noninterference compared across runs",
    level_note="Exhaustive over the stated grids. Whether what a ciphertext hides is computationally hidden is Paillier's business; the checks look at what is sent, at obfuscation and at linear relations of ciphertexts modulo n. Fixed-point exponents (coarse magnitude) and the tree structure and best indices of the protocol are revealed by design; fast/balance modes reuse ciphertexts by design and are exempt from the pairwise clause.",
    bounds=dict(quick=dict(rows=12, hosts=2), thorough=dict(rows=12, hosts=2)),
    rule="a case is (data, labels, parameters); states are distinct (data, labels); outcomes are distinct message-shape histories",
    assumptions=["row keys are public", "the order of rows is public"],
)

MODES = {"strict": dict(mode="strict"), "fast": dict(mode="fast"), "balance": dict(mode="balance", re_rate=1.0)}


def boost(case, tap_log, **kw):
    p = fed.boost_param(tree=fed.tree_param(max_depth=case.get("depth", 3), min_impurity_split=1e-3, lam=0.1, max_split_nodes=case.get("batch", 65536)),
                        num_trees=case.get("rounds", 2), tol=0.0, key_length=case.get("key_length", 256), bin_num=case.get("bin_num", 32), **dict(MODES[case.get("mode", "strict")], **(
                            dict(task="regression", objective=case["loss"], params=c05.LOSSES[case["loss"]]) if case.get("loss") else {})))
    ids = case.get("ids") or ["r%d" % i for i in range(len(case["y"]))]
    test = None
    if case.get("test"):
        t = case["test"]
        test = dict(ids=list(ids) + ["t%d" % i for i in range(len(t["guest"]))], guest=case["guest"] + t["guest"],
                    hosts=[a + c for a, c in zip(case["hosts"], t["hosts"])])
    b = fed.Boost(ids, case["guest"], case["y"], case["hosts"], p, test=test, tap=lambda n, i: priv.Tap(n, i, tap_log), **kw)
    b.all_ids = set(ids) | (set(test["ids"]) if test else set())
    return b


def header_names(case):
    return {"x%d" % f for f in range(len(case["guest"][0]))}


def scaled(case):
    """A case whose data is a fixed function of its sizes (mc/scale.py)."""
    if "scale" not in case:
        return case
    c = c05.scaled(dict(scale=case["scale"]))
    s, t = c["scale"], c["test"]
    out = dict(guest=c["guest"], hosts=c["hosts"], y=c["y"] if "loss" in c else ["label%s" % "ABCDEFGHIJK"[v] for v in c["y"]], test=dict(guest=t["guest"][:5], hosts=[r[:5] for r in t["hosts"]]),
               depth=s["depth"], batch=s["batch"], rounds=s["rounds"], bin_num=s["bins"], **({"loss": c["loss"]} if "loss" in c else {}))
    return dict(out, **{k: v for k, v in case.items() if k != "scale"})


def inspect(case):
    log = []
    case = scaled(case)
    b = boost(case, log)
    with priv.opaque_keys():
        b.run()
        labels = set(case["y"])
        nodes = max(len(t.tree_) for t in b.models["g"].trees_)
        nf = max([len(case["guest"][0])] + [len(h[0]) for h in case["hosts"]])
        dims = max(1, len(labels))
        cand = max(sum(len(set(r[f] for r in h)) + 1 for f in range(len(h[0]))) for h in case["hosts"])
        top = max(nodes + 2, nf, b.nhosts, 3, cand, dims if not case.get("loss") and dims > 2 else 0)
        n_ct = 0
        shapes = []
        for who, blob in log:
            msg = pickle.loads(blob)
            shapes.append((who, priv.shape(msg)))
            if who != "guest":
                continue
            for path, x in priv.leaves(msg):
                if isinstance(x, priv.Opaque):
                    n_ct += 1
                elif isinstance(x, bool) or x is None or isinstance(x, type):
                    continue
                elif isinstance(x, (float, complex)):
                    expect(x == 0 or x in b.all_ids, "the guest sends the number %r in clear (at %s)", x, path or "top")
                elif isinstance(x, int):
                    expect(x in b.all_ids or -1 <= x <= top, "the guest sends the number %r in clear (at %s)", x, path or "top")
                elif isinstance(x, (str, bytes)):
                    if x in b.all_ids:
                        continue
                    x = x if isinstance(x, str) else x.decode("latin1")
                    expect(x not in labels and x not in header_names(case), "the guest sends the text %r in clear (at %s)", x, path or "top")
                    for w in labels:
                        expect(not (isinstance(w, str) and len(w) > 3 and w in x), "the guest sends a text containing a label (%r at %s)", x, path or "top")
        rounds = len(b.models["g"].trees_)
        expect(n_ct >= 2 * len(case["y"]) * rounds, "only %d ciphertexts were sent for %d trees of %d rows", n_ct, rounds, len(case["y"]))
    return b, shapes


def relational(case):
    """Host views before any answer do not depend on labels; no view depends on guest values' magnitudes."""
    views = []
    for y in case["ys"]:
        b, shapes = inspect(dict(case["base"], y=y))
        first = next((i for i, (w, _) in enumerate(shapes) if w != "guest"), len(shapes))
        views.append(shapes[:first])
    for y, v in zip(case["ys"][1:], views[1:]):
        expect(v == views[0], "what the hosts see before their first answer differs between labels %r and %r", case["ys"][0], y)
    return b, shapes


T = {
    "scale": lambda v: v * 1024.0, "shrink": lambda v: v / 4096.0, "cube": lambda v: v ** 3,
    "stretch": lambda v: v * 3.0 if v > 0 else v * 7.0, "square": lambda v: v * abs(v),
}


def remap(rows, f):
    return [[f(v) for v in r] for r in rows]


def monotone(case):
    base = scaled(case["base"])
    b, ref = inspect(base)
    f = T[case["t"]]
    alt = dict(base, guest=remap(base["guest"], f))
    if base.get("test"):
        alt["test"] = dict(base["test"], guest=remap(base["test"]["guest"], f))
    b2, got = inspect(alt)
    a1 = [m for w, m in ref if w == "guest"]
    a2 = [m for w, m in got if w == "guest"]
    expect(a1 == a2, "the hosts can tell the guest's values from their %s transformation (message %d differs)", case["t"],
           next((i for i, (x, z) in enumerate(zip(a1, a2)) if x != z), min(len(a1), len(a2))))
    return b2, got


def ciphers(case):
    """Real 256-bit Paillier: key material, obfuscation, pairwise relations."""
    log = []
    case = scaled(case)
    b = boost(case, log)
    with fed.small_keys(256) as (pub, prv):
        b.run()
    n, n2 = pub.n, pub.nsquare
    secrets = {prv.p, prv.q, prv.hp, prv.hq, prv.q_inverse, prv.p * prv.p, prv.q * prv.q}
    cts = []
    for k, (who, blob) in enumerate(log):
        if who != "guest":
            continue
        for path, x in priv.leaves(pickle.loads(blob)):
            if type(x).__name__ == "PaillierEncryptedNumber":
                expect(type(x.public_key).__name__ == "PaillierPublicKey" and x.public_key.n == n, "a ciphertext under another key is sent")
                for _, v in priv.leaves(vars(x.public_key)):
                    expect(not isinstance(v, int) or v not in secrets, "private key material travels inside the public key")
                cts.append((k, path, x.ciphertext(False)))
            elif isinstance(x, type):
                expect("PrivateKey" not in x.__name__ and x.__name__ not in ("PaillierEncrypt", "PaillierKeypair"), "a %s is sent to the hosts", x.__name__)
            elif isinstance(x, int) and not isinstance(x, bool):
                expect(x not in secrets, "private key material is sent to the hosts")
    expect(len(cts) >= 2 * len(case["y"]), "only %d ciphertexts were sent", len(cts))
    seen = {}
    for k, path, c in cts:
        expect((c - 1) % n != 0, "a ciphertext in message %d is not randomised", k)
        # c = (1 + n m) r^n; two ciphertexts with the same r^n mod n^2 agree modulo n up to nothing else
        r = c % n
        if r in seen and case.get("mode", "strict") != "fast" and seen[r][1] != c:
            expect(False, "ciphertexts in messages %d and %d share their randomness, their difference is readable", seen[r][0], k)
        if r in seen and seen[r][1] == c and case.get("mode", "strict") != "fast":
            expect(len(case["hosts"]) > 1, "the same ciphertext occurs twice (messages %d and %d)", seen[r][0], k)
        seen[r] = (k, c)
    return b, [len(cts)]


def fresh(case):
    """Trainings with every seedable generator in the same state: keys and randomness must differ all the same."""
    seen, out = [], []
    with fed.small_keys(case["same_key"]) if case.get("same_key") else fed.real_keys():
        for k in range(case.get("times", 3)):
            random.seed(case["seed"])
            np.random.seed(case["seed"])
            log = []
            b = boost(case, log)
            b.run()
            cts = [x for who, blob in log if who == "guest" for _, x in priv.leaves(pickle.loads(blob)) if type(x).__name__ == "PaillierEncryptedNumber"]
            expect(len(cts) >= 2 * len(case["y"]), "only %d ciphertexts were sent", len(cts))
            mods = {x.public_key.n for x in cts}
            expect(len(mods) == 1, "one training uses %d keys", len(mods))
            n = mods.pop()
            expect(n.bit_length() == (case.get("same_key") or case["key_length"]), "keys of %d bits are configured, the ciphertexts sent are under one of %d bits", case["key_length"], n.bit_length())
            res = {x.ciphertext(False) % n for x in cts}
            for m, other in seen:
                if case.get("same_key"):
                    expect(not res & other, "after seeding the program's generators alike, two trainings encrypt with the same randomness")
                else:
                    expect(m != n and math.gcd(m, n) == 1, "after seeding the program's generators alike, two trainings use the same secret key")
            seen.append((n, res))
            out.append(len(cts))
    return b, out


G12 = [[i + 0.25, (7 * i % 12) - 5.75] for i in range(12)]
H12 = [[(5 * i % 12 // 8) * 3.0 + 0.375] for i in range(12)]
SMALL = dict(guest=[[0.5], [1.25], [-2.5], [1.25]], hosts=[[[102.5], [101.25], [0.0], [105.5]]],
             test=dict(guest=[[0.75], [-3.5]], hosts=[[[101.75], [110.5]]]))
TWO = dict(guest=[[0.5, 0.0], [1.25, 4.5], [-2.5, 3.5], [1.25, 0.0], [0.5, 7.5]],
           hosts=[[[102.5], [101.25], [0.0], [105.5], [101.25]], [[3.5, 1.5], [3.5, 2.5], [4.5, 0.0], [-1.5, 0.0], [4.5, 9.5]]],
           test=dict(guest=[[0.75, 4.0], [-3.5, 1.0]], hosts=[[[101.75], [110.5]], [[4.0, 0.0], [3.75, 2.0]]]))
CLS = ["labelA", "labelB", "labelC"]


def tasks(tier):
    out = []

    def add(of=1, **kw):
        out.extend(dict(kw, part=i, of=of) for i in range(of))
    add(b="small", of=2)
    add(b="two", of=2)
    add(b="reg", of=3)
    add(b="bins", of=3 if tier == "quick" else 8, all=tier != "quick")
    add(b="early", of=2)
    add(b="mono", of=4)
    add(b="scale", of=8, all=tier != "quick")
    add(b="fresh", of=8, all=tier != "quick")
    add(b="cipher", of=4 if tier == "quick" else 8, all=tier != "quick")
    return out


def cases(block):
    b = block["b"]
    if b == "small":
        for y in itertools.product(CLS, repeat=4):
            for conf in (dict(), dict(depth=2, batch=1), dict(rounds=1, mode="fast")):
                yield dict(kind="inspect", y=list(y), **dict(SMALL, **conf))
        for y in itertools.product((77123, 77456), repeat=4):
            yield dict(kind="inspect", y=list(y), **SMALL)
    elif b == "two":
        for y in itertools.product(CLS[:2], repeat=5):
            for conf in (dict(), dict(depth=4, batch=1, rounds=1), dict(mode="fast"), dict(mode="balance")):
                yield dict(kind="inspect", y=list(y), **dict(TWO, **conf))
        for y in set(itertools.permutations(CLS + CLS[:2])):
            yield dict(kind="inspect", y=list(y), rounds=1, **TWO)
    elif b == "reg":
        for loss in sorted(c05.LOSSES):
            for y in itertools.product((3.25, -11.5, 77123.0), repeat=4):
                yield dict(kind="inspect", loss=loss, y=list(y), **SMALL)
    elif b == "bins":
        # 12 distinct values: bin numbers beyond every node and feature number
        for k, y in enumerate(itertools.product(CLS[:2], repeat=11)):
            if len(set(y)) == 2 and (block["all"] or sum(a != c for a, c in zip(y, y[1:])) <= 2):
                yield dict(kind="inspect", guest=G12, hosts=[H12], y=[y[0]] + list(y), depth=2, rounds=1, bin_num=12)
    elif b == "early":
        for base in (SMALL, TWO):
            n = len(base["guest"])
            for k in (2, 3):
                ys = [list(y) for y in itertools.product(CLS[:k], repeat=n) if len(set(y)) == k]
                for c in core.chunks(ys, 12):
                    yield dict(kind="relational", base=base, ys=[ys[0]] + c)
            ys = [list(y) for y in itertools.product((3.25, -11.5, 9.75), repeat=n)]
            for c in core.chunks(ys, 30):
                yield dict(kind="relational", base=dict(base, loss="lse"), ys=[ys[0]] + c)
    elif b == "mono":
        for t in sorted(T):
            for y in itertools.product(CLS[:2], repeat=4):
                if len(set(y)) == 2:
                    yield dict(kind="monotone", t=t, base=dict(SMALL, y=list(y)))
            for y in itertools.product(CLS[:2], repeat=5):
                if len(set(y)) == 2:
                    yield dict(kind="monotone", t=t, base=dict(TWO, y=list(y)))
    elif b == "scale":
        modes, ts = sorted(MODES), sorted(T)
        for k, sz in enumerate(scale.sizes(block["all"])):
            if sz.get("n", 0) > 60 and len(sz) > 1:
                continue
            yield dict(kind="inspect", scale=sz, mode=modes[k % 3])
            if len(sz) < 2 or block["all"]:
                yield dict(kind="monotone", t=ts[k % len(ts)], base=dict(scale=sz))
    elif b == "fresh":
        for seed in (0, 3):
            for mode in sorted(MODES):
                yield dict(kind="fresh", y=[CLS[0], CLS[1], CLS[1], CLS[0]], mode=mode, seed=seed, same_key=256, key_length=256, rounds=1, **SMALL)
                for bits in (128, 192, 256, 320, 512, 1024, 1100):
                    if bits <= 256 or mode == "strict" and seed == 0:
                        yield dict(kind="fresh", y=[CLS[0], CLS[1], CLS[1], CLS[0]], mode=mode, seed=seed, key_length=bits, rounds=1, **SMALL)
        # longer keys than the default and than what is common
        for bits in (2050, 3072) + ((4100,) if block["all"] else ()):
            yield dict(kind="fresh", y=[CLS[0], CLS[1], CLS[1]], mode="strict", seed=3, key_length=bits, rounds=1, times=1, guest=[[0.5], [1.25], [-2.5]], hosts=[[[102.5], [101.25], [101.25]]], depth=2)
    elif b == "cipher":
        for y in itertools.product(CLS[:2], repeat=4):
            for mode in sorted(MODES):
                yield dict(kind="ciphers", y=list(y), mode=mode, **SMALL)
        for y in itertools.product((3.25, -11.5), repeat=4):
            yield dict(kind="ciphers", y=list(y), loss="lse", **SMALL)
        # many ciphertexts under one key: randomness must not come back later
        for mode in sorted(MODES):
            for loss in (None, "lse"):
                for n, rounds in ((16, 3), (40, 2), (6, 12)) + (((150, 3),) if block["all"] else ()):
                    yield dict(kind="ciphers", mode=mode, scale=dict(n=n, rounds=rounds, hosts=1, **({"loss": loss} if loss else {})))
        if block["all"]:
            for y in itertools.product(CLS[:2], repeat=5):
                yield dict(kind="ciphers", y=list(y), **TWO)


RUN = dict(inspect=inspect, relational=relational, monotone=monotone, ciphers=ciphers, fresh=fresh)


def run_case(case):
    return RUN[case["kind"]](case)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block["of"] != block["part"]:
            continue
        r = ctx.case(case, lambda: run_case(case), steps=0)
        if r is not None:
            b, shapes = r
            ctx.step(b.sim.steps)
            ctx.state((block["b"], core.jsonable(case)))
            ctx.outcome(shapes)

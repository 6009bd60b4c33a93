"""C16 - parameters: configuration reaches exactly the named fields, and nothing outside the documented domain passes."""
import copy
import itertools
import pickle

from mc import compat, core  # noqa: F401
from mc.core import expect
import ml.tree.boosting_tree  # noqa: F401
from ml.param.base_param import BaseParam
from ml.param.boosting_tree_param import BoostingTreeParam, DecisionTreeParam, ObjectiveParam
from ml.param.cross_validation_param import CrossValidationParam
from ml.param.encrypt_param import EncryptParam
from ml.param.encrypted_mode_calculation_param import EncryptedModeCalculatorParam
from ml.param.evaluation_param import EvaluateParam
from ml.param.feature_binning_param import FeatureBinningParam, TransformParam
from ml.param.predict_param import PredictParam
from ml.utils.param_extract import ParamExtract
from ml.utils import consts

META = dict(
    title="Settings reach exactly the named fields; undocumented values are refused",
    statement="Reading a configuration sets exactly the fields it names, at every nesting level, to exactly the given values, ignores names the parameter object does not have and sections of other classes, leaves every other field, every other parameter object and the defaults as they were (fields nobody sets have their documented defaults, constructor arguments set the field of their name), and refuses anything that is not a dictionary or is nested too deeply. Checking a parameter object accepts every combination of documented values and refuses, with ValueError, every object with a field outside its documented type or range, also when that field belongs to the nested tree, objective, encryption, mode or prediction settings. It changes nothing but the spelling of names accepted in any case.",
    quantifier=dict(over=["configurations", "inputs"], text="for every field of every parameter class all values of a pool covering each type, sign, limit and spelling; all pairs of fields over a reduced pool; all configurations naming up to three fields (thorough: four) at any level"),
    why_tests_cant="No test touches the parameters; a bound checked with < for <=, bool passing for int, or a nested object left unchecked is one combination of class, field and value.",
    anchors=dict(files=["ml/param/base_param.py", "ml/param/boosting_tree_param.py", "ml/param/encrypt_param.py", "ml/param/encrypted_mode_calculation_param.py", "ml/param/predict_param.py", "ml/param/cross_validation_param.py", "ml/param/evaluation_param.py", "ml/param/feature_binning_param.py", "ml/utils/param_extract.py"],
                 state=[dict(name="fields", meaning="the settings", where="the parameter objects")],
                 mechanism=[dict(name="check", where="*.check"), dict(name="helpers", where="BaseParam.check_*"), dict(name="extraction", where="ParamExtract.parse_param_from_config")],
                 observe_at=["return or ValueError of check", "fields afterwards"], hook_needed=None),
    level="model_checking",
    technique="exhaustive enumeration of parameter objects and configurations over value pools against a table of the documented domains",
    level_note="Exhaustive over the pools; values the documentation does not settle (for example a float number of trees) are left out.",
    bounds=dict(quick=dict(pool=26, fields_set=2, config_fields=3), thorough=dict(pool=26, fields_set=3, config_fields=4)),
    rule="a case is a parameter class with values for up to three fields, or a configuration; states are distinct cases, outcomes accepted or refused with the resulting fields",
    assumptions=["values are plain JSON-like values"],
)

NUM = (int, float)
# -- the documented domains: accept(value, object) -> True / False / None (documentation does not say)


def is_int(v):
    return type(v) is int


def is_num(v):
    return type(v) in NUM


def name_in(*names):
    return lambda v, o: (v in names) if type(v) is str and v == v.lower() else (False if type(v) is not str else (True if v.lower() in names else False))


def exact_in(*vals):
    def f(v, o):
        if type(v) is str or v is None:
            return v in vals
        return False
    return f


def pos_int(v, o):
    return is_int(v) and v >= 1


def num(v, o):
    return is_num(v)


def boolean(v, o):
    return type(v) is bool


def params_list(v, o):
    if type(v) is not list or not v:
        return False
    return is_num(v[0])


def rate(v, o):
    return is_num(v) and 0 <= v <= 1


def unit(v, o):
    # its own documentation ends before 1, the message of its check with 1
    return None if type(v) is float and v == 1 else type(v) is float and 0 <= v <= 1


def open_unit(v, o):
    return type(v) is float and 0 < v < 1


def int_ge2(v, o):
    return is_int(v) and v >= 2


def any_int(v, o):
    return is_int(v)


def enc_method(v, o):
    return v is None or type(v) is str


def re_rate(v, o):
    return is_num(v) if type(o.mode) is str and o.mode.lower() == "balance" else True


def split_nodes(v, o):
    return (is_int(v) and v >= 1) if not (is_int(v) and v > consts.MAX_SPLIT_NODES) else None


def cols(v, o):
    return type(v) in (list, int)


def tcols(v, o):
    return True if v is None or v == -1 and is_int(v) or type(v) is list else (None if v == -1 else False)


TREE = dict(criterion_method=name_in("xgboost"), criterion_params=params_list, max_depth=pos_int, min_sample_split=any_int,
            min_impurity_split=num, min_leaf_node=any_int, max_split_nodes=split_nodes, n_iter_no_change=boolean, tol=num,
            feature_importance_type=name_in("split", "gain"))
ENC = dict(method=enc_method, key_length=pos_int)
MODE = dict(mode=name_in("strict", "fast", "balance"), re_encrypted_rate=re_rate)
PRED = dict(with_proba=boolean, threshold=num)
CV = dict(n_splits=pos_int, mode=exact_in("hetero", "homo"), role=exact_in("host", "guest", "arbiter"), shuffle=boolean, random_seed=pos_int)
EVAL = dict(eval_type=name_in("binary", "multi", "regression"), pos_label=lambda v, o: type(v) in (str, float, int))
BIN = dict(method=name_in("quantile"), compress_thres=pos_int, head_size=pos_int, error=unit, bin_num=pos_int, cols=cols, adjustment_factor=open_unit)
TRANS = dict(transform_cols=tcols, transform_type=exact_in("bin_num", None))
BOOST = dict(task_type=exact_in("classification", "regression"), learning_rate=num, num_trees=lambda v, o: None if type(v) is float else pos_int(v, o),
             subsample_feature_rate=rate, n_iter_no_change=boolean, tol=num, bin_num=int_ge2)
CLASSES = {"DecisionTreeParam": (DecisionTreeParam, TREE), "EncryptParam": (EncryptParam, ENC), "EncryptedModeCalculatorParam": (EncryptedModeCalculatorParam, MODE),
           "PredictParam": (PredictParam, PRED), "CrossValidationParam": (CrossValidationParam, CV), "EvaluateParam": (EvaluateParam, EVAL),
           "FeatureBinningParam": (FeatureBinningParam, BIN), "TransformParam": (TransformParam, TRANS), "BoostingTreeParam": (BoostingTreeParam, BOOST)}
NESTED = {"tree_param": TREE, "encrypt_param": ENC, "encrypted_mode_calculator_param": MODE, "predict_param": PRED}
LOWERED = {("DecisionTreeParam", "criterion_method"), ("DecisionTreeParam", "feature_importance_type"), ("EncryptedModeCalculatorParam", "mode"),
           ("EvaluateParam", "eval_type"), ("FeatureBinningParam", "method"),
           ("tree_param", "criterion_method"), ("tree_param", "feature_importance_type"), ("encrypted_mode_calculator_param", "mode")}
POOL = [-1, 0, 1, 2, 3, 1024, 65536, 65537, -0.5, 0.0, 0.5, 1.0, 1.5, 1e-9, True, False, None, "", "x", [], [0.5], [2, 3], ["x"], [None], {"a": 1}, [True],
        "xgboost", "XGBoost", "split", "GAIN", "strict", "Fast", "BALANCE", "quantile", "Quantile", "bin_num", "paillier", "PAILLIER", "Paillier",
        "hetero", "homo", "guest", "host", "arbiter", "classification", "regression", "binary", "Multi", 1 + 1e-9, -1e-9, 1e300,
        " gain", "gain ", "split\n", " xgboost", "strict ", "\tfast", " balance", "quantile ", " binary", "multi ", "regression ", " classification", "bin_num ", " hetero", "guest ",
        "gai", "gainn", "0", "1", "True", "none"]
SMALL = [-1, 0, 1, 2, 0.0, 0.5, 1.0, True, None, "x", [], [0.5], [True]]
GOOD = {"criterion_method": "XGBoost", "feature_importance_type": "gain", "mode": "balance", "method": "Quantile", "task_type": "regression"}


# the names a field documents, in every spelling
NAMES = {"criterion_method": ["xgboost"], "feature_importance_type": ["split", "gain"], "mode": ["strict", "fast", "balance", "homo", "hetero"], "method": ["quantile", "paillier"],
         "eval_type": ["binary", "multi", "regression"], "task_type": ["classification", "regression"], "role": ["guest", "host", "arbiter"], "transform_type": ["bin_num"]}


def spelled(f):
    return [g(n) for n in NAMES.get(f, []) for g in (str.lower, str.title, str.upper)]


def accepts(table, obj, ignore=()):
    """all fields documented -> True; one refused -> False; one unsettled -> None"""
    got = [f(getattr(obj, k), obj) for k, f in table.items() if k not in ignore]
    return False if any(g is False for g in got) else None if any(g is None for g in got) else True


def objective_ok(p, task):
    if p.objective is None:
        return True
    if type(p.objective) is not str:
        return False
    o = p.objective.lower()
    if task == "classification":
        return p.objective == "cross_entropy" if o != "cross_entropy" or p.objective == "cross_entropy" else None
    names = ["lse", "lae", "huber", "fair", "log_cosh", "tweedie"]
    if task != "regression":
        return o in names + ["cross_entropy"]
    if o not in names:
        return False
    if o in ("huber", "fair", "tweedie"):
        if type(p.params) is not list or not p.params or not is_num(p.params[0]):
            return False
        return 1 <= p.params[0] < 2 if o == "tweedie" else p.params[0] > 0
    return True


def run_check(obj, args=()):
    try:
        obj.check(*args)
    except ValueError:
        return False
    return True


def flat(obj):
    out = {}
    for k, v in vars(obj).items():
        if hasattr(v, "__dict__"):
            for k2, v2 in flat(v).items():
                out[k + "." + k2] = v2
        else:
            out[k] = v
    return out


def same(a, b):
    return type(a) is type(b) and a == b


def run_fields(case):
    """set fields of one class (or of an object nested in BoostingTreeParam), then check it"""
    cls, table = CLASSES[case["cls"]]
    blob = pickle.dumps(cls())
    obj = cls()
    where = case.get("nest")
    target = getattr(obj, where) if where else obj
    table2 = NESTED[where] if where else table
    for k, v in case["set"]:
        expect(hasattr(target, k), "%s has no field %s", type(target).__name__, k)
        setattr(target, k, copy.deepcopy(v))
    want = accepts(table2, target)
    if cls is BoostingTreeParam:
        o = objective_ok(obj.objective_param, obj.task_type)
        want = False if want is False or o is False else None if want is None or o is None else True
    before = flat(obj)
    got = run_check(obj)
    if want is not None:
        expect(got == want, "%s with %r is %s", case["cls"], case["set"], "accepted" if got else "refused")
    after = flat(obj)
    lowered = {k for k, v in case["set"] if ((where or case["cls"]), k) in LOWERED}
    for k in before:
        base = k.rsplit(".", 1)[-1]
        if (k == base if not where else k == where + "." + base) and base in lowered and type(before[k]) is str and before[k].lower() != before[k]:
            if got:
                expect(after[k] == before[k].lower(), "%s %r became %r", k, before[k], after[k])
        elif base == "method" and type(before[k]) is str and before[k].lower() == "paillier" and k != "method" + "x" and case["cls"] != "FeatureBinningParam":
            if got:
                expect(after[k] == consts.PAILLIER, "the encryption method %r became %r", before[k], after[k])
        else:
            expect(k in after and same(before[k], after[k]), "checking changed %s from %r to %r", k, before[k], after.get(k))
    expect(pickle.dumps(cls()) == blob, "the defaults of %s changed", case["cls"])
    if got:
        expect(run_check(obj), "a checked object is refused when checked again")
    return got


def run_cross(case):
    """fields of several nested objects set together"""
    obj = BoostingTreeParam()
    blob = pickle.dumps(BoostingTreeParam())
    for path, v in case["cross"]:
        t = obj
        *way, last = path.split(".")
        for w in way:
            t = getattr(t, w)
        expect(hasattr(t, last), "%s has no field %s", type(t).__name__, last)
        setattr(t, last, copy.deepcopy(v))
    got = [accepts(BOOST, obj), objective_ok(obj.objective_param, obj.task_type)] + [accepts(t, getattr(obj, n)) for n, t in NESTED.items()]
    want = False if False in got else None if None in got else True
    ok = run_check(obj)
    if want is not None:
        expect(ok == want, "settings with %r are %s", case["cross"], "accepted" if ok else "refused")
    expect(pickle.dumps(BoostingTreeParam()) == blob, "the defaults changed")
    return ok


def run_objective(case):
    p = ObjectiveParam(case["objective"], copy.deepcopy(case["params"]))
    want = objective_ok(p, case["task"])
    if case.get("nested"):
        b = BoostingTreeParam(objective_param=p, task_type=case["task"])
        got = run_check(b)
        after = b.objective_param
        expect(p.objective == case["objective"], "checking changed the object the caller passed in")
    else:
        args = () if case["task"] == "none" else (case["task"],)
        got = run_check(p, args)
        after = p
    if want is not None:
        expect(got == want, "objective %r %r for %s is %s", case["objective"], case["params"], case["task"], "accepted" if got else "refused")
    if got and type(case["objective"]) is str and case["task"] != "classification":
        expect(after.objective == case["objective"].lower(), "the objective %r became %r", case["objective"], after.objective)
    expect(after.params == case["params"], "the objective's params became %r", after.params)
    return got


# ---------------------------------------------------------------------- configurations

LEAVES = ["learning_rate", "num_trees", "task_type", "bin_num", "tol", "tree_param.max_depth", "tree_param.criterion_params", "tree_param.tol",
          "objective_param.objective", "objective_param.params", "encrypt_param.method", "encrypted_mode_calculator_param.mode", "predict_param.threshold",
          "cv_param.n_splits", "cv_param.evaluate_param.pos_label", "cv_param.evaluate_param.eval_type", "unknown", "tree_param.unknown", "unknown.x", "cv_param.evaluate_param.unknown"]
VALUES = [7, None, "text", [1, 2], {"k": [0]}, False]


def run_config(case):
    conf = {}
    for path, v in case["conf"]:
        d = conf
        parts = path.split(".")
        for p in parts[:-1]:
            d = d.setdefault(p, {})
        d[parts[-1]] = copy.deepcopy(v)
    for k in case.get("empty", []):
        conf.setdefault(k, {})
    doc = {"BoostingTreeParam": conf, "DecisionTreeParam": {"max_depth": 99}, "ObjectiveParam": {"objective": "zzz"}}
    keep = copy.deepcopy(doc)
    other = BoostingTreeParam()
    param = BoostingTreeParam()
    blob = pickle.dumps(param)
    expect(pickle.dumps(other) == blob, "two default objects differ")
    if case.get("preset"):
        param.tree_param.max_depth = 17
        param.cv_param.evaluate_param.pos_label = "preset"
    want = flat(param)
    got = ParamExtract().parse_param_from_config(param, doc)
    expect(type(got) is BoostingTreeParam, "the result is a %s", type(got).__name__)
    for path, v in case["conf"]:
        if path in want:
            want[path] = v
    have = flat(got)
    expect(sorted(have) == sorted(want), "fields %r appeared or disappeared", sorted(set(have) ^ set(want)))
    for k in want:
        expect(same(have[k], want[k]), "%s is %r instead of %r", k, have[k], want[k])
    expect(doc == keep, "the configuration was changed")
    expect(pickle.dumps(other) == blob and pickle.dumps(BoostingTreeParam()) == blob, "another object or the defaults changed")
    again = ParamExtract().parse_param_from_config(BoostingTreeParam(), copy.deepcopy(keep))
    if not case.get("preset"):
        expect(flat(again) == have, "reading the same configuration again gives something else")
    return have


class Deep:
    pass


def run_odd(case):
    k = case["odd"]
    if k == "type":
        try:
            ParamExtract().parse_param_from_config(BoostingTreeParam(), case["value"])
        except Exception:
            return "refused"
        expect(False, "%r is taken for a configuration", case["value"])
    if k == "absent":
        p = BoostingTreeParam()
        blob = pickle.dumps(p)
        q = ParamExtract().parse_param_from_config(p, case["value"])
        expect(pickle.dumps(q) == blob, "a configuration without a section for the class changed the object")
        return "same"
    if k == "depth":
        obj = cur = Deep()
        conf = c = {}
        for _ in range(case["n"]):
            cur.sub = Deep()
            cur.leaf = 0
            c["sub"], c["leaf"] = {}, 5
            cur, c = cur.sub, c["sub"]
        cur.leaf = 0
        c["leaf"] = 5
        try:
            r = ParamExtract().parse_param_from_config(obj, {"Deep": conf})
        except ValueError:
            expect(case["n"] > consts.PARAM_MAXDEPTH, "%d levels are refused", case["n"])
            return "refused"
        expect(case["n"] <= consts.PARAM_MAXDEPTH, "%d levels are accepted", case["n"])
        for _ in range(case["n"] + 1):
            expect(r.leaf == 5, "a nested field was not set")
            r = getattr(r, "sub", None)
        return "set"
    if k == "alias":
        a, b = BoostingTreeParam(), BoostingTreeParam()
        t = DecisionTreeParam()
        c = BoostingTreeParam(tree_param=t)
        a.tree_param.criterion_params.append(5)
        a.tree_param.max_depth = 50
        a.objective_param.params = [3]
        a.cv_param.evaluate_param.pos_label = "z"
        a.encrypt_param.key_length = 3
        a.encrypted_mode_calculator_param.mode = "fast"
        a.predict_param.threshold = 9
        c.tree_param.max_depth = 51
        f, g = FeatureBinningParam(), FeatureBinningParam()
        f.transform_param.transform_cols = [1]
        expect(flat(b) == flat(BoostingTreeParam()) and b.tree_param.max_depth != 50 and b.tree_param.criterion_params == [0.1] and b.predict_param.threshold == 0.5
               and b.cv_param.evaluate_param.pos_label == 1 and b.encrypted_mode_calculator_param.mode == "strict" and b.encrypt_param.key_length == 1024 and b.objective_param.params is None,
               "two parameter objects share fields: %r", flat(b))
        expect(t.max_depth != 51, "the object passed in is shared")
        expect(g.transform_param.transform_cols == -1, "two binning parameters share fields")
        return "apart"


# ---------------------------------------------------------------------- defaults and constructors

# what the classes' documentation and README give (names accepted in any case are compared so)
DEFAULTS = {
    "DecisionTreeParam": dict(criterion_method="xgboost", criterion_params=[0.1], max_depth=5, min_sample_split=2, min_impurity_split=1e-3, min_leaf_node=1,
                              max_split_nodes=65536, n_iter_no_change=True, feature_importance_type="split", tol=0.001),
    "BoostingTreeParam": dict(task_type="classification", learning_rate=0.3, num_trees=5, subsample_feature_rate=0.8, n_iter_no_change=True, bin_num=32),
    "EncryptParam": dict(method="paillier", key_length=1024),
    "EncryptedModeCalculatorParam": dict(mode="strict", re_encrypted_rate=1),
    "FeatureBinningParam": dict(method="quantile", compress_thres=10000, head_size=10000, error=0.001, bin_num=10, cols=-1, adjustment_factor=0.5, local_only=False),
    "TransformParam": dict(transform_cols=-1),
    "CrossValidationParam": dict(n_splits=5, mode="hetero", role="guest", shuffle=True, random_seed=1),
    "PredictParam": dict(with_proba=True, threshold=0.5),
    "EvaluateParam": dict(eval_type="binary", pos_label=1),
}
PARTS = {"BoostingTreeParam": dict(tree_param="DecisionTreeParam", encrypt_param="EncryptParam", encrypted_mode_calculator_param="EncryptedModeCalculatorParam",
                                   predict_param="PredictParam", cv_param="CrossValidationParam"),
         "CrossValidationParam": dict(evaluate_param="EvaluateParam"), "FeatureBinningParam": dict(transform_param="TransformParam")}
KEYWORD = {"min_impurity_split": "min_imputiry_split"}          # as the constructor spells it


def defaults(cls, obj, skip=()):
    for f, d in DEFAULTS[cls].items():
        v = getattr(obj, f)
        if f not in skip:
            expect(v == d and (type(v) is bool) == (type(d) is bool) or type(v) is str and type(d) is str and v.lower() == d, "%s.%s is %r by default instead of %r", cls, f, v, d)
    for f, c in PARTS.get(cls, {}).items():
        if f not in skip:
            defaults(c, getattr(obj, f))


def run_defaults(case):
    cls = case["cls"]
    make, f, v = CLASSES[cls][0], case.get("field"), copy.deepcopy(case.get("value"))
    if f is None:
        obj = make()
        defaults(cls, obj)
        expect(run_check(obj), "a default %s is refused", cls)
        defaults(cls, obj)
        return "defaults"
    try:
        obj = make(**{f: v})
    except TypeError:
        if f not in KEYWORD:
            raise
        obj = make(**{KEYWORD[f]: v})
    expect(same(getattr(obj, f), v), "%s(%s=%r) has %r", cls, f, v, getattr(obj, f))
    defaults(cls, obj, skip=(f,))
    return "set"


def run_part(case):
    """an object given to the constructor arrives with its own settings"""
    cls, f = case["cls"], case["part"]
    inner = CLASSES[PARTS[cls][f]][0]()
    k, v = case["field"], copy.deepcopy(case["value"])
    setattr(inner, k, v)
    obj = CLASSES[cls][0](**{f: inner})
    expect(same(getattr(getattr(obj, f), k), v), "%s(%s=...) has %s %r instead of %r", cls, f, k, getattr(getattr(obj, f), k), v)
    defaults(cls, obj, skip=(f,))
    return "part"


# ---------------------------------------------------------------------- helpers of BaseParam

HELP = {
    "check_string": lambda v: type(v) is str,
    "check_positive_integer": lambda v: is_int(v) and v > 0,
    "check_positive_number": lambda v: is_num(v) and v > 0,
    "check_decimal_float": lambda v: type(v) is float and 0 <= v <= 1,
    "check_boolean": lambda v: type(v) is bool,
    "check_open_unit_interval": lambda v: type(v) is float and 0 < v < 1,
}


def run_helper(case):
    n, v = case["helper"], case["value"]
    f = getattr(BaseParam, n)
    try:
        if n == "check_valid_value":
            f(v, "d", case["valid"])
            got, want = True, None
        elif n == "check_defined_type":
            f(v, "d", case["valid"])
            got = True
        elif n == "check_and_change_lower":
            r = f(v, case["valid"], "d")
            got = True
            expect(r == v.lower(), "%r became %r", v, r)
        else:
            f(v, "d")
            got = True
    except ValueError:
        got = False
    if n == "check_valid_value":
        want = any(v == x for x in case["valid"])
    elif n == "check_defined_type":
        want = type(v).__name__ in case["valid"]
    elif n == "check_and_change_lower":
        want = type(v) is str and v.lower() in case["valid"]
    else:
        want = HELP[n](v)
    expect(got == want, "%s %s %r", n, "accepts" if got else "refuses", v)
    return got


# ---------------------------------------------------------------------- enumeration

def tasks(tier):
    big = tier != "quick"
    out = [dict(b="one"), dict(b="nested", of=1), dict(b="objective"), dict(b="odd"), dict(b="helper"), dict(b="defaults")]
    out += [dict(b="pairs", part=i, of=6) for i in range(6)]
    out += [dict(b="cross", part=i, of=4) for i in range(4)]
    out += [dict(b="config", part=i, of=6) for i in range(6)]
    if big:
        out += [dict(b="triples", part=i, of=24) for i in range(24)]
        out += [dict(b="config4", part=i, of=24) for i in range(24)]
    return out


def cases(block):
    b = block["b"]
    if b == "one":
        for c, (_, t) in CLASSES.items():
            yield dict(k="f", cls=c, set=[])
            for f in t:
                for v in POOL:
                    yield dict(k="f", cls=c, set=[[f, v]])
    elif b == "nested":
        for n, t in NESTED.items():
            for f in t:
                for v in POOL:
                    yield dict(k="f", cls="BoostingTreeParam", nest=n, set=[[f, v]])
    elif b == "pairs":
        for c, (_, t) in CLASSES.items():
            for f, g in itertools.combinations(t, 2):
                for v, w in itertools.product(SMALL + [GOOD.get(f, 7)] + spelled(f), SMALL + [GOOD.get(g, 7)] + spelled(g)):
                    yield dict(k="f", cls=c, set=[[f, v], [g, w]])
        for nest, t in NESTED.items():
            for f, g in itertools.combinations(t, 2):
                for v, w in itertools.product(SMALL + spelled(f), SMALL + spelled(g)):
                    yield dict(k="f", cls="BoostingTreeParam", nest=nest, set=[[f, v], [g, w]])
    elif b == "cross":
        fields = [(None, f, BOOST) for f in BOOST] + [(n, f, t) for n, t in NESTED.items() for f in t]

        def pool(n, f, t):
            out = {True: [], False: []}
            for v in [GOOD.get(f, 7)] + spelled(f) + POOL:
                o = BoostingTreeParam()
                x = getattr(o, n) if n else o
                setattr(x, f, copy.deepcopy(v))
                a = t[f](v, x)
                if a is not None and len(out[a]) < 3:
                    out[a].append(v)
            return out
        pools = {(n, f): pool(n, f, t) for n, f, t in fields}
        for (n, f), (m, g) in itertools.combinations(pools, 2):
            if n == m:
                continue
            for va in (True, False):
                for vb in (True, False):
                    for v, w in itertools.product(pools[n, f][va], pools[m, g][vb]) if va != vb else zip(pools[n, f][va], pools[m, g][vb]):
                        yield dict(k="m", cross=[[(n + "." if n else "") + f, v], [(m + "." if m else "") + g, w]])
        # with every objective
        for task, o, ps in (("classification", "cross_entropy", None), ("regression", "lse", None), ("regression", "LAE", None), ("regression", "huber", [1.5]), ("regression", "fair", [1]), ("regression", "Tweedie", [1.5]), ("regression", "log_cosh", None)):
            for (n, f), q in pools.items():
                if f != "task_type":
                    for v in q[True] + q[False]:
                        yield dict(k="m", cross=[["task_type", task], ["objective_param.objective", o], ["objective_param.params", ps], [(n + "." if n else "") + f, v]])
    elif b == "triples":
        vals = [-1, 0, 1, 2, 0.5, True, None, "x", [0.5]]
        for c, (_, t) in CLASSES.items():
            for fs in itertools.combinations(t, 3):
                for vs in itertools.product(*[vals + [GOOD.get(f, 7)] for f in fs]):
                    yield dict(k="f", cls=c, set=[list(x) for x in zip(fs, vs)])
    elif b == "objective":
        names = [None, "", "x", 3, True, "cross_entropy", "Cross_Entropy", "lse", "LSE", "lae", "huber", "Huber", "fair", "FAIR", "log_cosh", "tweedie", "Tweedie", " lse", "lse ", "huber\n", "cross_entropy ", " tweedie", "lsee", "ls"]
        params = [None, [], [0], [0.0], [1], [1.0], [1.5], [1.999999], [2], [2.5], [-1], [1e-9], ["x"], [True], [None], (1.5,), "1.5", 1.5, [1.5, "x"]]
        for o in names:
            for p in params:
                if p == (1.5,):
                    continue
                for t in ("classification", "regression", "none"):
                    yield dict(k="o", objective=o, params=p, task=t)
                    if t != "none":
                        yield dict(k="o", objective=o, params=p, task=t, nested=True)
    elif b in ("config", "config4"):
        for n in (0, 1, 2, 3) if b == "config" else (4,):
            for paths in itertools.combinations(LEAVES, n):
                if any(p.startswith(q + ".") for p in paths for q in paths):
                    continue
                pools = VALUES if n <= 2 else VALUES[:1] + VALUES[3:4] if n == 3 else VALUES[2:4]
                for vs in itertools.product(pools, repeat=n):
                    yield dict(k="c", conf=[list(x) for x in zip(paths, vs)], preset=n == 2, empty=["predict_param"] if n == 1 else [])
    elif b == "odd":
        for v in (None, [], "BoostingTreeParam", "", "x", [1], ["BoostingTreeParam"], 0, 1.5, False, 3, [["BoostingTreeParam", {}]], True):
            yield dict(k="x", odd="type", value=v)
        for v in ({}, {"Other": {"num_trees": 3}}, {"num_trees": 3}, {"boostingtreeparam": {"num_trees": 3}}, {"DecisionTreeParam": {"max_depth": 3}}):
            yield dict(k="x", odd="absent", value=v)
        for n in range(0, 9):
            yield dict(k="x", odd="depth", n=n)
        yield dict(k="x", odd="alias")
    elif b == "defaults":
        for c in DEFAULTS:
            yield dict(k="d", cls=c)
            for f in DEFAULTS[c]:
                for v in SMALL + [GOOD.get(f, 7)]:
                    yield dict(k="d", cls=c, field=f, value=v)
        for c in PARTS:
            for f, inner in PARTS[c].items():
                for g in DEFAULTS[inner]:
                    for v in SMALL:
                        yield dict(k="p", cls=c, part=f, field=g, value=v)
    elif b == "helper":
        for h in HELP:
            for v in POOL:
                yield dict(k="h", helper=h, value=v)
        for v in POOL:
            for valid in (["x", None], ["split", 1], [0.5, "hetero"]):
                yield dict(k="h", helper="check_valid_value", value=v, valid=valid)
            for valid in (["list", "int"], ["str"], ["float", "bool", "NoneType"]):
                yield dict(k="h", helper="check_defined_type", value=v, valid=valid)
            for valid in (["xgboost", "gain"], ["x"], ["multi", "paillier", ""]):
                yield dict(k="h", helper="check_and_change_lower", value=v, valid=valid)


def explore(ctx, block):
    for i, case in enumerate(cases(block)):
        if i % block.get("of", 1) != block.get("part", 0):
            continue
        r = ctx.case(case, lambda: run_case(case))
        ctx.state(core.jsonable(case))
        if r is not None:
            ctx.outcome((case.get("cls"), core.jsonable(case.get("set")), r if isinstance(r, (bool, str)) else len(r)))


def run_case(case):
    return dict(f=run_fields, o=run_objective, c=run_config, x=run_odd, h=run_helper, d=run_defaults, p=run_part, m=run_cross)[case["k"]](case)

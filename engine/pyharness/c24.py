"""Parameters and state of the Python booster: what was given, through every way of copying and storing."""
import copy
import pickle
import shutil
import tempfile

from sym import *
from c22 import booster

NAN = float("nan")
FLOATS = {  # name: range of the symbolic value
    "learning_rate": (0.01, 1), "l1": (0, 2), "l2": (0, 2), "gamma": (0, 2), "max_delta_step": (0, 2), "min_leaf_weight": (0, 2),
    "base_score": (-2, 2), "subsample": (0.1, 1), "top_rate": (0, 0.5), "other_rate": (0.01, 0.5), "colsample_bytree": (0.1, 1),
}
DEFAULTS = dict(objective_type="LogLoss", iterations=100, learning_rate=0.3, max_depth=5, max_leaves=sys.maxsize, l1=0.0, l2=1.0,
                gamma=0.0, max_delta_step=0.0, min_leaf_weight=1.0, base_score=0.5, nbins=256, parallel=True, allow_missing_splits=True,
                monotone_constraints={}, subsample=1.0, top_rate=0.1, other_rate=0.2, colsample_bytree=1.0, seed=0, missing=NAN,
                create_missing_branch=False, sample_method=None, grow_policy="DepthWise", evaluation_metric=None,
                early_stopping_rounds=None, initialize_base_score=True, terminate_missing_features=set(), missing_node_treatment="None",
                log_iterations=0, feature_importance_method="Gain", force_children_to_bound_parent=False)
CHOICES = [
    dict(objective_type="SquaredLoss", iterations=7, max_depth=3, max_leaves=11, nbins=13, seed=2**40 + 17, log_iterations=19),
    dict(parallel=False, allow_missing_splits=False, create_missing_branch=True),
    dict(initialize_base_score=False, force_children_to_bound_parent=True),
    dict(sample_method="goss", grow_policy="LossGuide", evaluation_metric="AUC", early_stopping_rounds=3),
    dict(sample_method="Random", evaluation_metric="RootMeanSquaredLogError", early_stopping_rounds=1, missing=-9.0),
    dict(missing_node_treatment="AssignToParent", evaluation_metric="LogLoss", feature_importance_method="TotalCover"),
    dict(missing_node_treatment="AverageLeafWeight", evaluation_metric="RootMeanSquaredError", sample_method="random", missing=0.0),
    dict(missing_node_treatment="AverageNodeWeight", sample_method="Goss", feature_importance_method="Weight"),
]
SAMPLE = {None: "None", "goss": "Goss", "Goss": "Goss", "random": "Random", "Random": "Random"}


def agree(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return same(a, b)
    return type(a) == type(b) and a == b


def in_library(b, want):
    """The saved model has the parameters `want`."""
    j = model(b)
    for k, v in want.items():
        if k in ("monotone_constraints", "terminate_missing_features", "feature_importance_method"):
            continue
        if k == "sample_method":
            s = SAMPLE[v]
            if s == "None" and want["subsample"] < 1:
                s = "Random"
            check(j[k] == s, "the sample method of the library is the one given, Random when only subsample is")
        elif k == "missing":
            m = j[k]
            check(same(m, v) if isinstance(m, float) else isnan(v), "missing reaches the library")
        elif isinstance(v, float):
            check(same(symapi.from_f32_text(j[k]) if k not in ("base_score", "top_rate", "other_rate", "colsample_bytree") else j[k],
                       symapi.from_f32_text(v) if k not in ("base_score", "top_rate", "other_rate", "colsample_bytree") else v),
                  "a number reaches the library under its own name: " + k)
        else:
            check(j[k] == v, "an option reaches the library under its own name: " + k)


def given():
    p = dict(pick(CHOICES))
    for k, (lo, hi) in FLOATS.items():
        p[k] = sreal(lo, hi)
    return p


def constructor():
    """Every numeric parameter symbolic, eight settings of the others: get_params and the attributes are what was given, the rest the documented
    defaults, and the library has the same; set_params changes the parameters named and no other."""
    p = given()
    p["monotone_constraints"] = {0: 1, "name": -1}
    p["terminate_missing_features"] = [2]
    b = GradientBooster(**p)
    want = {**DEFAULTS, **p}
    got = b.get_params()
    check(set(got) == set(want), "get_params has every parameter")
    for k, v in want.items():
        check(agree(got[k], v) and agree(getattr(b, k), v), "a parameter is what was given or its default: " + k)
    in_library(b, want)
    q = {"l1": sreal(0, 2), "max_depth": 9, "subsample": sreal(0.1, 1), "grow_policy": "DepthWise", "missing": 4.0,
         "monotone_constraints": {3: 1}, "terminate_missing_features": ["other"], "sample_method": None, "evaluation_metric": None,
         "early_stopping_rounds": None}
    q = {k: q[k] for k in pick([["l1"], ["max_depth", "grow_policy"], ["subsample"], ["missing", "l1"], ["monotone_constraints"],
                                ["terminate_missing_features"], ["sample_method", "evaluation_metric", "early_stopping_rounds"]])}
    check(b.set_params(**q) is b, "set_params returns the booster")
    want.update(q)
    got = b.get_params()
    for k, v in want.items():
        check(agree(got[k], v), "set_params changes the parameters named only: " + k)
    in_library(b, want)
    c = GradientBooster(**got)
    for k, v in c.get_params().items():
        check(agree(v, got[k]), "a booster from get_params has the same parameters: " + k)


def defaults():
    """The documented defaults, one numeric parameter at a time symbolic."""
    k = pick(list(FLOATS))
    v = sreal(*FLOATS[k])
    b = GradientBooster(**{k: v})
    want = {**DEFAULTS, k: v}
    for n, x in b.get_params().items():
        check(agree(x, want[n]), "a parameter not given has its documented default: " + n)
    in_library(b, want)


def copied(b, how):
    if how == "pickle":
        return pickle.loads(pickle.dumps(b))
    if how == "deepcopy":
        return copy.deepcopy(b)
    d = tempfile.mkdtemp(prefix="verif-c24-")
    try:
        p = os.path.join(d, "model.json")
        b.save_booster(p)
        return GradientBooster.load_booster(p)
    finally:
        shutil.rmtree(d)


HOW = ["pickle", "deepcopy", "file"]


def same_params(a, b, how="file"):
    p, q = a.get_params(), b.get_params()
    check(set(p) == set(q), "the copy has the same parameters")
    for k in p:
        if k in ("sample_method", "terminate_missing_features") and how != "file":
            check(type(p[k]) == type(q[k]) and p[k] == q[k], "the copy has the same parameter: " + k)
        elif k == "sample_method":
            s = SAMPLE[p[k]]
            if s == "None" and less(p["subsample"], 1.0):
                s = "Random"
            t = SAMPLE[q[k]]
            if t == "None" and less(q["subsample"], 1.0):
                t = "Random"
            check(s == t, "the copy has the same sample method")
        elif k == "terminate_missing_features":
            check(set(p[k]) == set(q[k]), "the copy terminates the same features")
        elif isinstance(p[k], float):
            check(same(symapi.from_f32_text(p[k]), symapi.from_f32_text(q[k])), "the copy has the same parameter: " + k)
        else:
            check(p[k] == q[k], "the copy has the same parameter: " + k)


def copies():
    """Unfitted boosters with every numeric parameter symbolic and eight settings of the others, pickled, copied and saved to a file."""
    b = GradientBooster(**given())
    b.insert_metadata("note", "kept \"as\" it is\n")
    how = pick(HOW)
    c = copied(b, how)
    same_params(b, c, how)
    check(c.get_metadata("note") == "kept \"as\" it is\n", "the copy has the same metadata")
    check(same_json(model(b), model(c)), "the copy is the same model")


def fitted():
    """Models fitted on four rows with a symbolic target, DataFrame (two columns) or array; constraints (one of them 0) on none, one or both columns, missing branches
    terminated for none or one; an evaluation set and early stopping or a chosen prediction iteration; pickled, copied and saved to a file: the copy predicts, explains, and refits as the original."""
    named = boolean()
    names = ["b", "a"]
    rows = [[0.0, NAN], [1.0, 0.0], [2.0, 3.0], [3.0, 2.0]]
    y = [1.0, real(1, 3) if thorough() else real(1, 1.25), 0.0, 2.0]
    cons = pick([{}, {1: 1}, {0: 0, 1: -1}])
    term = pick([[], [0], [1]])
    x = pd.DataFrame(rows, columns=names) if named else np.array(rows)
    lab = (lambda i: names[i]) if named else (lambda i: i)
    stop = choice(3)
    b = booster(iterations=2, max_depth=1, monotone_constraints={lab(i): c for i, c in cons.items()}, create_missing_branch=bool(term),
                terminate_missing_features=[lab(i) for i in term], learning_rate=0.5, initialize_base_score=True,
                feature_importance_method=["Gain", "TotalCover", "Weight"][stop], base_score=[0.5, 0.25, 2.0][stop],
                **(dict(early_stopping_rounds=1, evaluation_metric="RootMeanSquaredError") if stop == 1 else {}))
    b.fit(x, np.array(y), evaluation_data=[(x, np.array([1.0, 1.0, 0.0, 2.0]))] if stop == 1 else None)
    if stop == 2:
        b.set_prediction_iteration(1)
    how = pick(HOW)
    c = copied(b, how)
    same_params(b, c, how)
    check(same_json(model(b), model(c)), "the copy is the same model")
    check(same(float(b.base_score), float(model(b)["base_score"])), "the base score of a fitted booster is the model's")
    check(c.n_features_ == 2, "n_features_ is kept")
    check(hasattr(c, "feature_names_in_") == named and (not named or c.feature_names_in_ == names), "the feature names are kept")
    check(c.prediction_iteration == b.prediction_iteration and c.best_iteration == b.best_iteration and c.number_of_trees == b.number_of_trees,
          "iterations are kept")
    p, q = b.predict(x), c.predict(x)
    check(all(close(s, t) for s, t in zip(p, q)), "the copy predicts the same")
    p, q = b.feature_importances_, c.feature_importances_
    check(len(p) == len(q) and all(close(s, t) for s, t in zip(p, q)), "the copy has the same importances")
    h, g = b.get_evaluation_history(), c.get_evaluation_history()
    check((h is None) == (g is None), "the history is kept")
    if h is not None:
        check(h.shape == g.shape and all(close(s, t) for s, t in zip(h.ravel(), g.ravel())), "the history is kept")
    # A further fit of both.
    w = np.array([1.0, 2.0, 1.0, 1.0])
    b.fit(x, np.array(y), w)
    c.fit(x, np.array(y), w)
    check(same_json(model(b)["trees"], model(c)["trees"]), "the copy trains the same")


HARNESSES = [constructor, defaults, copies, fitted]

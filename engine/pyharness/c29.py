"""Models imported from XGBoost."""
import types

from sym import *

NAN = float("nan")
# split: (feature, condition, yes, no, side of missing values); None is a leaf.
SHAPES = [
    (2, 0.5, None, None, "yes"),
    (1, 1.25, (0, 0.75, None, None, "no"), None, "yes"),
    (0, 1.0, (2, 0.5, None, None, "no"), (1, 0.25, (2, 1.5, None, None, "yes"), None, "no"), "no"),
    # More than ten nodes.
    (1, 1.0, (0, 0.5, (2, 0.25, None, None, "yes"), (2, 1.75, None, None, "no"), "no"),
     (0, 1.5, (2, 1.0, None, None, "no"), None, "yes"), "no"),
]


def dump(shape, names, policy):
    """The tree as XGBoost dumps it (a node's split as text, its children in a list), and what it does: nodes by id."""
    nodes, k = {}, [0]

    def make(s, depth):
        n = {"nodeid": k[0]}
        k[0] += 1
        cover = symapi.f32_text(real(0, 9))
        if s is None:
            v = real(-2, 2)
            n.update(leaf=symapi.f32_text(v), cover=cover)
            nodes[n["nodeid"]] = dict(leaf=v)
        else:
            n.update(depth=depth, split=names[s[0]], split_condition=s[1], gain=symapi.f32_text(real(0, 5)), cover=cover)
            nodes[n["nodeid"]] = dict(feature=s[0], condition=s[1], n=n)
        return n

    def link(n, s, kids):
        # Either child may have the higher number (XGBoost reuses the numbers of nodes it has pruned) and be listed first.
        no, yes = kids if policy == 3 else kids[::-1]
        if policy >= 2:
            kids = kids[::-1]
        n.update(yes=yes["nodeid"], no=no["nodeid"], missing=(yes if s[4] == "yes" else no)["nodeid"], children=kids)
        nodes[n["nodeid"]].update(yes=n["yes"], no=n["no"], missing=n["missing"])

    root = make(shape, 0)
    queue = [(root, shape, 0)]
    while queue:
        # Level by level, or the last node first.
        n, s, d = queue.pop(0 if policy == 0 else -1)
        if s is None:
            continue
        kids = [(make(c, d + 1), c, d + 1) for c in s[2:4]]
        link(n, s, [c[0] for c in kids])
        queue += kids
    return root, nodes


class Booster:
    """What the import uses of xgboost.Booster."""

    def __init__(self, trees, names, features, base, objective):
        self.feature_names, self._t, self._n, self._b, self._o = names, trees, features, base, objective

    def get_dump(self, fmap="", with_stats=False, dump_format="text"):
        def strip(n):
            n = {k: v for k, v in n.items() if with_stats or k not in ("gain", "cover")}
            if "children" in n:
                n["children"] = [strip(c) for c in n["children"]]
            return n

        assert dump_format == "json"
        return [json.dumps(strip(t)) for t in self._t]

    def save_config(self):
        return json.dumps({"learner": {"learner_model_param": {"base_score": repr(self._b), "num_feature": str(self._n)},
                                       "objective": {"name": self._o}}})

    def num_features(self):
        return self._n


class XGBModel:
    def __init__(self, booster):
        self._b = booster

    def get_booster(self):
        return self._b


def imported(model):
    """Runs the import with an xgboost module of these two classes."""
    old = sys.modules.get("xgboost")
    sys.modules["xgboost"] = types.SimpleNamespace(XGBModel=XGBModel, Booster=Booster)
    try:
        return forust._from_xgboost_model(model)
    finally:
        if old is None:
            del sys.modules["xgboost"]
        else:
            sys.modules["xgboost"] = old


def models():
    """Two trees (four shapes, up to 13 nodes, up to three levels, nodes numbered level by level, last node first, with the children listed in the
    other order, or with the no child numbered first), symbolic leaves, gains, covers; three features with names or without; a Booster or its scikit-learn wrapper; base score symbolic, or the
    log odds of 0.25 or 0.5. Predictions of four rows of symbolic and missing values, the nodes, and the feature names."""
    named = boolean()
    names = ["b", "B", "f0"] if named else ["f0", "f1", "f2"]
    policy = choice(4)
    shape = pick(SHAPES)
    made = [dump(shape, names, policy), dump(SHAPES[1], names, policy)]
    objective = pick(["reg:squarederror", "binary:logitraw", "binary:logistic"])
    base = pick([0.25, 0.5]) if objective == "binary:logistic" else real(-1, 1)
    m = Booster([d for d, _ in made], names if named else None, 3, base, objective)
    b = imported(XGBModel(m) if boolean() else m)
    want_base = (-1.0986122886681098 if base == 0.25 else 0.0) if objective == "binary:logistic" else base
    check(close(float(model(b)["base_score"]), want_base), "the base score is the margin XGBoost starts from")
    ts = trees(b)
    check(len(ts) == 2, "every tree is imported")
    for t, (_, nodes) in zip(ts, made):
        check(len(t) == len(nodes), "every node is imported")
        for n in t:
            o = nodes[n["num"]]
            check(n["is_leaf"] == ("leaf" in o), "leaves are leaves")
            if n["is_leaf"]:
                check(equal(weight(n), o["leaf"]), "leaf values are kept")
                continue
            check(n["split_feature"] == o["feature"] and n["split_value"] == o["condition"], "splits are on the same feature and value")
            check((n["left_child"], n["right_child"], n["missing_node"]) == (o["yes"], o["no"], o["missing"]), "children are kept")
            for f, x in (("split_gain", "gain"), ("hessian_sum", "cover")):
                check(equal(symapi.from_f32_text(n[f]), symapi.from_f32_text(o["n"][x])), "gain and cover are kept")
    rows = [[real(0, 2), 0.5, NAN], [1.0, real(0, 2), real(0, 2)], [NAN, 1.5, 0.0], [0.5, NAN, 2.0]]
    x = pd.DataFrame(rows, columns=names) if named and boolean() else np.array(rows)
    p = b.predict(x)
    for r, v in zip(rows, p):
        s = want_base
        for _, nodes in made:
            i = 0
            while "leaf" not in nodes[i]:
                o = nodes[i]
                c = float(r[o["feature"]])
                i = o["missing"] if isnan(c) else o["yes"] if less(c, o["condition"]) else o["no"]
            s = symapi.add(s, nodes[i]["leaf"])
        check(close(v, s), "predictions are XGBoost's margins")
    if named:
        check(list(b.feature_names_in_) == names and b.n_features_ == 3, "feature names are kept")


HARNESSES = [models]

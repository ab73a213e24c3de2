"""Exported trees are the trees of the model."""
import re

from sym import *

NAN = float("nan")


def nodes(shape, features):
    """A tree with symbolic weights, covers, gains and split values; the shape is nested tuples
    (feature, missing, left, right[, missing branch]) or None for a leaf. Nodes are numbered as training numbers them."""
    out = []

    def make(s, depth):
        n = dict(num=len(out), weight_value=real(-2, 2), hessian_sum=real(0, 9), depth=depth, split_value=0.0, split_feature=0,
                 split_gain=0.0, missing_node=0, left_child=0, right_child=0, is_leaf=s is None)
        out.append(n)
        return n

    queue = [(make(shape, 0), shape, 0)]
    while queue:
        n, s, d = queue.pop(0)
        if s is None:
            continue
        kids = [(make(k, d + 1), k, d + 1) for k in s[2:]]
        n.update(split_value=real(-4, 4), split_feature=features[s[0]], split_gain=real(0, 5), left_child=kids[0][0]["num"],
                 right_child=kids[1][0]["num"])
        n["missing_node"] = {"l": n["left_child"], "r": n["right_child"]}.get(s[1]) or kids[2][0]["num"]
        queue += kids
    return out


SHAPES = [
    None,
    (0, "l", None, None),
    (1, "r", (0, "l", None, None), None),
    (1, "m", None, (2, "r", None, None), None),
    (2, "m", (0, "m", None, None, None), None, (1, "l", None, None)),
]


def any_model():
    """Two trees of five shapes (up to three levels, missing branches), three features."""
    b = GradientBooster()
    ts = [nodes(pick(SHAPES), [0, 1, 2]), nodes((1, "l", None, None), [0, 1, 2])]
    # A split need not have a gain.
    ts[1][0]["split_gain"] = 0.0
    load_trees(b, ts)
    b.n_features_ = 3
    if boolean():
        # Predictions with fewer trees: the model still has them all.
        b.set_prediction_iteration(1)
    names = None
    if boolean():
        names = ["b", "a", "c"]
        b.feature_names_in_ = names
    return b, ts, names


FIELDS = ["num", "depth", "missing_node", "left_child", "right_child", "is_leaf"]


def node_lists():
    """Two trees of five shapes (up to three levels, with missing branches) with symbolic weights, covers, gains and split values, with and without
    feature names: get_node_lists has every node of every tree as it is, split features by name if asked for and known."""
    b, ts, names = any_model()
    mapped = boolean()
    got = b.get_node_lists(map_features_names=mapped)
    check(len(got) == 2, "a list per tree")
    for g, t in zip(got, ts):
        check(len(g) == len(t), "an entry per node")
        for x, n in zip(g, t):
            check(all(getattr(x, f) == n[f] for f in FIELDS), "an entry has the place of its node")
            check(same(symapi.from_f32_text(x.weight_value), n["weight_value"]), "an entry has the weight of its node")
            check(same(symapi.from_f32_text(x.hessian_sum), n["hessian_sum"]), "an entry has the cover of its node")
            if not n["is_leaf"]:
                check(same(symapi.from_f32_text(x.split_gain), n["split_gain"]), "an entry has the gain of its node")
                check(same(x.split_value, n["split_value"]), "an entry has the split value of its node")
            use = mapped and names is not None
            want = ("" if use else -1) if n["is_leaf"] else names[n["split_feature"]] if use else n["split_feature"]
            check(x.split_feature == want, "an entry has the split feature of its node")


def data_frame():
    """The same models: trees_to_dataframe has a row per node with tree, node, identifiers of the children, feature name, split value,
    gain (the weight for a leaf) and cover."""
    b, ts, names = any_model()
    d = b.trees_to_dataframe()
    check(len(d) == sum(len(t) for t in ts), "a row per node")
    i = 0
    for k, t in enumerate(ts):
        for n in t:
            r = {c: d[c].iloc[i] for c in d.columns}
            i += 1
            check(r["Tree"] == k and r["Node"] == n["num"] and r["ID"] == f"{k}-{n['num']}", "a row is for its tree and node")
            check(same(symapi.from_f32_text(r["Cover"]), n["hessian_sum"]), "Cover is that of the node")
            if n["is_leaf"]:
                check(r["Feature"] == "Leaf", "a leaf is marked")
                check(same(symapi.from_f32_text(r["Gain"]), n["weight_value"]), "Gain of a leaf is its weight")
                check(all(r[c] is None or r[c] != r[c] for c in ("Yes", "No", "Missing", "Split")), "a leaf has no children and no split")
            else:
                check(r["Feature"] == (names[n["split_feature"]] if names else str(n["split_feature"])), "Feature is that of the split")
                check(same(symapi.from_f32_text(r["Gain"]), n["split_gain"]), "Gain is that of the split")
                check(same(r["Split"], n["split_value"]), "Split is the split value")
                check(r["Yes"] == f"{k}-{n['left_child']}" and r["No"] == f"{k}-{n['right_child']}" and r["Missing"] == f"{k}-{n['missing_node']}",
                      "Yes, No and Missing are the children")


LINE = re.compile(r"^( *)(\d+):(?:leaf=(?P<leaf>\S+?),cover=(?P<cover>\S+)|\[(?P<f>\d+) < (?P<v>\S+)\] yes=(?P<yes>\d+),no=(?P<no>\d+),"
                  r"missing=(?P<missing>\d+),gain=(?P<gain>\S+?),cover=(?P<c2>\S+))$")


def text():
    """The same models: text_dump describes every tree, a line per node with its number, indented by its depth, children below their parent."""
    b, ts, _ = any_model()
    dump = b.text_dump()
    check(len(dump) == 2, "a text per tree")
    for text, t in zip(dump, ts):
        lines = text.rstrip("\n").split("\n")
        check(len(lines) == len(t), "a line per node")
        seen = set()
        open_ = []
        for l in lines:
            m = LINE.match(l)
            check(m is not None, "a line has the documented form")
            n = t[int(m.group(2))]
            check(n["num"] not in seen, "a node has one line")
            seen.add(n["num"])
            check(len(m.group(1)) == 6 * n["depth"], "a line is indented by the depth of the node")
            open_ = open_[: n["depth"]]
            if open_:
                p = t[open_[-1]]
                check(n["num"] in (p["left_child"], p["right_child"], p["missing_node"]), "a node is below its parent")
            open_.append(n["num"])
            check((m.group("leaf") is not None) == n["is_leaf"], "leaves are shown as leaves")
            num = lambda s: symapi.from_f32_text(float(s))
            if n["is_leaf"]:
                check(same(num(m.group("leaf")), n["weight_value"]) and same(num(m.group("cover")), n["hessian_sum"]), "a leaf has its weight and cover")
            else:
                check(int(m.group("f")) == n["split_feature"] and same(float(m.group("v")), n["split_value"]), "a split has its feature and value")
                check((int(m.group("yes")), int(m.group("no")), int(m.group("missing"))) == (n["left_child"], n["right_child"], n["missing_node"]),
                      "a split has its children")
                check(same(num(m.group("gain")), n["split_gain"]) and same(num(m.group("c2")), n["hessian_sum"]), "a split has its gain and cover")


HARNESSES = [node_lists, data_frame, text]

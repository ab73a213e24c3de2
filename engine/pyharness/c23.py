"""Names of DataFrame columns stand for the columns."""
from sym import *
from c22 import booster, symbolic_model
from c24 import copied

NAN = float("nan")
NAMES = [["a", "b"], ["b", "a"], ["x 1", 7]]


def refused(f, *errors):
    try:
        f()
    except errors:
        return True
    return False


def constraints():
    """Four rows, two columns named in either order (a name may be a number), a constraint on either or both columns by name (by
    index for an array), one symbolic target in [-2, 3] and one symbolic value; one tree of depth 2."""
    names = pick(NAMES)
    rows = [[0.0, 1.0], [1.0, 0.0], [2.0, 3.0], [3.0, 2.0]]
    y = [1.0, real(-2, 3), 0.0, 2.0]
    cons = pick([{0: 1}, {1: 1}, {0: -1, 1: 1}, {1: -1}, {0: 0, 1: -1}])
    array = boolean()
    x = np.array(rows) if array else pd.DataFrame(rows, columns=names)
    given = cons if array else {names[i]: c for i, c in cons.items()}
    b = booster(iterations=1, monotone_constraints=dict(given))
    blank = b.json_dump()
    b.fit(x, np.array(y))
    want = symapi.lib_fit(blank, cons, set(), (rows, y, [1.0] * 4), None)
    check(same_json(trees_of(b.json_dump()), trees_of(want)), "a constraint applies to the column it names")
    check(model(b)["monotone_constraints"] == json.loads(want)["monotone_constraints"], "the constraints of the model are those of the columns")
    check(b.monotone_constraints == given and b.get_params()["monotone_constraints"] == given, "fitting keeps the constraints as given")
    if not array:
        check(b.feature_names_in_ == names, "the names are those of the columns")
    free = symapi.lib_fit(blank, {}, set(), (rows, y, [1.0] * 4), None)
    if not same_json(trees_of(free), trees_of(want)):
        cover("constrained")


def trees_of(text):
    return json.loads(text)["trees"]


def terminated():
    """Six rows, two columns with missing values, create_missing_branch, the missing branches of none, either or both columns
    terminated by name (by index for an array), given as list, set or tuple; one symbolic target."""
    names = pick(NAMES)
    rows = [[NAN, 1.0], [NAN, 0.0], [2.0, NAN], [3.0, NAN], [1.0, 1.0], [0.0, 4.0]]
    y = [1.0, real(-2, 3), 0.0, 2.0, -1.0, 4.0]
    feats = pick([[], [0], [1], [0, 1]])
    array = boolean()
    x = np.array(rows) if array else pd.DataFrame(rows, columns=names)
    given = pick([list, set, tuple])(feats if array else [names[i] for i in feats])
    b = booster(iterations=1, create_missing_branch=True, terminate_missing_features=given, max_depth=3)
    blank = b.json_dump()
    b.fit(x, np.array(y))
    want = symapi.lib_fit(blank, {}, set(feats), (rows, y, [1.0] * 6), None)
    check(same_json(trees_of(b.json_dump()), trees_of(want)), "missing branches end for the columns named")
    check(sorted(model(b)["terminate_missing_features"]) == feats, "the features of the model are those named")


def mismatch():
    """A model fitted on a DataFrame refuses DataFrames whose columns differ in name, order or number and accepts those that agree and
    arrays; symbolic values."""
    names = pick(NAMES)
    rows = [[0.0, 1.0], [1.0, real(0, 3)], [2.0, 3.0], [3.0, 2.0]]
    y = np.array([1.0, 0.0, 0.0, 2.0])
    b = booster(iterations=1)
    b.fit(pd.DataFrame(rows, columns=names), y)
    bad = pick([names[::-1], [names[0], "c"], names + ["c"], names[:1], ["c", names[1]]] + ([[str(n) for n in names]] if 7 in names else []))
    other = pd.DataFrame([[0.5] * len(bad)] * 2, columns=bad)
    k = choice(4)
    if k == 0:
        check(refused(lambda: b.predict(other), ValueError), "predict refuses other columns")
    elif k == 1:
        check(refused(lambda: b.predict_contributions(other), ValueError), "predict_contributions refuses other columns")
    elif k == 2:
        check(refused(lambda: b.predict_leaf_indices(other), ValueError), "predict_leaf_indices refuses other columns")
    else:
        before = b.json_dump()
        good = (pd.DataFrame(rows, columns=names), y)
        sets = pick([[(other, y[:2])], [good, (other, y[:2])], [(other, y[:2]), good]])
        check(refused(lambda: b.fit(pd.DataFrame(rows, columns=names), y, evaluation_data=sets), ValueError),
              "fit refuses evaluation data with other columns")
        check(same_json(trees_of(before), trees(b) and trees_of(b.json_dump())), "a refused fit keeps the trees")
    q = [[real(0, 3), 1.5]]
    p = b.predict(pd.DataFrame(q, columns=list(names)))
    check(close(p[0], margin(b, q[0])), "the same columns are accepted")
    check(close(b.predict(np.array(q))[0], p[0]), "an array is accepted")


METHODS = ["Weight", "Gain", "Cover", "TotalGain", "TotalCover"]


def importance():
    """Three columns (named, or an array), of which a tree of symbolic targets uses some; every method, normalised or not; the importances
    by name or index and feature_importances_ in column order."""
    named = boolean()
    names = ["b", "c", "a"]
    rows = [[0.0, 1.0, 5.0], [1.0, 0.0, 5.0], [2.0, 3.0, 5.0], [3.0, 2.0, 5.0]]
    y = [1.0, real(-2, 3), 0.0, 2.0]
    m = choice(5)
    b = booster(iterations=2 if thorough() else 1, feature_importance_method=METHODS[m])
    b.fit(pd.DataFrame(rows, columns=names) if named else np.array(rows), np.array(y))
    label = names if named else [0, 1, 2]
    for norm in (False, True):
        got = b.calculate_feature_importance(method=METHODS[m], normalize=norm)
        want = symapi.lib_importance(b.json_dump(), m, norm)
        check(set(got) == {label[i] for i in want}, "importances are of the features used, by name")
        for i, v in want.items():
            check(close(got[label[i]], v), "the importance under a name is that of the column")
    v = b.feature_importances_
    want = symapi.lib_importance(b.json_dump(), m, True)
    check(len(v) == 3, "feature_importances_ has an entry per column")
    for i in range(3):
        check(close(v[i], want.get(i, 0.0)), "feature_importances_ are the normalised importances in column order, zero for unused columns")
    if METHODS[m] == "Gain":
        d = b.calculate_feature_importance()
        check(set(d) == {label[i] for i in want} and all(close(d[label[i]], want[i]) for i in want), "the default is normalised Gain")


def unknown():
    """A constraint on, or the terminated missing branch of, a column that the DataFrame lacks (alone or with one it has, at either place): the fit is
    refused, and nothing is trained; five columns, one symbolic value."""
    names = ["a", "b", "c", "d", 5]
    rows = [[0.0, 1.0, 2.0, 0.5, 1.0], [1.0, real(0, 3), 0.0, 0.0, NAN], [2.0, 3.0, 1.0, 1.0, 0.0]]
    k = choice(2)
    lacking = pick(["e", "A", 0, "5"])
    given = pick([[lacking], ["b", lacking], [lacking, 5]])
    kw = dict(monotone_constraints={n: 1 for n in given}) if k else dict(terminate_missing_features=given, create_missing_branch=True)
    b = booster(iterations=1, **kw)
    check(refused(lambda: b.fit(pd.DataFrame(rows, columns=names), np.array([1.0, 0.0, 2.0])), KeyError, ValueError),
          "names of columns that are not there are refused")
    check(b.number_of_trees == 0, "a refused fit trains nothing")


def refit():
    """A booster fitted twice, on data whose columns differ in number, names or order, or that have names only once: names, importances and the columns
    accepted, and the columns that constraints and terminated missing branches apply to, are those of the second fit, as they are after saving and loading; the targets of the second fit symbolic."""
    shapes = [["a", "b"], ["b", "a", "c"], ["c", "a"], None, 3]
    i = choice(5)
    j = choice(5)
    assume(i != j)
    first, then = shapes[i], shapes[j]
    named = isinstance(then, list)
    kw = dict(iterations=1)
    cons, term = {}, set()
    if named and isinstance(first, list) and boolean():
        # What is said of a column is said of another position in the second fit.
        kw.update(monotone_constraints={"a": -1}, terminate_missing_features=["a"], create_missing_branch=True, max_depth=3)
        cons, term = {then.index("a"): -1}, {then.index("a")}
    gap = NAN if cons else 1.0

    def data(cols):
        n = 3 if cols == 3 else 2 if cols is None else len(cols)
        rows = [[0.0, 1.0, 2.0][:n], [gap, 0.0, 2.0][:n], [2.0, gap, 1.0][:n], [3.0, 2.0, 0.0][:n]]
        return rows, pd.DataFrame(rows, columns=list(cols)) if isinstance(cols, list) else np.array(rows)

    b = booster(**kw)
    b.fit(data(first)[1], np.array([1.0, 0.0, 0.0, 2.0]))
    rows, x = data(then)
    n = len(rows[0])
    blank = booster(**kw).json_dump()
    y = [1.0, real(-2, 3), 0.0, 2.0]
    b.fit(x, np.array(y))
    want = symapi.lib_fit(blank, cons, term, (rows, y, [1.0] * 4), None)
    check(same_json(trees_of(b.json_dump()), trees_of(want)), "the second fit trains on its own data")
    check(model(b)["monotone_constraints"] == json.loads(want)["monotone_constraints"] and set(model(b)["terminate_missing_features"]) == term,
          "constraints and terminated features are those of the columns of the last fit")
    if boolean():
        b = copied(b, "file")
    label = then if named else list(range(n))
    check(b.n_features_ == n, "the number of features is that of the last fit")
    check(list(getattr(b, "feature_names_in_", [])) == (then if named else []), "the names are those of the last fit")
    imp = symapi.lib_importance(want, 1, True)
    got = b.calculate_feature_importance()
    check(set(got) == {label[k] for k in imp}, "importances are reported under the names of the last fit")
    v = b.feature_importances_
    check(len(v) == n, "an importance per column of the last fit")
    for k in range(n):
        check(close(v[k], imp.get(k, 0.0)), "importances in the order of the columns of the last fit")
        check(k not in imp or close(got[label[k]], imp[k]), "the importance under a name is that of the column")
    lists = b.get_node_lists()
    check(all(m.is_leaf or m.split_feature == label[w["split_feature"]] for t, u in zip(lists, trees_of(want)) for m, w in zip(t, u["nodes"])),
          "nodes split on the columns of the last fit, by name")
    check(close(b.predict(x)[1], margin(b, rows[1])), "the data of the last fit are accepted")
    if named:
        other = pd.DataFrame([[0.5] * n] * 2, columns=then[::-1])
        check(refused(lambda: b.predict(other), ValueError), "columns in another order than at the last fit are refused")
        if isinstance(first, list):
            check(refused(lambda: b.predict(data(first)[1]), ValueError), "the columns of the first fit are refused")


HARNESSES = [constraints, terminated, mismatch, importance, unknown, refit]

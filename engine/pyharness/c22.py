"""The Python package trains and predicts as the library does, whatever the data come in."""
from sym import *

NAN = float("nan")


def frame(rows, kind):
    """The same table in the containers users have."""
    a = np.array(rows, dtype="float64")
    n, c = a.shape
    if kind == "frame":
        return pd.DataFrame(a, columns=[f"f{i}" for i in range(c)])
    if kind == "frame by columns":
        # Columns of their own (one block each), an index that is not 0, 1, 2, ...
        return pd.DataFrame({f"f{i}": pd.Series(a[:, i].copy(), index=range(7, 7 + n)) for i in range(c)})
    if kind == "C":
        return np.ascontiguousarray(a)
    if kind == "F":
        return np.asfortranarray(a)
    if kind == "view":
        big = np.full((2 * n, 2 * c), 9.0)
        big[::2, ::2] = a
        return big[::2, ::2]
    if kind == "shuffled frame":
        return pd.DataFrame(a, columns=[f"f{i}" for i in range(c)], index=[(i * 7 + 3) % n for i in range(n)])
    if kind == "transposed view":
        big = np.full((c, 2 * n), 9.0)
        big[:, 1::2] = a.T
        return big[:, 1::2].T
    assert kind == "reversed"
    return np.ascontiguousarray(a[::-1])[::-1]


KINDS = ["frame", "C", "F", "view", "frame by columns", "reversed"]


def vector(v, kind):
    a = np.array(v, dtype="float64")
    if kind == "array":
        return a
    if kind == "series":
        return pd.Series(a, index=range(3, 3 + len(a)))
    if kind == "shuffled":
        # The labels of a table's rows, in another order.
        return pd.Series(a, index=[(len(a) - i) % len(a) for i in range(len(a))])
    if kind == "repeated":
        return pd.Series(a, index=[0] * len(a))
    if kind == "strided":
        big = np.full(2 * len(a), 9.0)
        big[1::2] = a
        return big[1::2]
    if kind == "column":
        return pd.DataFrame({"a": a * 1, "b": a})["b"]
    assert kind == "list slice"
    return np.ascontiguousarray(a)


def booster(**kw):
    p = dict(objective_type="SquaredLoss", iterations=2, max_depth=2, min_leaf_weight=0.0, l2=1.0,
             base_score=0.5, initialize_base_score=False)
    p.update(kw)
    return GradientBooster(**p)


def table(sym=2):
    """Four rows, two columns; one missing value, `sym` symbolic ones."""
    v = [real(0, 3) if i < sym else None for i in range(2)]
    return [
        [0.0, 1.0],
        [v[0] if sym > 0 else 1.0, 0.0],
        [2.0, NAN],
        [1.0, v[1] if sym > 1 else 2.0],
    ]


def same_numbers(a, b):
    return len(a) == len(b) and all(close(float(x), float(y)) for x, y in zip(a, b))


def fit_and_predict():
    """Four rows and two columns with a missing value, given as a DataFrame, C or Fortran ordered array, strided view or reversed
    view; targets as array or Series; either two symbolic values in [0, 3] (two trees of depth 2, no weights) or one symbolic weight
    in [0, 2] (one tree of depth 1, weights as array or Series); predictions for other containers and a row of two symbolic values."""
    weights = choice(3)
    rows = table(2 if weights == 0 else 0)
    kind = pick(KINDS)
    y = [0.0, 1.0, 0.0, 2.0]
    w = None if weights == 0 else [1.0, real(0, 2), 1.0 if weights == 1 else 300.0, 0.5]
    b = booster() if weights == 0 else booster(iterations=1, max_depth=1)
    blank = b.json_dump()
    r = b.fit(frame(rows, kind), vector(y, "array" if weights != 1 else "series"),
              None if w is None else vector(w, "array" if weights == 1 else "column"))
    check(r is b, "fit returns the booster")
    want = json.loads(symapi.lib_fit(blank, {}, set(), (rows, y, w or [1.0] * 4), None))
    got = model(b)
    check(same_json(got["trees"], want["trees"]), "the trees are those the library grows on the same rows")
    check(same(got["base_score"], want["base_score"]), "the base score is the library's")
    check(same(b.base_score, want["base_score"]), "base_score is the one of the model")
    check(b.number_of_trees == len(want["trees"]), "number_of_trees")
    check(b.n_features_ == 2, "n_features_")
    new = rows[:2] + [[real(0, 3), real(0, 3)]]
    kind2 = pick(["frame", "C"]) if kind.startswith("frame") else pick(["C", "view"])
    p = b.predict(frame(new, kind2))
    check(p.shape == (3,), "a prediction per row")
    check(same_numbers(p, [margin(b, x) for x in new]), "predictions are those of the trees, row by row")


def types():
    """Concrete integers and halves as float32, int64, int32, uint8, bool and mixed columns, with symbolic targets."""
    kind = pick(["float32", "int64", "int32", "uint8", "mixed frame", "nullable"])
    rows = [[0.0, 3.0], [1.0, 1.0], [2.0, 0.0], [5.0, 2.0]]
    if kind == "mixed frame":
        x = pd.DataFrame({"a": np.array([0, 1, 2, 5], dtype="int64"), "b": np.array([3, 1, 0, 2], dtype="float32")})
    elif kind == "nullable":
        x = pd.DataFrame({"a": [0.0, 1.0, None, 5.0], "b": [True, False, False, True]})
        x["a"] = x["a"].astype("float64")
        x = x.astype({"b": "int8"})
        rows = [[0.0, 1.0], [1.0, 0.0], [NAN, 0.0], [5.0, 1.0]]
    else:
        x = np.array(rows, dtype=kind)
    y = [real(-1, 1), 1.0, 0.0, 0.0]
    b = booster(iterations=1)
    blank = b.json_dump()
    wk = choice(3)
    w = [None, np.array([1, 2, 1, 3], dtype="int64"), pd.Series([1, 2, 1, 3], dtype="float32")][wk]
    b.fit(x, np.array(y), w)
    want = json.loads(symapi.lib_fit(blank, {}, set(), (rows, y, [1.0] * 4 if wk == 0 else [1.0, 2.0, 1.0, 3.0]), None))
    check(same_json(model(b)["trees"], want["trees"]), "the type of the columns makes no difference")
    check(same_numbers(b.predict(x), [margin(b, r) for r in rows]), "predictions from columns of that type")
    # Integer labels.
    b2, b3 = booster(iterations=1), booster(iterations=1)
    b2.fit(x, np.array([0, 1, 1, 0], dtype=pick(["int64", "uint8", "bool", "float32"])))
    b3.fit(x, np.array([0.0, 1.0, 1.0, 0.0]))
    check(same_json(model(b2)["trees"], model(b3)["trees"]), "the type of the target makes no difference")


def evaluation():
    """One or two evaluation sets of four (as many as in training, or the training data themselves) and two rows, with and without training weights, given as pairs or triples of arrays or DataFrames, one symbolic target and one
    symbolic weight each, RMSE; early stopping after one round or none; four iterations."""
    rows = table(0)
    y = [0.0, 1.0, 0.0, 2.0]
    w = pick([None, [1.0, 3.0, 0.5, 2.0]])
    n = 1 + choice(2)
    stop = pick([None, 1])
    kind = pick(["frame", "C"])
    b = booster(iterations=4 if thorough() else 3, evaluation_metric="RootMeanSquaredError", early_stopping_rounds=stop, learning_rate=0.5)
    blank = b.json_dump()
    ev, lib = [], []
    x = frame(rows, kind)
    if n == 1 and boolean():
        # The training data themselves, with other targets and no weights.
        ey = [real(-1, 3), 1.0, 0.5, 1.0]
        ev.append((x, vector(ey, "array")))
        lib.append((rows, ey, [1.0] * 4))
    for i in range(len(ev), n):
        # As many rows as the training data, or fewer.
        k = 4 - 2 * i
        er = [[1.0, 0.0], [0.0, 1.0], [2.0, NAN], [1.0, 2.0]][:k]
        ey = [real(-1, 3), 1.0, 0.5, 1.0][:k]
        with_weight = choice(2)
        ew = [1.0, 0.5, 2.0, 1.0][:k]
        ev.append((frame(er, kind), vector(ey, "array" if i else "series"), vector(ew, "series")) if with_weight
                  else (frame(er, kind), vector(ey, "array")))
        lib.append((er, ey, ew if with_weight else [1.0] * k))
    b.fit(x, np.array(y), None if w is None else np.array(w), evaluation_data=ev)
    want = json.loads(symapi.lib_fit(blank, {}, set(), (rows, y, w or [1.0] * 4), lib))
    got = model(b)
    check(same_json(got["trees"], want["trees"]), "the trees are those of the library")
    h = b.get_evaluation_history()
    check(h.shape == (len(got["trees"]), n), "the history has a row per iteration and a column per set")
    e = want["evaluation_history"]
    check(e["rows"] == h.shape[0] and e["cols"] == n, "the library's history has that shape")
    for i in range(h.shape[0]):
        for j in range(n):
            # The metric of set j by the first i + 1 trees.
            er, ey, ew = lib[j]
            p = [margin(b, r, i + 1) for r in er]
            num = den = 0.0
            for a, t, q in zip(p, ey, ew):
                d = symapi.sub(a, t)
                num = symapi.add(num, symapi.mul(q, symapi.mul(d, d)))
                den += q
            check(close(symapi.mul(h[i][j], h[i][j]), symapi.div(num, den)), "history[i][j] is the metric of set j after iteration i")
    check(b.best_iteration == want["best_iteration"] and b.get_best_iteration() == b.best_iteration, "best_iteration")
    check(b.prediction_iteration == want["prediction_iteration"], "prediction_iteration")
    if stop is not None:
        k = b.best_iteration + 1
        x = frame(rows, kind)
        check(same_numbers(b.predict(x), [margin(b, r, k) for r in rows]), "predictions use the trees up to the best iteration")
    c = booster()
    c.fit(frame(rows, kind), np.array(y))
    check(c.get_evaluation_history() is None and c.best_iteration is None, "no history without evaluation data")


METHODS = [("weight", 0), ("Weight", 0), ("average", 1), ("Average", 1), ("branch-difference", 2), ("branchdifference", 2),
           ("BranchDifference", 2), ("midpoint-difference", 3), ("midpointdifference", 3), ("MidpointDifference", 3),
           ("mode-difference", 4), ("modedifference", 4), ("ModeDifference", 4), ("Shapley", 6)]


def symbolic_model(k=2, features=3, **fields):
    """A loaded model: `k` trees with a split on feature t, symbolic base score, leaf weights and split values."""
    b = GradientBooster(objective_type="SquaredLoss", initialize_base_score=False)
    ts = []
    for t in range(k):
        f = t % features
        cl, cr = 2.0 + t, 1.0
        nodes = [dict(num=0, weight_value=real(-1, 1), hessian_sum=cl + cr, depth=0, split_value=real(0, 2), split_feature=f,
                      split_gain=1.0 + t, missing_node=1 + t % 2, left_child=1, right_child=2, is_leaf=False)]
        for i, c in ((1, cl), (2, cr)):
            nodes.append(dict(num=i, weight_value=real(-1, 1), hessian_sum=c, depth=1, split_value=0.0, split_feature=0,
                              split_gain=0.0, missing_node=0, left_child=0, right_child=0, is_leaf=True))
        ts.append(nodes)
    load_trees(b, ts, base_score=real(-1, 1), **fields)
    b.n_features_ = features
    return b


def rows_of_results():
    """A model of three trees with symbolic base score, weights and split values; one to five rows of three columns with symbolic and missing
    values; contributions by every method name, leaf indices and predictions, all trees or the first two, parallel or not."""
    b = symbolic_model(3)
    rows = [[real(0, 2), NAN, 0.5], [1.0, real(0, 2), NAN], [2.0, 0.5, 1.0], [NAN, 1.5, 0.0], [0.0, 0.0, 2.0]]
    k = pick([1, 2, 3, 4, 5])
    rows = rows[:k]
    x = frame(rows, pick(["C", "F", "frame"]) if k == 2 else "C")
    n = 3
    if k % 2 == 0 and boolean():
        b.set_prediction_iteration(2)
        check(b.prediction_iteration == 2, "the prediction iteration is the one set")
        n = 2
    par = pick([None, True, False]) if k == 2 else None
    check(same_numbers(b.predict(x, parallel=par), [margin(b, r, n) for r in rows]), "predictions")
    idx = b.predict_leaf_indices(x)
    check(idx.shape == (k, n), "leaf indices have a row per record and a column per tree used")
    ts = trees(b)
    for i, r in enumerate(rows):
        for t in range(n):
            check(int(idx[i][t]) == route(ts[t], r), "leaf_indices[i][t] is the leaf record i reaches in tree t")
    name, m = pick(METHODS) if k == 2 else ("Weight", 0)
    c = b.predict_contributions(x, method=name, parallel=par)
    want = symapi.lib_contributions(b.json_dump(), rows, m)
    check(c.shape == (k, 4), "contributions have a row per record, a column per feature and the bias")
    for i in range(k):
        for j in range(4):
            check(close(c[i][j], want[4 * i + j]), "contributions are the library's, by record and feature")
        if m in (0, 1, 6):
            s = 0.0
            for j in range(4):
                s = symapi.add(s, c[i][j])
            check(close(s, margin(b, rows[i], n)), "the contributions of a record and its bias add up to its prediction")
    if name == "Average":
        d = b.predict_contributions(x)
        check(all(close(d[i][j], c[i][j]) for i in range(k) for j in range(4)), "Average is the default method")


def probability_change():
    """As rows_of_results for ProbabilityChange, all values concrete but the data."""
    b = GradientBooster(initialize_base_score=False)
    load_trees(b, [[
        dict(num=0, weight_value=0.0, hessian_sum=3.0, depth=0, split_value=1.0, split_feature=t, split_gain=1.0, missing_node=2,
             left_child=1, right_child=2, is_leaf=False),
        dict(num=1, weight_value=0.5 + t, hessian_sum=2.0, depth=1, split_value=0.0, split_feature=0, split_gain=0.0, missing_node=0,
             left_child=0, right_child=0, is_leaf=True),
        dict(num=2, weight_value=-0.75, hessian_sum=1.0, depth=1, split_value=0.0, split_feature=0, split_gain=0.0, missing_node=0,
             left_child=0, right_child=0, is_leaf=True)] for t in range(2)], base_score=0.25)
    rows = [[real(0, 2), NAN], [1.0, real(0, 2)]]
    name = pick(["ProbabilityChange", "probabilitychange", "probability-change"])
    c = b.predict_contributions(frame(rows, pick(["C", "frame"])), method=name)
    want = symapi.lib_contributions(b.json_dump(), rows, 5)
    check(c.shape == (2, 3) and all(close(c[i][k], want[3 * i + k]) for i in range(2) for k in range(3)), "contributions are the library's")


def pseudo(n, m, seed):
    """Multiples of 1/4 in [0, 4)."""
    return [[(((i * 31 + j * 17 + seed * 7) * 2654435761 >> 9) % 16) / 4 for j in range(m)] for i in range(n)]


def containers():
    """Tables of 5 times 5 and 30 times 7 with missing values and one symbolic value, in every container (also frames and Series whose
    index is not sorted, holds the same labels in another order, or repeats one label, strided and transposed views); weights or none; no, one, three or four evaluation sets, with weights or
    without; three trees."""
    n, c = pick([(5, 5), (30, 7)])
    kind = pick(KINDS + ["shuffled frame", "transposed view"])
    vk = pick(["array", "shuffled", "strided", "repeated"])
    rows = pseudo(n, c, 1)
    for i in range(n):
        if i % 4 == 1:
            rows[i][i % c] = NAN
    y = [r[0] * 2 - r[3] for r in pseudo(n, 4, 2)]
    w = pick([None, [0.5 + r[0] for r in pseudo(n, 1, 3)]])
    rows[2][1] = real(0, 4)
    sets = pick([None, 1, 3, 4])
    b = booster(iterations=3, max_depth=3, evaluation_metric="RootMeanSquaredError", initialize_base_score=True)
    blank = b.json_dump()
    ev, lib = None, None
    if sets is not None:
        ev, lib = [], []
        for i in range(sets):
            k = [n, 3, 5, 1][i]
            er, ey, ew = pseudo(k, c, 4 + i), [r[0] for r in pseudo(k, 1, 9 + i)], [0.25 + r[0] for r in pseudo(k, 1, 14 + i)]
            ev.append((frame(er, kind), vector(ey, vk), vector(ew, vk)) if i % 2 else (frame(er, kind), vector(ey, vk)))
            lib.append((er, ey, ew if i % 2 else [1.0] * k))
    x = frame(rows, kind)
    b.fit(x, vector(y, vk), None if w is None else vector(w, vk), evaluation_data=ev)
    want = json.loads(symapi.lib_fit(blank, {}, set(), (rows, y, w or [1.0] * n), lib))
    got = model(b)
    check(same_json(got["trees"], want["trees"]), "the trees are those the library grows on the same rows")
    check(same(got["base_score"], want["base_score"]), "the base score is the library's")
    h = b.get_evaluation_history()
    if sets is None:
        check(h is None, "no history without evaluation data")
    else:
        check(h.shape == (3, sets), "the history has a row per iteration and a column per set")
        e = want["evaluation_history"]["data"]
        check(all(close(h[i][j], e[i * sets + j]) for i in range(3) for j in range(sets)), "the history is the library's")
    check(same_numbers(b.predict(x), [margin(b, r) for r in rows]), "predictions are those of the trees, row by row")


HARNESSES = [containers, fit_and_predict, types, evaluation, rows_of_results, probability_change]

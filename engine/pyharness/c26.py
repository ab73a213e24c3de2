"""Partial dependence from Python: where it is evaluated and what it is there."""
from sym import *
from c22 import symbolic_model

NAN = float("nan")


def quantile(v, q):
    """Linear interpolation between order statistics."""
    v = sorted(v)
    h = (len(v) - 1) * q
    i = min(int(h), len(v) - 2) if len(v) > 1 else 0
    return v[0] if len(v) == 1 else v[i] + (h - i) * (v[i + 1] - v[i])


def grid():
    """A model of three trees with symbolic base score, weights and split values; the feature by name (its columns in the order of the
    training data, with all values or three another, or alone) or index, data as DataFrame or array with repeated and missing values (NaN, and -9 where that is the missing value); all values or 2, 3, 11 or 100 quantiles between
    the bounds; with the missing value or not."""
    miss = pick([NAN, -9.0])
    b = symbolic_model(3, **({} if isnan(miss) else {"missing": miss}))
    names = ["b", "a", "c"]
    b.feature_names_in_ = names
    b.missing = miss
    rows = [[1.0, 3.0, 2.0], [miss, 0.5, 1.0], [0.0, 3.0, 1.5], [1.0, miss, 0.25], [2.0, 1.0, 0.0], [1.5, 0.25, 1.0]]
    if boolean():
        # More rows, values of any size and nearly equal ones.
        rows += [[v, v * 1e6 + 0.5, (i % 5) * 1e-9 + 1.0] for i, v in enumerate([1.0 + 1e-12, 4.0, 2.0, miss, 3.75, -1e5, 0.125, 1.0, 3.0, miss, 7.5, 2.25, 1e-9])]
    f = choice(3)
    frame = boolean()
    x = pd.DataFrame(rows, columns=names) if frame else np.array(rows)
    k = choice(6)
    feature = f
    if frame and boolean():
        # A name finds its column wherever it stands, also alone.
        feature = names[f]
        x = x[[names, [names[2], names[0], names[1]], [feature]][choice(3) if k in (0, 3) else 0]]
    include = boolean()
    kw = [dict(samples=None), dict(samples=2, percentile_bounds=(0.0, 1.0)), dict(samples=3, percentile_bounds=(0.1, 0.8)), dict(samples=3), dict(), dict(samples=11, percentile_bounds=(0.05, 1.0))][k]
    if include:
        kw["exclude_missing"] = False
    got = b.partial_dependence(x, feature, **kw)
    vals = [r[f] for r in rows if not isnan(r[f]) and r[f] != miss]
    if k == 0:
        want = sorted(set(vals))
    else:
        lo, hi = kw.get("percentile_bounds", (0.2, 0.98))
        n = kw.get("samples", 100)
        want = [quantile(vals, lo + (hi - lo) * i / (n - 1)) for i in range(n)]
    if include:
        want = [miss] + want
    check(got.shape == (len(want), 2), "a row per value")
    text = b.json_dump()
    for g, w in zip(got, want):
        check(isnan(g[0]) if isnan(w) else abs(g[0] - w) <= 1e-9 * max(1.0, abs(w)) and (k > 0 or g[0] == w), "the values are the observed ones or their quantiles, the missing value first if asked for")
        check(close(g[1], symapi.lib_partial_dependence(text, f, float(g[0]))), "the dependence is the library's at that value, for that feature")


def refused():
    """A name with an array and a feature that is neither a name nor an index are refused."""
    b = symbolic_model(1)
    x = np.array([[0.0, real(0, 2), 1.0]])
    for f in ("a", 1.5, None):
        try:
            b.partial_dependence(x, f)
            ok = False
        except ValueError:
            ok = True
        check(ok, "a feature that cannot be found is refused")


HARNESSES = [grid, refused]

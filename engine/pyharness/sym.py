"""What the Python harnesses share: symbolic values, assertions, and the routing rule."""
import json
import os
import sys

import numpy as np
import pandas as pd
import symapi
from symapi import assume, choice, close, cover, equal, less, real, thorough

import forust
from forust import GradientBooster
from forust.forust import GradientBooster as Raw


def boolean():
    return choice(2) == 1


def pick(xs):
    return xs[choice(len(xs))]


def check(cond, msg):
    """Property assertion."""
    f = sys._getframe(1)
    symapi.reached(f"{os.path.basename(f.f_code.co_filename)[:-3]}:{f.f_lineno}")
    if not cond:
        symapi.fail(msg)


def isnan(x):
    return x != x


def same(a, b):
    """The same number (both NaN included)."""
    a, b = float(a), float(b)
    if isnan(a) or isnan(b):
        return isnan(a) and isnan(b)
    return symapi.decide_equal(a, b)


class S(float):
    """A symbolic number whose comparisons in Python code are decided by the solver."""

    def __lt__(self, o):
        return less(self, float(o))

    def __gt__(self, o):
        return less(float(o), self)

    def __le__(self, o):
        return not less(float(o), self)

    def __ge__(self, o):
        return not less(self, float(o))

    def __eq__(self, o):
        return isinstance(o, (int, float)) and equal(self, float(o))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def sreal(lo, hi):
    return S(real(lo, hi))


def model(b):
    """The saved model of a booster (the wrapper or the extension's)."""
    return json.loads(b.json_dump())


def trees(b):
    return [t["nodes"] for t in model(b)["trees"]]


F32 = ("weight_value", "hessian_sum", "split_gain")


def load_trees(b, ts, **fields):
    """Gives the booster `b` these trees (lists of nodes with f64 numbers)."""
    j = model(b)
    j.update(fields)
    j["trees"] = [{"nodes": [{k: symapi.f32_text(v) if k in F32 else v for k, v in n.items()} for n in t]} for t in ts]
    b.booster = Raw.from_json(json.dumps(j))
    for t, u in zip(ts, trees(b)):
        for n, m in zip(t, u):
            assert equal(weight(m), n["weight_value"]) and equal(m["split_value"], n["split_value"])


def same_json(a, b):
    """The same saved text, up to the text of equal symbolic numbers."""
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same_json(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same_json(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        if same(a, b):
            return True
        x, y = symapi.from_f32_text(a), symapi.from_f32_text(b)
        return same(x, y)
    return a == b


def route(nodes, row, missing=float("nan")):
    """Index of the leaf that a row reaches by the documented rule."""
    i = 0
    while not nodes[i]["is_leaf"]:
        n = nodes[i]
        v = float(row[n["split_feature"]])
        if isnan(v) or (not isnan(missing) and equal(v, missing)):
            i = n["missing_node"]
        elif less(v, float(n["split_value"])):
            i = n["left_child"]
        else:
            i = n["right_child"]
    return i


def weight(n):
    return symapi.from_f32_text(n["weight_value"])


def margin(b, row, n_trees=None):
    m = model(b)
    missing = m["missing"]
    s = float(m["base_score"])
    for t in m["trees"][:n_trees]:
        s = symapi.add(s, weight(t["nodes"][route(t["nodes"], row, missing if isinstance(missing, float) else float("nan"))]))
    return s

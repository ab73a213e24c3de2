"""Values stored as text by the package's serialisers are read back equal."""
from sym import *
from forust.serialize import NumpySerializer, ObjectSerializer, ScalerSerializer

CHARS = ["a", "'", '"', "\\", "\n", "é", " "]


def word(n):
    return "".join(pick(CHARS) for _ in range(choice(n + 1)))


def alike(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return same(a, b)
    if isinstance(a, (list, tuple)) and type(a) == type(b):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    return type(a) == type(b) and a == b


def scalars():
    """A symbolic number in [-1e6, 1e6], integers up to 64 bits, booleans, None, and strings of up to two (thorough: three) characters out of
    a letter, both quotes, backslash, newline, space and a non-ASCII letter; by the scaler and the object serialiser."""
    k = choice(4)
    v = [lambda: real(-1e6, 1e6), lambda: pick([0, -1, 2**63 - 1, 7]), lambda: pick([True, False, None]),
         lambda: word(3 if thorough() else 2)][k]()
    s = pick([ScalerSerializer(), ObjectSerializer()])
    t = s.serialize(v)
    check(isinstance(t, str), "serialised values are text")
    check(alike(s.deserialize(t), v), "a value is read back equal")


def objects():
    """Lists and dictionaries of symbolic numbers and of strings of up to two such characters."""
    x, y, w = real(-9, 9), real(-9, 9), word(2)
    v = pick([[x, y], [x], [], {"a": x, "b": y}, {w: x}, [w, "b"], {"a": w}, {}])
    s = ObjectSerializer()
    check(alike(s.deserialize(s.serialize(v)), v), "an object is read back equal")


def arrays():
    """Arrays of six numbers, two of them symbolic (or of concrete float32, integers, booleans), in one to three dimensions, both memory orders, views, and
    empty arrays."""
    kind = pick(["float64", "float32", "int64", "int8", "bool", "uint8", "uint64", "int16", ">f8", ">i4", "float16", "<U3"])
    if kind == "float64":
        a = np.array([real(-9, 9), 1.5, -2.25, 0.0, real(-9, 9), 1e300])
    else:
        a = np.array([0, 1, 2, 5, 1, 200 if kind in ("uint8", "uint64", "int16", "<U3", ">i4") else 100]).astype(kind)
    shape = pick([(6,), (2, 3), (3, 2), (6, 1), (1, 2, 3), (3, 0)])
    a = a[:0].reshape(shape) if 0 in shape else a.reshape(shape)
    how = choice(3)
    if how == 1:
        a = np.asfortranarray(a)
    elif how == 2:
        a = a.T
    s = NumpySerializer()
    b = s.deserialize(s.serialize(a))
    check(b.dtype == a.dtype and b.shape == a.shape, "an array is read back with its type and shape")
    check(all(alike(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist())), "an array is read back with its values")


HARNESSES = [scalars, objects, arrays]

"""A small stand-in for the part of numpy that simple scripts use (numpy is not installed here).

Arrays have one or two dimensions and hold Python numbers. What is missing raises Missing,
which is an error of the run, never a violation.
"""
import math
import types


class Missing(Exception):
    pass


def _seq(x):
    return isinstance(x, (list, tuple, range, ndarray))


class ndarray:
    star_is_product = False

    def __init__(self, data, shape):
        self.data = list(data)
        self.shape = tuple(shape)

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return len(self.data)

    @property
    def T(self):
        return transpose(self)

    @property
    def I(self):
        return _inv(self)

    @property
    def A(self):
        return ndarray(self.data, self.shape)

    @property
    def A1(self):
        return ndarray(self.data, (self.size,))

    @property
    def flat(self):
        return iter(self.data)

    def _like(self, data, shape):
        return type(self)(data, shape)

    def tolist(self):
        if self.ndim == 1:
            return list(self.data)
        r, c = self.shape
        return [self.data[i * c:(i + 1) * c] for i in range(r)]

    def copy(self):
        return self._like(self.data, self.shape)

    def astype(self, kind, **_):
        f = {"float": float, "int": int}.get(kind, kind) if isinstance(kind, str) else kind
        return self._like([f(x) for x in self.data], self.shape)

    def flatten(self, *_):
        return ndarray(self.data, (self.size,))

    ravel = flatten

    def squeeze(self, *_):
        return ndarray(self.data, tuple(n for n in self.shape if n != 1) or (1,))

    def item(self, *at):
        if not at:
            if self.size != 1:
                raise ValueError("can only convert an array of size 1")
            return self.data[0]
        return self.data[at[0]] if len(at) == 1 else self[at]

    def reshape(self, *shape):
        shape = list(shape[0]) if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else list(shape)
        if -1 in shape:
            k = shape.index(-1)
            rest = 1
            for i, n in enumerate(shape):
                rest *= 1 if i == k else n
            shape[k] = self.size // rest
        return self._like(self.data, shape)

    def transpose(self, *_):
        return transpose(self)

    def dot(self, other):
        return matmul(self, other)

    def sum(self):
        return sum(self.data)

    def max(self):
        return max(self.data)

    def min(self):
        return min(self.data)

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        return (self[i] for i in range(self.shape[0]))

    def __float__(self):
        return float(self.item())

    def _rows(self, key):
        r = self.shape[0]
        return (list(range(*key.indices(r))), True) if isinstance(key, slice) else ([range(r)[key]], False)

    def __getitem__(self, key):
        if self.ndim == 1:
            if isinstance(key, slice):
                d = self.data[key]
                return self._like(d, (len(d),))
            return self.data[key]
        if not isinstance(key, tuple):
            key = (key, slice(None))
        r, c = self.shape
        rows, manyr = self._rows(key[0])
        cols = list(range(*key[1].indices(c))) if isinstance(key[1], slice) else [range(c)[key[1]]]
        manyc = isinstance(key[1], slice)
        d = [self.data[i * c + j] for i in rows for j in cols]
        if not manyr and not manyc:
            return d[0]
        if isinstance(self, matrix) or (manyr and manyc):
            return self._like(d, (len(rows), len(cols)))
        return ndarray(d, (len(d),))

    def __setitem__(self, key, value):
        if self.ndim == 1:
            if isinstance(key, slice):
                at = list(range(*key.indices(self.size)))
            else:
                at = [range(self.size)[key]]
        else:
            if not isinstance(key, tuple):
                key = (key, slice(None))
            r, c = self.shape
            rows, _ = self._rows(key[0])
            cols = list(range(*key[1].indices(c))) if isinstance(key[1], slice) else [range(c)[key[1]]]
            at = [i * c + j for i in rows for j in cols]
        v = array(value).data if _seq(value) else [value] * len(at)
        if len(v) == 1:
            v = v * len(at)
        if len(v) != len(at):
            raise ValueError("could not broadcast")
        for i, x in zip(at, v):
            self.data[i] = x

    def _with(self, other, f):
        if not _seq(other):
            return self._like([f(x, other) for x in self.data], self.shape)
        o = array(other) if not isinstance(other, ndarray) else other
        a, b = self, o
        n = max(a.ndim, b.ndim)
        sa, sb = (1,) * (n - a.ndim) + a.shape, (1,) * (n - b.ndim) + b.shape
        for x, y in zip(sa, sb):
            if x != y and 1 not in (x, y):
                raise ValueError("operands could not be broadcast together")
        shape = tuple(max(x, y) for x, y in zip(sa, sb))
        kind = matrix if isinstance(a, matrix) or isinstance(b, matrix) else ndarray
        if n == 1:
            return kind([f(a.data[i % sa[0]], b.data[i % sb[0]]) for i in range(shape[0])], shape)
        return kind([f(a.data[i % sa[0] * sa[1] + j % sa[1]], b.data[i % sb[0] * sb[1] + j % sb[1]])
                     for i in range(shape[0]) for j in range(shape[1])], shape)

    def __add__(self, o):
        return self._with(o, lambda x, y: x + y)

    __radd__ = __add__

    def __sub__(self, o):
        return self._with(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self._with(o, lambda x, y: y - x)

    def __mul__(self, o):
        if isinstance(self, matrix) and _seq(o) or isinstance(o, matrix):
            return matmul(self, o)
        return self._with(o, lambda x, y: x * y)

    def __rmul__(self, o):
        if isinstance(self, matrix) and _seq(o):
            return matmul(o, self)
        return self._with(o, lambda x, y: x * y)

    def __truediv__(self, o):
        return self._with(o, lambda x, y: x / y)

    def __rtruediv__(self, o):
        return self._with(o, lambda x, y: y / x)

    def __pow__(self, o):
        return self._with(o, lambda x, y: x ** y)

    def __neg__(self):
        return self._like([-x for x in self.data], self.shape)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(o, self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Missing("array." + name)


class matrix(ndarray):
    def __init__(self, data, shape=None, **_):
        if shape is None or isinstance(shape, type):
            a = array(data)
            data, shape = a.data, a.shape if a.ndim == 2 else (1, a.size)
        super().__init__(data, shape if len(shape) == 2 else (1, shape[0]))

    def flatten(self, *_):
        return matrix(self.data, (1, self.size))


def array(x, dtype=None, ndmin=1, **_):
    if isinstance(x, ndarray):
        a = ndarray(x.data, x.shape)
    elif not _seq(x):
        return x
    else:
        rows = list(x)
        if rows and _seq(rows[0]):
            rows = [array(r).data for r in rows]
            if any(len(r) != len(rows[0]) for r in rows):
                raise ValueError("inhomogeneous shape")
            a = ndarray([v for r in rows for v in r], (len(rows), len(rows[0])))
        else:
            a = ndarray([v.item() if isinstance(v, ndarray) else v for v in rows], (len(rows),))
    if ndmin == 2 and a.ndim == 1:
        a = ndarray(a.data, (1, a.size))
    return a.astype(dtype) if dtype in (float, int) else a


def transpose(a, *_):
    a = a if isinstance(a, ndarray) else array(a)
    if a.ndim == 1:
        return a
    r, c = a.shape
    return type(a)([a.data[i * c + j] for j in range(c) for i in range(r)], (c, r))


def matmul(a, b):
    a = a if isinstance(a, ndarray) else array(a)
    b = b if isinstance(b, ndarray) else array(b)
    if not isinstance(a, ndarray) or not isinstance(b, ndarray):
        return a * b
    ra, ca = a.shape if a.ndim == 2 else (1, a.size)
    rb, cb = b.shape if b.ndim == 2 else (b.size, 1)
    if ca != rb:
        raise ValueError("matmul: mismatch %r %r" % (a.shape, b.shape))
    d = [sum(a.data[i * ca + k] * b.data[k * cb + j] for k in range(ca)) for i in range(ra) for j in range(cb)]
    if a.ndim == 1 and b.ndim == 1:
        return d[0]
    if isinstance(a, matrix) or isinstance(b, matrix):
        return matrix(d, (ra, cb))
    return ndarray(d, (ra, cb) if a.ndim == b.ndim == 2 else (len(d),))


def _solve(a, b):
    a = array(a)
    n = a.shape[0]
    kind = b
    b = array(b)
    w = b.shape[1] if b.ndim == 2 else 1
    m = [list(map(float, a.data[i * n:(i + 1) * n])) + list(map(float, b.data[i * w:(i + 1) * w])) for i in range(n)]
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(m[i][k]))
        if m[p][k] == 0.0:
            raise ArithmeticError("Singular matrix")
        m[k], m[p] = m[p], m[k]
        for i in range(k + 1, n):
            f = m[i][k] / m[k][k]
            for j in range(k, n + w):
                m[i][j] -= f * m[k][j]
    for k in range(n - 1, -1, -1):
        for j in range(n, n + w):
            m[k][j] = (m[k][j] - sum(m[k][i] * m[i][j] for i in range(k + 1, n))) / m[k][k]
    d = [m[i][n + j] for i in range(n) for j in range(w)]
    return (matrix if isinstance(kind, matrix) else ndarray)(d, b.shape)


def _inv(a):
    x = _solve(a, _eye(a.shape[0]))
    return matrix(x.data, x.shape) if isinstance(a, matrix) else x


def _eye(n, *_, **__):
    return ndarray([1.0 if i == j else 0.0 for i in range(n) for j in range(n)], (n, n))


def _full(shape, v):
    shape = (shape,) if isinstance(shape, int) else tuple(shape)
    n = 1
    for s in shape:
        n *= s
    return ndarray([v] * n, shape)


def _each(f):
    def g(x, *_, **__):
        if _seq(x):
            a = x if isinstance(x, ndarray) else array(x)
            return a._like([f(v) for v in a.data], a.shape)
        return f(x)
    return g


def _each2(f):
    def g(x, y):
        if _seq(x):
            return (x if isinstance(x, ndarray) else array(x))._with(y, f)
        if _seq(y):
            return (y if isinstance(y, ndarray) else array(y))._with(x, lambda p, q: f(q, p))
        return f(x, y)
    return g


def _cross(a, b):
    a, b = array(a).data, array(b).data
    return ndarray([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], (3,))


def _norm(a, *_):
    return math.sqrt(sum(x * x for x in array(a).data))


def _arange(*a):
    if all(isinstance(x, int) for x in a):
        d = list(range(*a))
    else:
        lo, hi, st = (0.0, a[0], 1.0) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1.0)
        d = [lo + i * st for i in range(max(0, math.ceil((hi - lo) / st)))]
    return ndarray(d, (len(d),))


def _linspace(lo, hi, n=50):
    return ndarray([lo + (hi - lo) * i / (n - 1) for i in range(n)] if n > 1 else [lo], (n,))


def _stack(rows):
    rows = [array(r) for r in rows]
    return ndarray([v for r in rows for v in r.data], (sum(r.shape[0] if r.ndim == 2 else 1 for r in rows), rows[0].shape[-1]))


def _concatenate(parts, axis=0):
    parts = [array(p) for p in parts]
    if parts[0].ndim == 1:
        d = [v for p in parts for v in p.data]
        return ndarray(d, (len(d),))
    return _stack(parts) if axis == 0 else transpose(_stack([transpose(p) for p in parts]))


class _Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Missing("numpy." + name)


def module():
    np = _Module("numpy")
    la = _Module("numpy.linalg")
    la.inv, la.solve, la.norm = _inv, _solve, _norm
    for k, v in {
        "linalg": la, "ndarray": ndarray, "array": array, "asarray": array, "matrix": matrix, "asmatrix": matrix, "mat": matrix,
        "transpose": transpose, "matmul": matmul, "dot": matmul, "eye": _eye, "identity": _eye, "cross": _cross,
        "zeros": lambda s, *_, **__: _full(s, 0.0), "ones": lambda s, *_, **__: _full(s, 1.0), "empty": lambda s, *_, **__: _full(s, 0.0),
        "full": lambda s, v, *_, **__: _full(s, v), "empty_like": lambda a, *_, **__: _full(array(a).shape, 0.0),
        "zeros_like": lambda a, *_, **__: _full(array(a).shape, 0.0),
        "radians": _each(math.radians), "deg2rad": _each(math.radians), "degrees": _each(math.degrees), "rad2deg": _each(math.degrees),
        "sin": _each(math.sin), "cos": _each(math.cos), "tan": _each(math.tan), "sqrt": _each(math.sqrt), "abs": _each(abs),
        "arcsin": _each(math.asin), "arccos": _each(math.acos), "arctan": _each(math.atan), "arctan2": _each2(math.atan2),
        "add": _each2(lambda x, y: x + y), "subtract": _each2(lambda x, y: x - y), "multiply": _each2(lambda x, y: x * y),
        "divide": _each2(lambda x, y: x / y), "negative": _each(lambda x: -x), "pi": math.pi, "nan": math.nan, "inf": math.inf,
        "arange": _arange, "linspace": _linspace, "vstack": _stack, "concatenate": _concatenate,
        "hstack": lambda p: _concatenate(p, 1), "column_stack": lambda p: transpose(_stack(p)),
        "sum": lambda a: array(a).sum(), "ravel": lambda a: array(a).flatten(), "reshape": lambda a, s: array(a).reshape(s),
        "float64": float, "float32": float, "isnan": _each(math.isnan), "isfinite": _each(math.isfinite),
        "diff": lambda a: ndarray([y - x for x, y in zip(array(a).data, array(a).data[1:])], (array(a).size - 1,)),
    }.items():
        setattr(np, k, v)
    return np

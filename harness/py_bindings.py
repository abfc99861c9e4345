"""Generated programs against the Python bindings, compared with numpy and a reference expression model.

  py_bindings.py PKGDIR run --prop P --seed S --cases N --out F --replay-out F --budget T
  py_bindings.py PKGDIR replay --prop P --file F

A case is a list of operations; each operation is a list of small integers that the
interpreter decodes modulo whatever exists at that point, so every list is a valid program,
the saved list is the replay file and Hypothesis shrinks it directly.
"""
import json
import math
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

import numpy as np

PKG = sys.argv[1]
sys.path.insert(0, PKG)
sys.dont_write_bytecode = True

import sleipnir  # noqa: E402
from sleipnir import autodiff as ad  # noqa: E402
from sleipnir.autodiff import ExpressionType, Gradient, Hessian, Jacobian, Variable, VariableMatrix  # noqa: E402
from sleipnir.optimization import (  # noqa: E402
    OCP, DynamicsType, EqualityConstraints, ExitStatus, InequalityConstraints, Problem, TimestepMethod,
    TranscriptionMethod, bounds, multistart)


class Bad(Exception):
    """The property does not hold."""


class Skip(Exception):
    """The case left the domain of the reference."""


# ---------------------------------------------------------------- reference expressions
class T2:
    """Value, gradient and Hessian with respect to n chosen leaves."""
    __slots__ = ("v", "g", "H")

    def __init__(self, v, g, H):
        self.v, self.g, self.H = v, g, H


def un(x, f, f1, f2):
    return T2(f, f1 * x.g, f1 * x.H + f2 * np.outer(x.g, x.g))


def add(a, b):
    return T2(a.v + b.v, a.g + b.g, a.H + b.H)


def mul(a, b):
    o = np.outer(a.g, b.g)
    return T2(a.v * b.v, a.v * b.g + b.v * a.g, a.v * b.H + b.v * a.H + o + o.T)


def neg(a):
    return T2(-a.v, -a.g, -a.H)


def inv(a):
    if abs(a.v) < 0.2:
        raise Skip
    return un(a, 1 / a.v, -1 / a.v**2, 2 / a.v**3)


def need(c):
    if not c:
        raise Skip


def f_exp(x):
    need(x.v < 8)
    e = math.exp(x.v)
    return un(x, e, e, e)


def f_log(x):
    need(x.v > 0.1)
    return un(x, math.log(x.v), 1 / x.v, -1 / x.v**2)


def f_sqrt(x):
    need(x.v > 0.1)
    s = math.sqrt(x.v)
    return un(x, s, 0.5 / s, -0.25 / s**3)


def f_acos(x):
    need(abs(x.v) < 0.9)
    d = 1 - x.v**2
    return un(x, math.acos(x.v), -d**-0.5, -x.v * d**-1.5)


def f_asin(x):
    need(abs(x.v) < 0.9)
    d = 1 - x.v**2
    return un(x, math.asin(x.v), d**-0.5, x.v * d**-1.5)


def f_atan(x):
    d = 1 + x.v**2
    return un(x, math.atan(x.v), 1 / d, -2 * x.v / d**2)


def f_cbrt(x):
    need(abs(x.v) > 0.1)
    c = float(np.cbrt(x.v))
    return un(x, c, 1 / (3 * c * c), -2 / (9 * c**5))


def f_tan(x):
    need(abs(math.cos(x.v)) > 0.2)
    t = math.tan(x.v)
    return un(x, t, 1 + t * t, 2 * t * (1 + t * t))


def f_tanh(x):
    t = math.tanh(x.v)
    return un(x, t, 1 - t * t, -2 * t * (1 - t * t))


def f_abs(x):
    need(abs(x.v) > 1e-3)
    return un(x, abs(x.v), math.copysign(1, x.v), 0)


def f_sign(x):
    need(abs(x.v) > 1e-3)
    return un(x, math.copysign(1, x.v), 0, 0)


def f_erf(x):
    k = 2 / math.sqrt(math.pi) * math.exp(-x.v**2)
    return un(x, math.erf(x.v), k, -2 * x.v * k)


def f_log10(x):
    r = f_log(x)
    k = 1 / math.log(10)
    return T2(r.v * k, r.g * k, r.H * k)


def f_cosh(x):
    need(abs(x.v) < 8)
    return un(x, math.cosh(x.v), math.sinh(x.v), math.cosh(x.v))


def f_sinh(x):
    need(abs(x.v) < 8)
    return un(x, math.sinh(x.v), math.cosh(x.v), math.sinh(x.v))


UNARY = {
    "abs": f_abs, "acos": f_acos, "asin": f_asin, "atan": f_atan, "cbrt": f_cbrt,
    "cos": lambda x: un(x, math.cos(x.v), -math.sin(x.v), -math.cos(x.v)), "cosh": f_cosh, "erf": f_erf, "exp": f_exp,
    "log": f_log, "log10": f_log10, "sign": f_sign, "sin": lambda x: un(x, math.sin(x.v), math.cos(x.v), -math.sin(x.v)),
    "sinh": f_sinh, "sqrt": f_sqrt, "tan": f_tan, "tanh": f_tanh,
}


def f_powi(x, p):
    if p == 0:
        return un(x, 1.0, 0.0, 0.0)
    if p < 0 or abs(x.v) < 1e-3:
        need(abs(x.v) > 0.2)
    d1 = p * x.v ** (p - 1)
    d2 = p * (p - 1) * x.v ** (p - 2) if p != 1 else 0.0
    return un(x, x.v**p, d1, d2)


def f_pow(a, b):
    need(a.v > 0.2)
    return f_exp(mul(b, f_log(a)))


def f_hypot(*xs):
    s = mul(xs[0], xs[0])
    for x in xs[1:]:
        s = add(s, mul(x, x))
    return f_sqrt(s)


def f_atan2(y, x):
    r2 = x.v**2 + y.v**2
    need(r2 > 0.1 and not (x.v < 0 and abs(y.v) < 1e-3))
    n = len(x.g)
    v = math.atan2(y.v, x.v)
    # d atan2 = (x dy - y dx)/r2
    g = (x.v * y.g - y.v * x.g) / r2
    fy, fx = x.v / r2, -y.v / r2
    fyy, fxx, fxy = -2 * x.v * y.v / r2**2, 2 * x.v * y.v / r2**2, (y.v**2 - x.v**2) / r2**2
    H = (fy * y.H + fx * x.H + fyy * np.outer(y.g, y.g) + fxx * np.outer(x.g, x.g)
         + fxy * (np.outer(x.g, y.g) + np.outer(y.g, x.g)))
    return T2(v, g, H.reshape(n, n))


def f_max(a, b):
    need(abs(a.v - b.v) > 1e-3)
    return a if a.v > b.v else b


def f_min(a, b):
    need(abs(a.v - b.v) > 1e-3)
    return a if a.v < b.v else b


BINARY = {"atan2": f_atan2, "hypot": f_hypot, "max": f_max, "min": f_min, "pow": f_pow}


class Node:
    __slots__ = ("f", "args", "val", "leaf")

    def __init__(self, f=None, args=(), val=0.0, leaf=False):
        self.f, self.args, self.val, self.leaf = f, args, val, leaf


def const(v):
    return Node(val=float(v))


def ev(node, wrt=()):
    """T2 of a node; wrt: leaves to differentiate by."""
    n = len(wrt)
    pos = {}
    for k, w in enumerate(wrt):
        pos[id(w)] = k
    memo = {}

    def go(x):
        r = memo.get(id(x))
        if r is None:
            if x.f is None:
                g = np.zeros(n)
                if id(x) in pos:
                    g[pos[id(x)]] = 1.0
                r = T2(x.val, g, np.zeros((n, n)))
            else:
                r = x.f(*[go(a) for a in x.args])
                if not (abs(r.v) < 1e6):
                    raise Skip
            memo[id(x)] = r
        return r

    return go(node)


def val(node):
    return ev(node).v


def vals(arr):
    out = np.zeros(arr.shape)
    for i in np.ndindex(*arr.shape):
        out[i] = val(arr[i])
    return out


def obj(r, c):
    return np.empty((r, c), dtype=object)


def lift(a):
    """Object array of constants."""
    a = np.asarray(a)
    o = obj(*a.shape)
    for i in np.ndindex(*a.shape):
        o[i] = const(a[i])
    return o


def mm(A, B):
    o = obj(A.shape[0], B.shape[1])
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            s = None
            for k in range(A.shape[1]):
                t = Node(mul, (A[i, k], B[k, j]))
                s = t if s is None else Node(add, (s, t))
            o[i, j] = s if s is not None else const(0)
    return o


def ew(f, *ms):
    o = obj(*ms[0].shape)
    for i in np.ndindex(*o.shape):
        o[i] = Node(f, tuple(m[i] for m in ms))
    return o


def sub(a, b):
    return add(a, neg(b))


def div(a, b):
    return mul(a, inv(b))


def det_inv(A):
    """Reference of solve(): numpy on values only."""
    return np.linalg.inv(A)


DTYPES = [np.float64, np.float32, np.int64, np.int32]


def close(a, b, tol=1e-8):
    return abs(a - b) <= tol * (1 + abs(b))


class Cursor:
    def __init__(self, op):
        self.op, self.k = op, 0

    def n(self, m):
        """0 .. m-1"""
        x = self.op[self.k] if self.k < len(self.op) else 0
        self.k += 1
        return x % m if m > 0 else 0

    def v(self):
        """a value on a grid"""
        x = self.n(41)
        return (x // 2 if x % 2 == 0 else -(x // 2) - 1) / 4

    def i(self):
        """a small integer"""
        x = self.n(9)
        return x // 2 if x % 2 == 0 else -(x // 2) - 1


class Machine:
    """State of one generated program."""

    def __init__(self):
        self.log = []
        self.labels = set()
        self.mats = []   # (slp object, numpy object array, is_block)
        self.vars = []   # (Variable, Node)
        self.leafmats = []  # indices of matrices created as decision variables
        self.nontrivial = 0

    def say(self, s):
        self.log.append(s)

    def put(self, m, a, block=False, name=None):
        if a.size == 0 or a.size > 16:
            return
        if len(self.mats) >= 10:
            # views keep their matrices alive, so any entry can go
            self.mats.pop(0)
        self.mats.append((m, a, block))

    def putv(self, v, n):
        if len(self.vars) >= 12:
            self.vars.pop(0)
        self.vars.append((v, n))

    def mat(self, c):
        return self.mats[c.n(len(self.mats))] if self.mats else self.fresh(c)

    def var(self, c):
        if not self.vars:
            v = Variable()
            x = c.v()
            v.set_value(x)
            self.vars.append((v, Node(val=x, leaf=True)))
        return self.vars[c.n(len(self.vars))]

    def array(self, c, r, k, dt=None, positive=False):
        """A numpy array in one of several dtypes and memory layouts."""
        dt = dt or DTYPES[c.n(4)]
        layout = c.n(5)
        a = np.array([[c.v() for _ in range(k)] for _ in range(r)], dtype=float).reshape(r, k)
        if dt in (np.int64, np.int32):
            a = np.trunc(a)
        a = a.astype(dt)
        if layout == 0:
            b = np.ascontiguousarray(a)
        elif layout == 1:
            b = np.asfortranarray(a)
        elif layout == 2:
            big = np.full((2 * r + 1, 3 * k + 1), 7, dtype=dt)
            big[1::2, 1::3][:r, :k] = a
            b = big[1::2, 1::3][:r, :k]
        elif layout == 3:
            b = np.ascontiguousarray(a.T).T
        else:
            b = np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
        if layout >= 2:
            self.labels.add("strided numpy array")
        return b

    def fresh(self, c):
        r, k = 1 + c.n(3), 1 + c.n(3)
        m = VariableMatrix(r, k)
        a = obj(r, k)
        for i in np.ndindex(r, k):
            a[i] = Node(leaf=True)
        if not np.array_equal(m.value(), np.zeros((r, k))):
            raise Bad(f"VariableMatrix({r}, {k}) is not zero: {m.value()}")
        self.put(m, a)
        self.setv(m, a, c)
        self.say(f"new {r}x{k} variables")
        return self.mats[-1]

    def setv(self, m, a, c):
        x = self.array(c, *a.shape)
        m.set_value(x)
        for i in np.ndindex(*a.shape):
            a[i].val = float(x[i])

    # ------------------------------------------------------------ checks
    def check(self, m, a, what):
        shape = (m.rows(), m.cols())
        if shape != a.shape or m.shape != a.shape or len(m) != a.shape[0]:
            raise Bad(f"{what}: shape {shape}, shape property {m.shape}, len {len(m)} instead of {a.shape}")
        want = vals(a)
        got = m.value()
        if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-8 * (1 + np.abs(want))):
            raise Bad(f"{what}: value\n{got}\ninstead of\n{want}")

    def check_var(self, v, n, what):
        w = val(n)
        if not close(v.value(), w):
            raise Bad(f"{what}: {v.value()} instead of {w}")

    # ------------------------------------------------------------ operations
    def index_spec(self, c, n):
        """An index along an axis of length n: ('i', int) or a slice."""
        k = c.n(4)
        if k < 2 and n > 0:
            i = c.n(2 * n) - n
            if i < 0:
                self.labels.add("negative index")
            return i
        f = lambda: None if c.n(3) == 0 else c.n(2 * n + 5) - n - 2  # noqa: E731
        start, stop = f(), f()
        step = [None, 1, 2, -1, -2, 3][c.n(6)]
        if step is not None and step < 0:
            self.labels.add("negative step")
        return slice(start, stop, step)

    @staticmethod
    def np_index(a, r, k):
        """2-D view of a numpy array (an integer keeps its axis)."""
        fix = lambda s, n: s if isinstance(s, slice) else slice(s % n, s % n + 1)  # noqa: E731
        return a[fix(r, a.shape[0]), fix(k, a.shape[1])]

    def op_index(self, c):
        m, a, _ = self.mat(c)
        r, k = self.index_spec(c, a.shape[0]), self.index_spec(c, a.shape[1])
        self.say(f"m[{r}, {k}] of {a.shape}")
        if not isinstance(r, slice) and not isinstance(k, slice):
            v = m[r, k]
            if not isinstance(v, Variable):
                raise Bad(f"m[int, int] is a {type(v)}")
            self.check_var(v, a[r, k], f"m[{r}, {k}]")
            self.putv(v, a[r, k])
            return
        b, w = m[r, k], self.np_index(a, r, k)
        self.check(b, w, f"m[{r}, {k}]")
        self.nontrivial += 1
        self.put(b, w, True)

    def op_flat(self, c):
        m, a, _ = self.mat(c)
        i = c.n(2 * a.size) - a.size
        cell = a[divmod(i % a.size, a.shape[1])]
        self.say(f"m[{i}] of {a.shape}")
        v = m[i]
        self.check_var(v, cell, f"m[{i}]")
        if not close(m.value(i % a.size), val(cell)):
            raise Bad(f"value({i}) is {m.value(i % a.size)} instead of {val(cell)}")
        rr, cc = divmod(i % a.size, a.shape[1])
        if not close(m.value(rr, cc), val(cell)):
            raise Bad(f"value({rr}, {cc}) is {m.value(rr, cc)} instead of {val(cell)}")
        self.putv(+v, cell)

    def op_rowcol(self, c):
        m, a, _ = self.mat(c)
        k = c.n(4)
        if k == 0:
            i = c.n(a.shape[0])
            b, w = m.row(i), a[i:i + 1, :]
        elif k == 1:
            i = c.n(a.shape[1])
            b, w = m.col(i), a[:, i:i + 1]
        elif k == 2:
            b, w = m.T, a.T.copy()
        else:
            got = [x.value() for x in m]
            want = [val(x) for x in a.reshape(-1)]
            if len(got) != len(want) or not all(close(x, y) for x, y in zip(got, want)):
                raise Bad(f"iteration gives {got} instead of {want}")
            return
        self.say(["row", "col", "T"][k])
        self.check(b, w, ["row", "col", "T"][k])
        self.put(b, w, k < 2)

    def op_new(self, c):
        k = c.n(10)
        r, q = 1 + c.n(3), 1 + c.n(3)
        if k < 4:
            return self.fresh(c)
        if k == 4:
            x = self.array(c, r, q, DTYPES[c.n(2)])
            m, a, what = VariableMatrix(x), lift(x), f"VariableMatrix({x.dtype} array)"
        elif k == 5:
            x = [[c.v() for _ in range(q)] for _ in range(r)]
            m, a, what = VariableMatrix(x), lift(np.array(x).reshape(r, q)), "VariableMatrix(list)"
        elif k == 6:
            g = [[self.var(c) for _ in range(q)] for _ in range(r)]
            a = obj(r, q)
            for i in np.ndindex(r, q):
                a[i] = g[i[0]][i[1]][1]
            m, what = VariableMatrix([[x[0] for x in row] for row in g]), "VariableMatrix(list of variables)"
        elif k == 7:
            b, w, blk = self.mat(c)
            if not blk:
                v, n = self.var(c)
                m, a, what = VariableMatrix(v), np.array([[n]], dtype=object), "VariableMatrix(variable)"
            else:
                m, a, what = VariableMatrix(b), w.copy(), "VariableMatrix(block)"
        elif k == 8:
            x = c.v()
            t = c.n(4)
            if t == 0:
                m, a = VariableMatrix.identity(r), lift(np.eye(r))
            elif t == 1:
                m, a = VariableMatrix.zero(r, q), lift(np.zeros((r, q)))
            elif t == 2:
                m, a = VariableMatrix.one(r, q), lift(np.ones((r, q)))
            else:
                m, a = VariableMatrix.constant(r, q, x), lift(np.full((r, q), x))
            what = ["identity", "zero", "one", "constant"][t]
        else:
            m = VariableMatrix(r)
            a = obj(r, 1)
            for i in range(r):
                a[i, 0] = Node(leaf=True)
            what = "VariableMatrix(rows)"
        self.say(what)
        self.check(m, a, what)
        self.put(m, a)

    def op_newvar(self, c):
        x = c.v()
        if c.n(4) == 0:
            v, n = Variable(x), const(x)
        else:
            v, n = Variable(), Node(val=x, leaf=True)
            v.set_value(x)
        self.say(f"new variable {x}")
        self.check_var(v, n, "Variable")
        self.putv(v, n)

    def scalar(self, c):
        """(operand, Node)"""
        k = c.n(3)
        if k == 0:
            return self.var(c)
        if k == 1:
            x = c.v()
            return x, const(x)
        x = c.i()
        return x, const(x)

    def op_arith(self, c):
        m, a, _ = self.mat(c)
        o = c.n(8)
        if o < 2:  # + - with matrices or numpy arrays
            f, nf = [(lambda x, y: x + y, add), (lambda x, y: x - y, sub)][o]
            k = c.n(4)
            if k == 0:
                ms = [t for t in self.mats if t[1].shape == a.shape]
                y, w, _ = ms[c.n(len(ms))]
                r, ra, what = f(m, y), ew(nf, a, w), "matrix +- matrix"
            elif k == 1:
                y = self.array(c, *a.shape)
                r, ra, what = f(m, y), ew(nf, a, lift(y)), f"matrix {'+-'[o]} {y.dtype} array"
                self.labels.add("numpy operand")
            elif k == 2:
                y = self.array(c, *a.shape)
                r, ra, what = f(y, m), ew(nf, lift(y), a), f"{y.dtype} array {'+-'[o]} matrix"
                self.labels.add("numpy operand")
            else:
                if a.shape != (1, 1):
                    return
                y, n = self.scalar(c)
                if c.n(2):
                    r, ra, what = f(m, y), ew(nf, a, np.array([[n]], dtype=object)), f"1x1 {'+-'[o]} scalar"
                else:
                    r, ra, what = f(y, m), ew(nf, np.array([[n]], dtype=object), a), f"scalar {'+-'[o]} 1x1"
                if isinstance(r, Variable):  # a 1x1 matrix and a scalar: either kind of scalar result
                    self.say(what)
                    self.check_var(r, ra[0, 0], what)
                    return self.putv(r, ra[0, 0])
        elif o == 2:
            y, n = self.scalar(c)
            if c.n(2):
                r, what = m * y, "matrix * scalar"
            else:
                r, what = y * m, "scalar * matrix"
            ra = ew(lambda x, s: mul(x, s), a, np.full(a.shape, n, dtype=object))
        elif o == 3:
            y, n = self.scalar(c)
            need(abs(val(n)) > 0.2)
            r, ra, what = m / y, ew(div, a, np.full(a.shape, n, dtype=object)), "matrix / scalar"
        elif o in (4, 5):
            k = c.n(3)
            if k == 0:
                ms = [t for t in self.mats if t[1].shape[0] == a.shape[1]]
                if not ms:
                    return
                y, w, _ = ms[c.n(len(ms))]
                r, ra, what = (m @ y if o == 4 else m * y), mm(a, w), "matrix @ matrix"
            elif k == 1:
                y = self.array(c, a.shape[1], 1 + c.n(3))
                r, ra, what = m @ y, mm(a, lift(y)), f"matrix @ {y.dtype} array"
                self.labels.add("numpy operand")
            else:
                y = self.array(c, 1 + c.n(3), a.shape[0])
                r, ra, what = y @ m, mm(lift(y), a), f"{y.dtype} array @ matrix"
                self.labels.add("numpy operand")
        elif o == 6:
            r, ra, what = -m, ew(neg, a), "-matrix"
        else:
            p = c.n(5)
            if p == 0 and not all(x.leaf for x in a.reshape(-1)):
                p = 1  # the library folds pow(0, 0) of constants to 0 (its own tests pin that)
            r, ra, what = m ** p, ew(lambda x: f_powi(x, p), a), f"matrix ** {p}"
        self.say(what)
        self.check(r, ra, what)
        self.nontrivial += 1
        self.put(r, ra)

    def op_math(self, c):
        name = list(UNARY)[c.n(len(UNARY))]
        f, nf = getattr(ad, name), UNARY[name]
        k = c.n(3)
        self.say(f"{name} kind {k}")
        if k == 0:
            v, n = self.var(c)
            w = Node(nf, (n,))
            r = f(v)
            self.check_var(r, w, name)
            self.putv(r, w)
        elif k == 1:
            m, a, _ = self.mat(c)
            w = ew(nf, a)
            r = f(m)
            self.check(r, w, f"{name}(matrix)")
            self.put(r, w)
        else:
            x = c.v()
            w = Node(nf, (const(x),))
            self.check_var(f(x), w, f"{name}({x})")

    def op_math2(self, c):
        if c.n(5) == 0:
            name, args = "hypot", [self.scalar_d(c) for _ in range(3)]
        else:
            name = list(BINARY)[c.n(len(BINARY))]
            args = [self.scalar_d(c) for _ in range(2)]
        w = Node(BINARY[name], tuple(a[1] for a in args))
        val(w)
        r = getattr(ad, name)(*[a[0] for a in args])
        self.say(f"{name} of {[type(a[0]).__name__ for a in args]}")
        self.check_var(r, w, name)
        self.nontrivial += 1
        self.putv(r, w)

    def scalar_d(self, c):
        if c.n(3) == 0:
            x = c.v()
            return x, const(x)
        return self.var(c)

    def op_vararith(self, c):
        v, n = self.var(c)
        y, w = self.scalar(c)
        o = c.n(7)
        rev = c.n(2)
        F = [(lambda p, q: p + q, add), (lambda p, q: p - q, sub), (lambda p, q: p * q, mul), (lambda p, q: p / q, div)]
        if o < 4:
            f, nf = F[o]
            if rev:
                node = Node(nf, (w, n))
                val(node)
                r = f(y, v)
            else:
                node = Node(nf, (n, w))
                val(node)
                r = f(v, y)
            what = "+-*/"[o]
        elif o == 4:
            p = c.n(6) - 1
            if p == 0 and not n.leaf:
                p = 1
            node = Node(lambda x: f_powi(x, p), (n,))
            val(node)
            r, what = v ** p, f"** {p}"
        elif o == 5:
            node, r, what = Node(neg, (n,)), -v, "-variable"
        else:
            k = c.n(4)
            node = Node(F[k][1], (n, w))
            val(node)
            r = +v
            before = val(n)
            if k == 0:
                r += y
            elif k == 1:
                r -= y
            elif k == 2:
                r *= y
            else:
                r /= y
            what = "+-*/"[k] + "="
            if not close(v.value(), before):
                raise Bad(f"{what} on a copy changed the original")
        self.say(f"variable {what} {'reversed' if rev else ''}")
        self.check_var(r, node, f"variable {what}")
        self.putv(r, node)

    def op_assign(self, c):
        m, a, _ = self.mat(c)
        k = c.n(4)
        if k == 0:
            i = c.n(2 * a.size) - a.size
            v, n = self.var(c)
            m[i] = v
            a[divmod(i % a.size, a.shape[1])] = n
            self.say(f"m[{i}] = variable")
        elif k == 1:
            r, q = c.n(2 * a.shape[0]) - a.shape[0], c.n(2 * a.shape[1]) - a.shape[1]
            y, n = self.scalar(c)
            m[r, q] = y
            a[r, q] = n
            self.say(f"m[{r}, {q}] = {type(y).__name__}")
        elif k == 2:
            r, q = self.index_spec(c, a.shape[0]), self.index_spec(c, a.shape[1])
            w = self.np_index(a, r, q)
            if w.size == 0:
                return
            y = self.array(c, *w.shape)
            m[r, q] = y
            w[...] = lift(y)
            self.say(f"m[{r}, {q}] = {y.dtype} array")
        else:
            r, q = self.index_spec(c, a.shape[0]), self.index_spec(c, a.shape[1])
            w = self.np_index(a, r, q)
            ms = [t for t in self.mats if t[1].shape == w.shape and not np.shares_memory(t[1], w)]
            if not ms:
                return
            y, u, _ = ms[c.n(len(ms))]
            m[r, q] = y
            w[...] = u
            self.say(f"m[{r}, {q}] = {type(y).__name__}")
        self.labels.add("element or block assignment")
        self.nontrivial += 1
        self.check(m, a, "after assignment")

    def op_idiv(self, c):
        m, a, blk = self.mat(c)
        y, n = self.scalar(c)
        need(abs(val(n)) > 0.2)
        m /= y
        # every element is divided by the value the scalar had before
        a[...] = ew(div, a, np.full(a.shape, n, dtype=object))
        self.say("m /= scalar")
        self.check(m, a, "m /= scalar")

    def op_set(self, c):
        k = c.n(2)
        if k == 0:
            vs = [t for t in self.vars if t[1].leaf]
            if not vs:
                return
            v, n = vs[c.n(len(vs))]
            n.val = c.v()
            v.set_value(n.val)
            self.say(f"set variable {n.val}")
        else:
            ms = [t for t in self.mats if all(x.leaf for x in t[1].reshape(-1))
                  and len({id(x) for x in t[1].reshape(-1)}) == t[1].size]
            if not ms:
                return
            m, a, blk = ms[c.n(len(ms))]
            if blk and a.size == 1 and c.n(2):
                a[0, 0].val = c.v()
                m.set_value(a[0, 0].val)
            else:
                self.setv(m, a, c)
            self.say("set matrix")
        self.labels.add("value changed after use")
        self.audit()

    def audit(self):
        for m, a, _ in self.mats:
            try:
                self.check(m, a, "audit")
            except Skip:
                pass
        for v, n in self.vars:
            try:
                self.check_var(v, n, "audit")
            except Skip:
                pass

    def op_cwise(self, c):
        m, a, _ = self.mat(c)
        k = c.n(3)
        if k == 0:
            r, w, what = m.cwise_map(lambda x: x * x + 1.0), ew(lambda x: add(mul(x, x), T2(1.0, 0 * x.g, 0 * x.H)), a), "cwise_map"
        elif k == 1:
            ms = [t for t in self.mats if t[1].shape == a.shape]
            y, u, _ = ms[c.n(len(ms))]
            r, w, what = ad.cwise_reduce(m, y, lambda p, q: p - 2.0 * q), ew(lambda p, q: sub(p, add(q, q)), a, u), "cwise_reduce"
        else:
            rows = []
            wrows = []
            for t in (m, a), :
                hs = [x for x in self.mats if x[1].shape[0] == a.shape[0]]
                picks = [hs[c.n(len(hs))] for _ in range(1 + c.n(2))]
                rows.append([m] + [p[0] for p in picks])
                wrows.append([a] + [p[1] for p in picks])
            w = np.hstack(wrows[0])
            same = [x for x in self.mats if x[1].shape[1] == w.shape[1]]
            if same and c.n(2):
                p = same[c.n(len(same))]
                rows.append([p[0]])
                w = np.vstack([w, p[1]])
            if w.size > 40:
                return
            r, what = ad.block([[VariableMatrix(x) if not isinstance(x, VariableMatrix) else x for x in row] for row in rows]), "block"
        self.say(what)
        self.check(r, w, what)
        self.put(r, w)

    def op_solve(self, c):
        n, k = 1 + c.n(3), 1 + c.n(3)
        A = VariableMatrix(n, n)
        x = np.array([[c.v() for _ in range(n)] for _ in range(n)]) + 12 * np.eye(n)
        perm = np.random.RandomState(c.n(100)).permutation(n)
        x = x[perm]
        y = np.array([[c.v() for _ in range(k)] for _ in range(n)]).reshape(n, k)
        A.set_value(x)
        got = ad.solve(A, VariableMatrix(y)).value()
        want = np.linalg.solve(x, y)
        self.say(f"solve {n} {k}")
        if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-8 * (1 + np.abs(want))):
            raise Bad(f"solve gives\n{got}\ninstead of\n{want}")

    def op_compare(self, c):
        if c.n(3) == 0:
            v, n = self.var(c)
            y, w = self.scalar(c)
            A, B = np.array([[n]], dtype=object), np.array([[w]], dtype=object)
            x = v
        else:
            x, A, _ = self.mat(c)
            k = c.n(3)
            if k == 0:
                ms = [t for t in self.mats if t[1].shape == A.shape]
                y, B, _ = ms[c.n(len(ms))]
            elif k == 1:
                y = self.array(c, *A.shape)
                B = lift(y)
                self.labels.add("numpy operand")
            else:
                y, w = self.scalar(c)
                B = np.full(A.shape, w, dtype=object)
        o = c.n(5)
        rev = c.n(2)
        d = vals(A) - vals(B)
        f = [lambda p, q: p == q, lambda p, q: p < q, lambda p, q: p <= q, lambda p, q: p > q, lambda p, q: p >= q][o]
        con = f(y, x) if rev else f(x, y)
        if rev:
            d = -d
        name = ["==", "<", "<=", ">", ">="][o]
        cls = EqualityConstraints if o == 0 else InequalityConstraints
        if not isinstance(con, cls):
            raise Bad(f"{type(x).__name__} {name} {type(y).__name__} is a {type(con)}")
        plain = all(t.f is None for t in A.reshape(-1)) and all(t.f is None for t in B.reshape(-1))
        if not plain and np.any(np.abs(d) < 1e-7):
            return
        want = bool(np.all(d == 0) if o == 0 else np.all(d <= 0) if o < 3 else np.all(d >= 0))
        self.say(f"{type(y if rev else x).__name__} {name} {type(x if rev else y).__name__}")
        self.nontrivial += 1
        if bool(con) is not want:
            raise Bad(f"bool({type(y if rev else x).__name__} {name} {type(x if rev else y).__name__}) is {bool(con)} with difference\n{d}")

    def op_derive(self, c):
        """Gradient, Jacobian and Hessian through the bindings."""
        leaves = []
        for m, a, _ in self.mats:
            leaves += [(m[divmod(i, a.shape[1])], x) for i, x in enumerate(a.reshape(-1)) if x.leaf]
        leaves += [t for t in self.vars if t[1].leaf]
        seen, wrt = set(), []
        for t in leaves:
            if id(t[1]) not in seen:
                seen.add(id(t[1]))
                wrt.append(t)
        if not wrt:
            return
        n = 1 + c.n(min(5, len(wrt)))
        start = c.n(len(wrt))
        wrt = [wrt[(start + i) % len(wrt)] for i in range(n)]
        one = n == 1 and c.n(2) == 0
        W = wrt[0][0] if one else VariableMatrix([[t[0]] for t in wrt])
        nodes = [t[1] for t in wrt]

        def same(got, want, what):
            got = np.asarray(got.todense())
            if got.shape != want.shape or not np.all(np.abs(got - want) <= 1e-7 * (1 + np.abs(want))):
                raise Bad(f"{what}:\n{got}\ninstead of\n{want}")

        k = c.n(3)
        reps = 1 + c.n(2)
        if k == 2:
            m, a, _ = self.mat(c)
            if not isinstance(m, VariableMatrix) or a.shape[1] != 1:
                m, a = VariableMatrix([[x] for x in m]), a.reshape(-1, 1)
            J = Jacobian(m, VariableMatrix(W) if one else W)
            check = lambda: (same(J.value(), np.array([ev(x, nodes).g for x in a[:, 0]]), "Jacobian"),  # noqa: E731
                             self.check(J.get(), np.array([[const(g) for g in ev(x, nodes).g] for x in a[:, 0]], dtype=object), "Jacobian.get()"))
        else:
            v, nd = self.var(c)
            if k == 0:
                G = Gradient(v, W)
                check = lambda: (same(G.value(), ev(nd, nodes).g.reshape(-1, 1), "Gradient"),  # noqa: E731
                                 self.check(G.get(), lift(ev(nd, nodes).g.reshape(-1, 1)), "Gradient.get()"))
            else:
                H = Hessian(v, W)

                def check():
                    w = ev(nd, nodes).H
                    same(H.value(), w, "Hessian")
                    self.check(H.get(), lift(w), "Hessian.get()")
        self.say(f"{['Gradient', 'Hessian', 'Jacobian'][k]} wrt {n}")
        check()
        for _ in range(reps):
            i = c.n(n)
            nodes[i].val = c.v()
            wrt[i][0].set_value(nodes[i].val)
            check()
        self.labels.add(["Gradient", "Hessian", "Jacobian"][k])
        self.nontrivial += 1

    def op_type(self, c):
        v, n = self.var(c)
        t = v.type()
        if n.leaf and t != ExpressionType.LINEAR:
            raise Bad(f"type of a variable is {t}")

    OPS = ["op_new", "op_new", "op_newvar", "op_index", "op_index", "op_flat", "op_rowcol", "op_arith", "op_arith", "op_arith",
           "op_math", "op_math2", "op_vararith", "op_vararith", "op_assign", "op_assign", "op_idiv", "op_set", "op_set",
           "op_cwise", "op_solve", "op_compare", "op_compare", "op_derive", "op_derive", "op_type"]


def run_autodiff(prog):
    M = Machine()
    for op in prog:
        if not op:
            continue
        name = M.OPS[op[0] % len(M.OPS)]
        try:
            getattr(M, name)(Cursor(op[1:]))
        except Skip:
            pass
    M.audit()
    return M.nontrivial >= 2, M.labels, M.log


# ---------------------------------------------------------------- problems
def qp_reference(Q, q, A, b, G, h):
    """min 1/2 x'Qx + q'x, Ax = b, Gx >= h by enumerating active sets."""
    n = len(q)
    best = None
    for mask in range(1 << len(h)):
        act = [i for i in range(len(h)) if mask >> i & 1]
        E = np.vstack([A, G[act]]) if len(act) or len(b) else np.zeros((0, n))
        e = np.concatenate([b, h[act]])
        if len(e) > n:
            continue
        K = np.block([[Q, -E.T], [E, np.zeros((len(e), len(e)))]])
        if abs(np.linalg.det(K)) < 1e-9:
            continue
        s = np.linalg.solve(K, np.concatenate([-q, e]))
        x, lam = s[:n], s[n + len(b):]
        if np.all(G @ x >= h - 1e-9) and np.all(lam >= -1e-9):
            f = 0.5 * x @ Q @ x + q @ x
            if best is None or f < best[1]:
                best = (x, f)
    return best


def run_problem(prog):
    c = Cursor([x for op in prog for x in op])
    log, labels = [], set()
    p = Problem()
    kind = c.n(5)
    if kind == 0:
        X = p.decision_variable()
        flat = [X]
    elif kind == 1:
        X = p.decision_variable(1 + c.n(3))
        flat = list(X)
    elif kind == 2:
        r, k = 1 + c.n(2), 1 + c.n(2)
        X = p.decision_variable(r, k)
        if X.shape != (r, k):
            raise Bad(f"decision_variable({r}, {k}) has shape {X.shape}")
        flat = list(X)
    elif kind == 3:
        X = p.symmetric_decision_variable(2)
        if X.shape != (2, 2):
            raise Bad("symmetric_decision_variable(2) is not 2x2")
        flat = [X[0, 0], X[1, 0], X[1, 1]]
    else:
        X = None
        flat = [p.decision_variable() for _ in range(1 + c.n(3))]
    n = len(flat)
    x = VariableMatrix([[v] for v in flat])
    L = np.array([[c.i() / 4 for _ in range(n)] for _ in range(n)]) if n else np.zeros((0, 0))
    Q = L @ L.T + np.eye(n)
    q = np.array([c.v() for _ in range(n)])
    start = np.array([c.v() for _ in range(n)])
    for v, s in zip(flat, start):
        v.set_value(s)
    if kind == 3:
        if not close(X[0, 1].value(), start[1]):
            raise Bad("symmetric variable: X[0, 1] is not X[1, 0]")
    # keep the gradient small so that no scaling happens
    need(np.max(np.abs(Q @ start + q)) < 90)

    neq = c.n(2) if n > 1 else 0
    A = np.array([[c.i() for _ in range(n)] for _ in range(neq)], dtype=float).reshape(neq, n)
    need(neq == 0 or np.linalg.norm(A) > 0.5)
    b = np.array([c.v() for _ in range(neq)])
    G, h = np.zeros((0, n)), np.zeros(0)
    cost = 0.5 * (x.T @ Q @ x) + q.reshape(1, n) @ x
    f = c.n(5)
    if f == 0:
        p.minimize(cost)
    elif f == 1:
        p.minimize(cost[0, 0])
    elif f == 2:
        p.maximize(-cost)
    elif f == 3:
        p.maximize((-cost)[0, 0])
    else:
        p.minimize(1.0)
        p.minimize(cost)
    log.append(f"n {n} kind {kind} Q {Q.tolist()} q {q.tolist()} start {start.tolist()} cost form {f}")
    want_eq, want_in = ExpressionType.NONE, ExpressionType.NONE
    if neq:
        if c.n(2):
            p.subject_to(A @ x == b.reshape(-1, 1))
        else:
            p.subject_to(EqualityConstraints([A @ x == b.reshape(-1, 1)]))
        want_eq = ExpressionType.LINEAR
        log.append(f"A {A.tolist()} b {b.tolist()}")
    nb = c.n(3)
    for _ in range(nb):
        i = c.n(n)
        lo = c.v()
        up = lo + 0.25 * (1 + c.n(12))
        form = c.n(6)
        e = np.zeros(n)
        e[i] = 1
        if form == 0:
            p.subject_to(flat[i] >= lo)
            G, h = np.vstack([G, e]), np.append(h, lo)
        elif form == 1:
            p.subject_to(flat[i] <= up)
            G, h = np.vstack([G, -e]), np.append(h, -up)
        elif form == 2:
            p.subject_to(bounds(lo, flat[i], up))
            G, h = np.vstack([G, e, -e]), np.append(h, [lo, -up])
        elif form == 3:
            p.subject_to(lo * 0.5 <= flat[i] * 0.5)
            G, h = np.vstack([G, e * 0.5]), np.append(h, lo * 0.5)
        elif form == 4:
            # a general inequality over two variables
            g = np.array([c.i() for _ in range(n)], dtype=float)
            need(np.linalg.norm(g) > 0.5)
            p.subject_to(g.reshape(1, n) @ x >= lo)
            G, h = np.vstack([G, g]), np.append(h, lo)
        else:
            p.subject_to(InequalityConstraints([flat[i] >= lo, flat[i] <= up]))
            G, h = np.vstack([G, e, -e]), np.append(h, [lo, -up])
        want_in = ExpressionType.LINEAR
        log.append(f"bound form {form} variable {i} {lo} {up}")
    need(len(h) <= 4)
    ref = qp_reference(Q, q, A, b, G, h)
    need(ref is not None)
    if p.cost_function_type() != ExpressionType.QUADRATIC or p.equality_constraint_type() != want_eq or p.inequality_constraint_type() != want_in:
        raise Bad(f"types {p.cost_function_type()} {p.equality_constraint_type()} {p.inequality_constraint_type()}")

    # callbacks
    seen = []

    def record(info):
        seen.append((info.iteration, np.array(info.x), np.array(info.s), np.array(info.y), np.array(info.z),
                     np.asarray(info.g.todense()).reshape(-1), np.asarray(info.H.todense()),
                     np.asarray(info.A_e.todense()), np.asarray(info.A_i.todense())))
        return False

    mode = c.n(7)
    p.add_callback(record)
    # the callback sees the model's derivatives (lower triangle of H), unscaled here
    def check_info():
        for it, (k, xx, s, y, z, g, H, Ae, Ai) in enumerate(seen):
            if k != it:
                raise Bad(f"callback {it} sees iteration {k}")
            if xx.shape != (n,) or y.shape != (neq,) or s.shape != z.shape:
                raise Bad(f"shapes of x, y, s, z: {xx.shape} {y.shape} {s.shape} {z.shape}")
            if not np.allclose(g, Q @ xx + q, rtol=1e-7, atol=1e-7):
                raise Bad(f"g {g} at x {xx} instead of {Q @ xx + q}")
            low = np.tril(H)
            if not (np.allclose(low, np.tril(Q), rtol=1e-7, atol=1e-7)):
                raise Bad(f"H {H} instead of {Q}")
            if (neq and Ae.shape != (neq, n)) or Ae.size != neq * n * (neq > 0) or not np.allclose(Ae, A if neq else Ae, atol=1e-9):
                raise Bad(f"A_e {Ae} instead of {A}")
            if Ai.size != n * len(s):
                raise Bad(f"A_i has shape {Ai.shape} with {len(s)} slacks")
            if len(h) and (np.any(s < 0) or np.any(z < 0)):
                raise Bad(f"s {s} or z {z} negative")

    labels.add(f"mode {mode}")
    log.append(f"mode {mode}")
    if mode == 0:
        k = c.n(3)
        p.add_callback(lambda info: info.iteration >= k)
        st = p.solve()
        if k < len(seen) and (st != ExitStatus.CALLBACK_REQUESTED_STOP or len(seen) != k + 1):
            raise Bad(f"a callback asked to stop at iteration {k}: {st} after {len(seen)} iterations")
        if st != ExitStatus.CALLBACK_REQUESTED_STOP and st != ExitStatus.SUCCESS:
            raise Bad(f"{st}")
        check_info()
        p.clear_callbacks()
        seen.clear()
        st = p.solve()
        if seen:
            raise Bad("a cleared callback was called")
    elif mode == 1:
        class Boom(Exception):
            pass

        def boom(info):
            raise Boom("from the callback")

        p.add_callback(boom)
        try:
            p.solve()
            if seen:
                raise Bad("an exception of a callback is lost")
        except Boom:
            pass
        p.clear_callbacks()
        st = p.solve()
    elif mode == 2:
        try:
            p.solve(tolerence=1e-3)
            raise Bad("an unknown keyword is accepted")
        except KeyError:
            pass
        k = c.n(3)
        seen.clear()
        st = p.solve(max_iterations=k)
        if st != ExitStatus.SUCCESS:
            if st != ExitStatus.MAX_ITERATIONS_EXCEEDED:
                raise Bad(f"max_iterations={k}: {st}")
        if len(seen) > k + 1:
            raise Bad(f"max_iterations={k}: {len(seen)} iterations")
        p.clear_callbacks()
        st = p.solve()
    elif mode == 3:
        st = p.solve(timeout=0.0)
        if st not in (ExitStatus.TIMEOUT, ExitStatus.SUCCESS):
            raise Bad(f"timeout=0: {st}")
        if st == ExitStatus.SUCCESS and len(seen) > 2:
            raise Bad(f"timeout=0 ignored over {len(seen)} iterations")
        st = p.solve(timeout=1000.0)
    elif mode == 4:
        with tempfile.TemporaryDirectory(dir=os.environ.get("PBT_SCRATCH")) as d:
            old = os.getcwd()
            os.chdir(d)
            try:
                st = p.solve(spy=True)
                files = set(os.listdir("."))
                if not {"H.spy"} <= files:
                    raise Bad(f"spy=True wrote {files}")
            finally:
                os.chdir(old)
        check_info()
    elif mode == 5:
        loose = [1e-3, 1e-5][c.n(2)]
        st = p.solve(tolerance=loose)
        if st != ExitStatus.SUCCESS:
            raise Bad(f"{st} with tolerance {loose}")
        k1 = len(seen)
        for v, s in zip(flat, start):
            v.set_value(s)
        seen.clear()
        st = p.solve(tolerance=1e-9)
        if len(seen) < k1:
            raise Bad(f"tolerance {loose} takes {k1} iterations, 1e-9 takes {len(seen)}")
    else:
        st = p.solve(feasible_ipm=bool(c.n(2)), diagnostics=False, max_iterations=500)
        check_info()
    if st != ExitStatus.SUCCESS:
        raise Bad(f"exit status {st}")
    got = np.array([v.value() for v in flat])
    if not np.allclose(got, ref[0], atol=2e-4):
        raise Bad(f"optimum {got} instead of {ref[0]}")
    if not abs(float(cost.value()[0, 0]) - ref[1]) <= 1e-5 * (1 + abs(ref[1])):
        raise Bad(f"cost {cost.value()} instead of {ref[1]}")
    if neq and not np.allclose(A @ got, b, atol=1e-6):
        raise Bad("equality violated")
    if X is not None and kind == 3 and not close(X[0, 1].value(), X[1, 0].value()):
        raise Bad("symmetric variable")
    return len(h) > 0 or neq > 0, labels, log


# ---------------------------------------------------------------- multistart
def run_multistart(prog):
    c = Cursor([x for op in prog for x in op])
    n = 1 + c.n(6)
    S = [ExitStatus.SUCCESS, ExitStatus.LOCALLY_INFEASIBLE, ExitStatus.MAX_ITERATIONS_EXCEEDED, ExitStatus.SUCCESS, ExitStatus.TIMEOUT]
    res = [(S[c.n(5)], c.v(), c.n(4)) for _ in range(n)]
    log = [f"results {[(s.name, v) for s, v, _ in res]}"]
    calls = []

    def solve(guess):
        time.sleep(0.0005 * res[guess[0]][2])
        calls.append(guess[0])
        return (res[guess[0]][0], res[guess[0]][1], guess)

    got = multistart(solve, [(i,) for i in range(n)])
    if sorted(calls) != list(range(n)):
        raise Bad(f"guesses tried: {sorted(calls)}")
    best = min((int(s != ExitStatus.SUCCESS), v) for s, v, _ in res)
    i = got[2][0]
    if (got[0], got[1]) != (res[i][0], res[i][1]):
        raise Bad(f"returned {got}, which solve() did not return for {i}")
    if (int(got[0] != ExitStatus.SUCCESS), got[1]) != best:
        raise Bad(f"returned {got[0]} with cost {got[1]}; the best is {best}")
    return len({(s == ExitStatus.SUCCESS, v) for s, v, _ in res}) > 1, set(), log


# ---------------------------------------------------------------- optimal control
def run_ocp(prog):
    import datetime
    c = Cursor([x for op in prog for x in op])
    N = 2 + c.n(4)
    dtv = 0.25 * (1 + c.n(3))
    method = [TranscriptionMethod.DIRECT_TRANSCRIPTION, TranscriptionMethod.DIRECT_COLLOCATION, TranscriptionMethod.SINGLE_SHOOTING][c.n(3)]
    discrete = c.n(2) and method != TranscriptionMethod.DIRECT_COLLOCATION
    tm = [TimestepMethod.FIXED, TimestepMethod.VARIABLE, TimestepMethod.VARIABLE_SINGLE][c.n(3)]
    a, bb = c.i() / 8, 0.5 + c.n(3) / 2
    Ad = np.array([[1.0, dtv], [0.0, 1 + a * dtv]])
    Bd = np.array([[0.0], [bb * dtv]])
    Ac = np.array([[0.0, 1.0], [0.0, a]])
    Bc = np.array([[0.0], [bb]])
    log = [f"N {N} dt {dtv} {method} {tm} discrete {bool(discrete)} a {a} b {bb}"]
    kw = {}
    if discrete:
        f, kw["dynamics_type"] = (lambda x, u: Ad @ x + Bd @ u), DynamicsType.DISCRETE
    else:
        f = lambda x, u: Ac @ x + Bc @ u  # noqa: E731
        if c.n(2):
            kw["dynamics_type"] = DynamicsType.EXPLICIT_ODE
    if tm != TimestepMethod.FIXED or c.n(2):
        kw["timestep_method"] = tm
    if method != TranscriptionMethod.DIRECT_TRANSCRIPTION or c.n(2):
        kw["transcription_method"] = method
    need(not (discrete and tm != TimestepMethod.FIXED))
    p = OCP(2, 1, datetime.timedelta(seconds=dtv) if c.n(2) else dtv, N, f, **kw)
    X, U, D = p.X(), p.U(), p.dt()
    if X.shape != (2, N + 1) or U.shape != (1, N + 1) or D.shape != (1, N + 1):
        raise Bad(f"shapes of X, U, dt: {X.shape} {U.shape} {D.shape}")
    x0 = np.array([[c.v() / 4], [c.v() / 4]])
    k = c.n(4)
    if k == 0:
        p.constrain_initial_state(x0)
    elif k == 1:
        p.constrain_initial_state(VariableMatrix(x0))
    elif k == 2:
        x0[:] = x0[0, 0]
        p.constrain_initial_state(float(x0[0, 0]))
    else:
        x0[:] = round(x0[0, 0])
        p.constrain_initial_state(int(x0[0, 0]))
    # a reachable final state, by a chosen input
    us = np.array([c.v() / 4 for _ in range(N + 1)])
    final = c.n(3)
    lo = up = None
    if c.n(2):
        up = 0.5 + c.n(4) / 2
        p.set_upper_input_bound([up, np.array([[up]]), Variable(up), VariableMatrix([[up]])][c.n(4)])
    if c.n(2):
        lo = -0.5 - c.n(4) / 2
        p.set_lower_input_bound([lo, np.array([[lo]]), Variable(lo), VariableMatrix([[lo]])][c.n(4)])
    if tm != TimestepMethod.FIXED:
        p.set_min_timestep(dtv * 0.5)
        p.set_max_timestep(dtv * 1.5)
        for i in range(N + 1):
            D[0, i].set_value(dtv)
    steps = []
    p.for_each_step(lambda x, u: steps.append((x.shape, u.shape)))
    if steps != [((2, 1), (1, 1))] * (N + 1):
        raise Bad(f"for_each_step saw {steps}")
    target = us.reshape(1, -1)
    cost = (U - target) @ (U - target).T
    if tm != TimestepMethod.FIXED:
        cost = cost + (D - np.full((1, N + 1), dtv)) @ (D - np.full((1, N + 1), dtv)).T
    p.minimize(cost)
    st = p.solve(max_iterations=500)
    log.append(f"x0 {x0.tolist()} u {us.tolist()} lo {lo} up {up} initial form {k}: {st}")
    if st != ExitStatus.SUCCESS:
        raise Bad(f"exit status {st}")
    Xv, Uv, Dv = X.value(), U.value(), D.value()
    if not np.allclose(p.initial_state().value(), x0, atol=1e-5) or not np.allclose(Xv[:, :1], x0, atol=1e-5):
        raise Bad(f"initial state {Xv[:, 0]} instead of {x0[:, 0]}")
    if not np.allclose(p.final_state().value(), Xv[:, -1:], atol=1e-9):
        raise Bad("final_state() is not the last column of X()")
    want = np.clip(us, -1e9 if lo is None else lo, 1e9 if up is None else up)
    if not np.allclose(Uv[0], want, atol=1e-3):
        raise Bad(f"inputs {Uv[0]} instead of {want}")
    if not np.allclose(Dv, dtv, atol=1e-3):
        raise Bad(f"timesteps {Dv} instead of {dtv}")
    # trajectory
    x = x0.copy()
    for i in range(N):
        if discrete:
            x = Ad @ x + Bd * Uv[0, i]
        else:
            sub_n, hh = 64, Dv[0, i] / 64
            for s in range(sub_n):
                # first-order hold for collocation, zero-order hold otherwise
                def uu(t):
                    return Uv[0, i] + (Uv[0, i + 1] - Uv[0, i]) * t if method == TranscriptionMethod.DIRECT_COLLOCATION else Uv[0, i]
                g = lambda y, t: Ac @ y + Bc * uu(t)  # noqa: E731
                t0 = s / sub_n
                k1 = g(x, t0)
                k2 = g(x + hh / 2 * k1, t0 + 0.5 / sub_n)
                k3 = g(x + hh / 2 * k2, t0 + 0.5 / sub_n)
                k4 = g(x + hh * k3, t0 + 1 / sub_n)
                x = x + hh / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        if not np.allclose(x, Xv[:, i + 1:i + 2], atol=5e-3 * (1 + np.max(np.abs(x)))):
            raise Bad(f"state {i + 1} is {Xv[:, i + 1]} instead of {x[:, 0]}")
    return True, {f"{method}".split(".")[-1], f"{tm}".split(".")[-1]}, log


# ---------------------------------------------------------------- names
NAMES = {
    ExitStatus: dict(SUCCESS=0, CALLBACK_REQUESTED_STOP=1, TOO_FEW_DOFS=-1, LOCALLY_INFEASIBLE=-2, GLOBALLY_INFEASIBLE=-3,
                     FACTORIZATION_FAILED=-4, LINE_SEARCH_FAILED=-5, FEASIBILITY_RESTORATION_FAILED=-6, NONFINITE_INITIAL_GUESS=-7,
                     DIVERGING_ITERATES=-8, MAX_ITERATIONS_EXCEEDED=-9, TIMEOUT=-10),
    ExpressionType: dict(NONE=0, CONSTANT=1, LINEAR=2, QUADRATIC=3, NONLINEAR=4),
}


def run_bounds(prog):
    """bounds(l, x, u) with every mix of operand kinds means l <= x and x <= u."""
    c = Cursor([x for op in prog for x in op])
    for cls, want in NAMES.items():
        got = {e.name: e.value for e in cls}
        if got != want:
            raise Bad(f"{cls.__name__}: {got}")
    r, k = 1 + c.n(2), 1 + c.n(2)
    xs = np.array([[c.v() for _ in range(k)] for _ in range(r)])
    big = VariableMatrix(r + 1, k + 1)
    big[1:, 1:].set_value(xs)
    kind = c.n(3)
    if kind == 0:
        X, xs = big[1, 1], xs[:1, :1]
    elif kind == 1:
        X = VariableMatrix(big[1:, 1:])
    else:
        X = big[1:, 1:]

    def side(off):
        t = c.n(6)
        if t == 0:
            v = c.v()
            return v, np.full(xs.shape, v)
        if t == 1:
            v = c.i()
            return v, np.full(xs.shape, float(v))
        if t == 2:
            v = c.v()
            w = Variable()
            w.set_value(v)
            return w, np.full(xs.shape, v)
        d = xs + off + np.array([[c.n(3) / 4 for _ in range(xs.shape[1])] for _ in range(xs.shape[0])])
        d[0, 0] += [0, 0, -1.5, 1.5][c.n(4)]
        if t == 3:
            return np.asfortranarray(d) if c.n(2) else d, d
        m = VariableMatrix(*d.shape)
        m.set_value(d)
        return (m if t == 4 else m[:, :]), d

    (l, lv), (u, uv) = side(-0.5), side(0.0)
    con = bounds(l, X, u)
    if not isinstance(con, InequalityConstraints):
        raise Bad(f"bounds() gives a {type(con)}")
    want = bool(np.all(lv <= xs) and np.all(xs <= uv))
    if bool(con) is not want:
        raise Bad(f"bounds({type(l).__name__}, {type(X).__name__}, {type(u).__name__}) is {bool(con)} for\n{lv}\n{xs}\n{uv}")
    return True, {f"{type(l).__name__}, {type(X).__name__}, {type(u).__name__}"}, [f"{lv.tolist()} {xs.tolist()} {uv.tolist()}"]


def run_misuse(prog):
    """What numpy would refuse, or shapes that don't fit, is refused and changes nothing; the rest is accepted."""
    base, ref = None, None
    views = []
    log, labels = [], set()
    counts = [0, 0]

    def attempt(what, valid, f, check=None):
        before = base.value().copy()
        log.append(f"{what}: {'valid' if valid else 'invalid'}")
        try:
            got = f()
        except Exception as e:  # noqa: BLE001  a refusal
            if valid:
                raise Bad(f"{what} was refused: {type(e).__name__}: {e}") from e
            counts[0] += 1
            if not np.array_equal(base.value(), before):
                raise Bad(f"{what} was refused but changed the matrix from\n{before}\nto\n{base.value()}") from e
            return
        if not valid:
            raise Bad(f"{what} was accepted although it is invalid; the matrix was\n{before}\nand is\n{base.value()}")
        counts[1] += 1
        if check is not None:
            check(got)

    def same(want):
        def check(got):
            g = np.atleast_2d(got.value())
            if g.shape != want.shape or not np.allclose(g, want, rtol=1e-9, atol=1e-9):
                raise Bad(f"{log[-1]} gave\n{g}\ninstead of\n{want}")
        return check

    def index(c, n):
        """(Python index, equivalent slice or None if it's out of range)"""
        t = c.n(8)
        if t < 4:
            i = [c.n(n) if n else 0, n + c.n(3), -1 - c.n(n + 2), [2**20, -2**20, 2**31 - 1, -2**31][c.n(4)]][t] if t else (c.n(n) if n else 0)
            j = i + n if i < 0 else i
            return i, slice(j, j + 1) if 0 <= j < n else None
        if t == 7 and c.n(3) == 0:
            return [0.5, "a", None][c.n(3)], None
        s = slice(*[None if c.n(2) else c.n(2 * n + 5) - n - 2 for _ in range(2)], None if c.n(2) else [1, 2, -1, 0, -2][c.n(5)])
        return s, None if s.step == 0 else s

    def fill(c, r, k):
        a = np.array([[c.v() for _ in range(k)] for _ in range(r)], dtype=float).reshape(r, k)
        m = VariableMatrix(r, k)
        m.set_value(a)
        return m, a

    for op in prog:
        c = Cursor(op)
        if base is None or c.n(12) == 0:
            r, k = 1 + c.n(4), 1 + c.n(4)
            base, ref = fill(c, r, k)
            views = [(base, ref)]
        X, R = views[c.n(len(views))]
        kind = c.n(12)
        r, k = R.shape
        name = f"{r}x{k} {type(X).__name__}"
        if kind <= 1:
            # Parts
            a, ra = index(c, r)
            b, rb = index(c, k)
            labels.add("index")
            ok = ra is not None and rb is not None
            if ok:
                part = R[ra, rb]

                def keep(got, part=part):
                    same(part)(got)
                    if not isinstance(got, Variable) and part.size and len(views) < 8:
                        views.append((got, part))
                attempt(f"[{a}, {b}] of a {name}", True, lambda: X[a, b], keep)
            else:
                attempt(f"[{a}, {b}] of a {name}", False, lambda: X[a, b])
        elif kind == 2:
            i, ri = index(c, r * k)
            if isinstance(i, slice):
                i = [(0,), (0, 0, 0), ()][c.n(3)]
                ri = None
            labels.add("flat index")
            want = None if ri is None else R.reshape(-1)[ri].reshape(1, 1)
            attempt(f"[{i}] of a {name}", ri is not None, lambda: X[i], None if ri is None else same(want))
        elif kind == 3:
            # Single elements and parts are replaced
            a, ra = index(c, r)
            b, rb = index(c, k)
            ok = ra is not None and rb is not None
            h, w = R[ra, rb].shape if ok else (1 + c.n(2), 1 + c.n(2))
            if c.n(3) == 0:
                h, w = c.n(3), 1 + c.n(3)
            t = c.n(6)
            m, v = fill(c, h, w)
            if t == 0:
                val, src = v, "array"
            elif t == 1:
                val, src = m, "VariableMatrix"
            elif t == 2:
                val, src = m[:, :], "VariableBlock"
            elif t == 3:
                val, src, v = 2.5, "number", np.array([[2.5]])
            elif t == 4:
                val, src, v = Variable(1.5), "Variable", np.array([[1.5]])
            else:
                val, src, v = ["a", None, {}][c.n(3)], "object", None
            valid = ok and v is not None and v.shape == R[ra, rb].shape
            labels.add("assign")

            def put(a=a, b=b, val=val):
                X[a, b] = val

            attempt(f"[{a}, {b}] of a {name} = {src} {None if v is None else v.shape}", valid, put)
            if valid:
                R[ra, rb] = v
                if not np.array_equal(base.value(), ref):
                    raise Bad(f"{log[-1]} left\n{base.value()}\ninstead of\n{ref}")
        elif kind == 4:
            i, ri = index(c, r * k)
            if isinstance(i, slice):
                continue
            labels.add("assign flat")

            def put(i=i):
                X[i] = Variable(1.25)

            attempt(f"[{i}] of a {name} = Variable", ri is not None, put)
            if ri is not None:
                R[divmod(ri.start, k)] = 1.25
                if not np.array_equal(base.value(), ref):
                    raise Bad(f"{log[-1]} left\n{base.value()}\ninstead of\n{ref}")
        elif kind == 5:
            row = c.n(2) == 0
            n = r if row else k
            i = [c.n(n), n + c.n(3), -1 - c.n(n + 2), 2**31 - 1][c.n(4)] if c.n(2) else c.n(n)
            labels.add("row or column")
            want = (R[i:i + 1] if row else R[:, i:i + 1]) if 0 <= i < n else None
            attempt(f"{'row' if row else 'column'} {i} of a {name}", 0 <= i < n, lambda: X.row(i) if row else X.col(i), None if want is None else same(want))
        elif kind <= 8:
            o = c.n(5)
            h, w = (k, 1 + c.n(3)) if o == 0 else (r, k)
            if c.n(3) == 0:
                h, w = 1 + c.n(4), 1 + c.n(4)
            m, v = fill(c, h, w)
            t = c.n(4)
            Y = [m, m[:, :], v, v][t]
            labels.add(["product", "sum", "difference", "equality", "inequality"][o])
            left = t == 3
            valid = (k == h if not left else w == r) if o == 0 else (r, k) == (h, w)
            f = [lambda p, q: p @ q, lambda p, q: p + q, lambda p, q: p - q, lambda p, q: p == q, lambda p, q: p <= q][o]
            what = f"{name} {'@+-=<'[o]} {h}x{w} {type(Y).__name__}" + (" with the array on the left" if left else "")

            def check(got, o=o, v=v, left=left, R=R):
                p, q = (v, R) if left else (R, v)
                if o < 3:
                    same(f(p, q))(got)
                elif bool(got) is not bool(np.all(f(p, q))):
                    raise Bad(f"{log[-1]} is {bool(got)}")
            attempt(what, valid, (lambda: f(Y, X)) if left else (lambda: f(X, Y)), check)
        elif kind == 9:
            # Only independent variables have values to set
            m, v = fill(c, r, k)
            h, w = (r, k) if c.n(2) else (1 + c.n(4), 1 + c.n(4))
            x = np.array([[c.v() for _ in range(w)] for _ in range(h)], dtype=DTYPES[c.n(4)])
            Z = [m, m[:, :]][c.n(2)]
            labels.add("set_value")
            attempt(f"values of a {r}x{k} {type(Z).__name__} = {h}x{w} array", (h, w) == (r, k), lambda: Z.set_value(x))
            if not np.array_equal(m.value(), x if (h, w) == (r, k) else v):
                raise Bad(f"{log[-1]} left\n{m.value()}")
        elif kind == 10:
            t = c.n(3)
            if t == 0:
                rows = [1 + c.n(3) if c.n(4) == 0 else 2 for _ in range(1 + c.n(3))]
                lst = [[c.v() for _ in range(n)] for n in rows]
                own = c.n(2)
                labels.add("nested list")
                attempt(f"VariableMatrix of rows of {rows}", len(set(rows)) == 1, lambda: VariableMatrix([[Variable(x) for x in q] for q in lst] if own else lst),
                        same(np.array(lst)) if len(set(rows)) == 1 else None)
            elif t == 1:
                h2, w2, h3, w3 = (r if c.n(3) else 1 + c.n(3)), 1 + c.n(2), 1 + c.n(2), 0
                w3 = k + w2 if c.n(3) else 1 + c.n(4)
                p, q = fill(c, h2, w2), fill(c, h3, w3)
                labels.add("block")
                valid = h2 == r and w3 == k + w2
                attempt(f"block of {r}x{k} {h2}x{w2} / {h3}x{w3}", valid, lambda: ad.block([[VariableMatrix(X) if not isinstance(X, VariableMatrix) else X, p[0]], [q[0]]]),
                        same(np.block([[R, p[1]], [q[1]]])) if valid else None)
            else:
                n = 1 + c.n(3)
                labels.add("solve")
                A = VariableMatrix(np.eye(n) * 2.0)
                h = n if c.n(2) else 1 + c.n(4)
                m, v = fill(c, h, 1 + c.n(2))
                attempt(f"solution of a {n}x{n} system with {h} rows on the right", h == n, lambda: ad.solve(A, m), same(v / 2) if h == n else None)
        else:
            h, w = 1 + c.n(3), 1 + c.n(2)
            m, v = fill(c, h, w)
            f = Variable(0.0)
            for i in range(h):
                for j in range(w):
                    f = f + m[i, j] * m[i, j]
            t = c.n(3)
            labels.add("derivative")
            attempt(f"{['gradient', 'Hessian', 'Jacobian'][t]} with respect to {h}x{w}", w == 1,
                    lambda: [lambda: Gradient(f, m).value(), lambda: Hessian(f, m).value(), lambda: Jacobian(VariableMatrix(f), m).value()][t]())
    if not log:
        raise Skip
    return counts[0] > 0 and counts[1] > 0, labels, log


PROPS = {
    "py_misuse": (run_misuse, 14, "at least one operation was refused and at least one accepted"),
    "py_autodiff": (run_autodiff, 14, "at least two array results, assignments, derivatives or comparisons"),
    "py_problem": (run_problem, 8, "constrained problem solved through the bindings"),
    "py_multistart": (run_multistart, 4, "results that differ in success or cost"),
    "py_ocp": (run_ocp, 5, "every case"),
    "py_bounds": (run_bounds, 4, "every case"),
}


def execute(prop, prog):
    """(ok, message, nontrivial, labels, log)"""
    try:
        nt, labels, log = PROPS[prop][0](prog)
        return True, "", nt, labels, log
    except Skip:
        return None, "", False, set(), []
    except Bad as e:
        return False, str(e), True, set(), []
    except Exception as e:  # noqa: BLE001  the bindings refused or crashed where the reference has an answer
        import traceback
        return False, f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", True, set(), []


def describe(prop, prog):
    return f"{prop}: " + json.dumps(prog)


def child_replay(prop, prog, timeout=120):
    """Runs one program in a child: 'ok', 'bad' or 'crash'."""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(prog, f)
    try:
        p = subprocess.run([sys.executable, "-B", __file__, PKG, "replay", "--prop", prop, "--file", f.name],
                           capture_output=True, text=True, timeout=timeout)
        return {0: "ok", 1: "bad"}.get(p.returncode, "crash"), p.stdout
    except subprocess.TimeoutExpired:
        return "crash", "timeout"
    finally:
        os.unlink(f.name)


def worker(prop, seed, cases, out, last, budget):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis import strategies as st
    stats = dict(evaluations=0, discarded=0, nontrivial=0, labels={}, samples=[], failed=False, message="", prog=None)
    distinct = set()
    t0 = time.time()
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 2)
    size = PROPS[prop][1]
    op = st.lists(st.integers(0, 2000), min_size=10, max_size=18)
    failing = []

    class Fail(Exception):
        pass

    def body(prog):
        if time.time() - t0 > budget:
            return
        Path(last).write_text(json.dumps(prog))
        ok, msg, nt, labels, log = execute(prop, prog)
        if not failing:
            stats["evaluations"] += 1
            if ok is None:
                stats["discarded"] += 1
            elif nt:
                stats["nontrivial"] += 1
                distinct.add(hash(json.dumps(prog)))
                if len(stats["samples"]) < 3 and stats["evaluations"] % 13 == 5:
                    stats["samples"].append("; ".join(map(str, log))[:600])
            for l in labels:
                stats["labels"][l] = stats["labels"].get(l, 0) + 1
        if ok is False:
            failing.append((prog, msg))
            raise Fail(msg)

    test = settings(max_examples=cases, deadline=None, database=None, derandomize=False, report_multiple_bugs=False,
                    phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))(
        hypothesis.seed(seed)(given(st.lists(op, min_size=1 if prop != "py_autodiff" else 3, max_size=size))(body)))
    try:
        test()
    except Fail:
        stats["failed"] = True
        stats["prog"], stats["message"] = failing[-1]
    except Exception as e:  # noqa: BLE001
        if not failing:
            raise
        stats["failed"] = True
        stats["prog"], stats["message"] = failing[-1]
    stats["distinct_nontrivial"] = len(distinct)
    Path(out).write_text(json.dumps(stats))


def main():
    args = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    prop = args["--prop"]
    if sys.argv[2] == "replay":
        text = Path(args["--file"]).read_text()
        prog = json.loads(text[text.index("["):])
        ok, msg, _, _, log = execute(prop, prog)
        print(msg if ok is False else "held", "\n".join(map(str, log)))
        return 1 if ok is False else 0
    if sys.argv[2] == "worker":
        worker(prop, int(args["--seed"]), int(args["--cases"]), args["--out"], args["--last"], float(args["--budget"]))
        return 0
    with tempfile.TemporaryDirectory() as d:
        out, last = f"{d}/out.json", f"{d}/last.json"
        p = subprocess.run([sys.executable, "-B", __file__, PKG, "worker", "--prop", prop, "--seed", args["--seed"], "--cases", args["--cases"],
                            "--out", out, "--last", last, "--budget", args["--budget"]], capture_output=True, text=True)
        if p.returncode == 0:
            r = json.loads(Path(out).read_text())
        elif Path(last).exists():
            prog = json.loads(Path(last).read_text())
            r = dict(evaluations=1, discarded=0, nontrivial=0, distinct_nontrivial=0, labels={}, samples=[], failed=True,
                     message=f"the interpreter ended with status {p.returncode}: {p.stderr[-500:]}", prog=prog)
            # greedy shrinking, each attempt in its own process
            deadline = time.time() + 60
            if child_replay(prop, prog)[0] == "crash":
                k = 0
                while k < len(prog) and time.time() < deadline:
                    smaller = prog[:k] + prog[k + 1:]
                    if smaller and child_replay(prop, smaller)[0] == "crash":
                        prog = smaller
                    else:
                        k += 1
                r["prog"] = prog
        else:
            sys.stderr.write(p.stderr[-2000:] + p.stdout[-500:])
            return 3
    r.update(prop=prop, rule=PROPS[prop][2], corpus=0, cov=0, reproduced=False, desc="")
    if r["failed"]:
        for _ in range(3):
            verdict, text = child_replay(prop, r["prog"])
            if verdict != "ok":
                r["reproduced"] = True
                break
        r["desc"] = describe(prop, r["prog"])
        Path(args["--replay-out"]).write_text(f"prop: {prop}\n{json.dumps(r['prog'])}\n")
    del r["prog"]
    Path(args["--out"]).write_text(json.dumps(r))
    return 0


if __name__ == "__main__":
    sys.exit(main())

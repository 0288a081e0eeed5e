"""A small stand-in for the parts of Sage that a parameter generation script may use.

There is no Sage in this sandbox. This module offers prime fields, vectors,
matrices, subspaces and the preparser's literals and operators, so that
/repo's *.sage can be executed as it stands. Whatever it does not know ends in
an Unsupported (or NameError, AttributeError, ImportError), never in a guess.
"""
import ast, fractions, functools, io, itertools, math, sys, tokenize, types


class Unsupported(Exception):
    pass


class Integer(int):
    def bits(self):
        n, r = abs(int(self)), []
        while n:
            r.append(Integer(n & 1))
            n >>= 1
        return r

    def nbits(self):
        return int(self).bit_length()

    def is_prime(self):
        return is_prime(int(self))

    def digits(self, base=10):
        n, r = int(self), []
        while n:
            r.append(Integer(n % int(base)))
            n //= int(base)
        return r

    def __truediv__(self, o):
        return _quot(self, o)

    def __rtruediv__(self, o):
        return _quot(o, self)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and m is None and o < 0:
            return _quot(1, int(self) ** -int(o))
        return _wrap(int.__pow__(self, o) if m is None else pow(int(self), int(o), int(m)))


def _wrap(v):
    return Integer(v) if type(v) is int else v


def _quot(a, b):
    if isinstance(a, float) or isinstance(b, float):
        return float(a) / float(b)
    if not (isinstance(a, (int, fractions.Fraction)) and isinstance(b, (int, fractions.Fraction))):
        return NotImplemented
    q = fractions.Fraction(a) / fractions.Fraction(b)
    return Integer(q.numerator) if q.denominator == 1 else q


def _binary(name):
    f = getattr(int, name)

    def g(self, o):
        return _wrap(f(self, o))
    return g


for _n in "add sub mul floordiv mod and or xor lshift rshift".split():
    for _p in ("__%s__", "__r%s__"):
        setattr(Integer, _p % _n, _binary(_p % _n))
Integer.__neg__ = lambda self: Integer(-int(self))
Integer.__hash__ = int.__hash__


def is_prime(n):
    if n < 2:
        return False
    small = (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53)
    for q in small:
        if n % q == 0:
            return n == q
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in small:
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


class El:
    """An element of GF(p)."""
    __slots__ = ("v", "F")

    def __init__(self, v, F):
        self.v = int(v) % F.p
        self.F = F

    def _c(self, o):
        if isinstance(o, El):
            if o.F.p != self.F.p:
                raise Unsupported("two fields")
            return o.v
        if isinstance(o, int):
            return int(o)
        if isinstance(o, fractions.Fraction):
            return self.F(o).v
        return None

    def _op(f):
        def g(self, o):
            c = self._c(o)
            return NotImplemented if c is None else El(f(self.v, c), self.F)
        return g
    __add__ = __radd__ = _op(lambda a, b: a + b)
    __mul__ = __rmul__ = _op(lambda a, b: a * b)
    __sub__ = _op(lambda a, b: a - b)
    __rsub__ = _op(lambda a, b: b - a)

    def __neg__(self):
        return El(-self.v, self.F)

    def inverse(self):
        if not self.v:
            raise ZeroDivisionError("inverse of zero")
        return El(pow(self.v, -1, self.F.p), self.F)

    def __invert__(self):
        return self.inverse()

    def __truediv__(self, o):
        return self * self.F(o).inverse()

    def __rtruediv__(self, o):
        return self.F(o) * self.inverse()

    def __pow__(self, e):
        e = int(e)
        return El(pow(self.v, e, self.F.p), self.F) if e >= 0 else self.inverse() ** -e

    def __eq__(self, o):
        if isinstance(o, (El, int)):
            return (self._c(o) - self.v) % self.F.p == 0
        return NotImplemented

    def __hash__(self):
        return hash(self.v)

    def __bool__(self):
        return self.v != 0

    def __int__(self):
        return self.v
    __index__ = __int__

    def __repr__(self):
        return str(self.v)

    def is_zero(self):
        return self.v == 0

    def is_one(self):
        return self.v == 1

    def lift(self):
        return Integer(self.v)

    def parent(self):
        return self.F


class Field:
    def __init__(self, p):
        self.p = int(p)
        if not is_prime(self.p):
            raise Unsupported("GF(%d)" % p)

    def __call__(self, v):
        if isinstance(v, El):
            if v.F.p != self.p:
                raise Unsupported("two fields")
            return v
        if isinstance(v, fractions.Fraction):
            return El(v.numerator * pow(v.denominator, -1, self.p), self)
        if isinstance(v, str):
            v = int(v, 0)
        return El(v, self)

    def __contains__(self, v):
        return isinstance(v, int) or (isinstance(v, El) and v.F.p == self.p)

    def __eq__(self, o):
        return isinstance(o, Field) and o.p == self.p

    def __hash__(self):
        return hash(self.p)

    def order(self):
        return Integer(self.p)
    cardinality = characteristic = order

    def zero(self):
        return El(0, self)

    def one(self):
        return El(1, self)

    def is_prime_field(self):
        return True


@functools.lru_cache(None)
def GF(p, *a, **k):
    if a or k:
        raise Unsupported("GF with further arguments")
    return Field(p)


class Vector:
    def __init__(self, entries, F=None):
        self.e = list(entries)
        self.F = F
        for x in self.e:
            if isinstance(x, El):
                self.F = x.F
                break
        if self.F:
            self.e = [self.F(x) for x in self.e]

    def __iter__(self):
        return iter(self.e)

    def __len__(self):
        return len(self.e)

    def __getitem__(self, i):
        return Vector(self.e[i], self.F) if isinstance(i, slice) else self.e[i]

    def __setitem__(self, i, v):
        self.e[i] = self.F(v) if self.F else v

    def __add__(self, o):
        return Vector([a + b for a, b in zip(self.e, o.e, strict=True)], self.F or o.F)

    def __sub__(self, o):
        return Vector([a - b for a, b in zip(self.e, o.e, strict=True)], self.F or o.F)

    def __neg__(self):
        return Vector([-a for a in self.e], self.F)

    def __mul__(self, o):
        if isinstance(o, Matrix):
            return o.transpose() * self
        if isinstance(o, Vector):
            return sum((a * b for a, b in zip(self.e, o.e, strict=True)), self.F(0))
        return Vector([a * o for a in self.e], self.F)
    __rmul__ = __mul__

    def __eq__(self, o):
        return isinstance(o, Vector) and self.e == o.e

    def __hash__(self):
        return hash(tuple(self.e))

    def list(self):
        return list(self.e)

    def is_zero(self):
        return not any(self.e)

    def dot_product(self, o):
        return self * o

    def __repr__(self):
        return "(%s)" % ", ".join(map(str, self.e))


def vector(*a):
    if len(a) == 1:
        return Vector(list(a[0]))
    if len(a) == 2 and isinstance(a[0], Field):
        if isinstance(a[1], int):
            return Vector([0] * a[1], a[0])
        return Vector(list(a[1]), a[0])
    raise Unsupported("vector%r" % (a,))


def _rref(rows, p):
    """Reduced row echelon form of lists of ints; the non-zero rows and the pivot columns."""
    rows = [r[:] for r in rows]
    piv, k = [], 0
    w = len(rows[0]) if rows else 0
    for c in range(w):
        i = next((i for i in range(k, len(rows)) if rows[i][c]), None)
        if i is None:
            continue
        rows[k], rows[i] = rows[i], rows[k]
        inv = pow(rows[k][c], -1, p)
        rows[k] = [x * inv % p for x in rows[k]]
        for j in range(len(rows)):
            if j != k and rows[j][c]:
                f = rows[j][c]
                rows[j] = [(x - f * y) % p for x, y in zip(rows[j], rows[k])]
        piv.append(c)
        k += 1
        if k == len(rows):
            break
    return rows[:k], piv


def _kernel(rows, w, p):
    r, piv = _rref(rows, p)
    free = [c for c in range(w) if c not in piv]
    out = []
    for f in free:
        v = [0] * w
        v[f] = 1
        for row, c in zip(r, piv):
            v[c] = -row[f] % p
        out.append(v)
    return out


class Space:
    """A subspace of GF(p)^n, kept as a reduced basis."""

    def __init__(self, F, n, rows):
        self.F, self.n = F, n
        self.b = _rref(rows, F.p)[0]

    def basis(self):
        return [Vector(r, self.F) for r in self.b]
    gens = basis

    def dimension(self):
        return Integer(len(self.b))
    rank = dimension

    def subspace(self, vs):
        return Space(self.F, self.n, [[int(self.F(x)) for x in v] for v in vs])
    span = subspace

    def intersection(self, o):
        c = _kernel(self.b, self.n, self.F.p) + _kernel(o.b, self.n, self.F.p)
        return Space(self.F, self.n, _kernel(c, self.n, self.F.p))

    def __contains__(self, v):
        return len(_rref(self.b + [[int(self.F(x)) for x in v]], self.F.p)[0]) == len(self.b)

    def __eq__(self, o):
        return isinstance(o, Space) and self.n == o.n and self.b == o.b

    def __ne__(self, o):
        return not self == o
    __hash__ = None


def VectorSpace(F, n):
    n = int(n)
    return Space(F, n, [[int(i == j) for j in range(n)] for i in range(n)])


class Poly:
    """Monic polynomial over GF(p), coefficients from the constant term up."""

    def __init__(self, c, p):
        self.c, self.p = c, p

    def degree(self):
        return Integer(len(self.c) - 1)

    def is_irreducible(self):
        f, p, n = self.c, self.p, len(self.c) - 1
        if n < 1:
            return False
        x = [0, 1]

        def frob(k):
            r = _pmod(x, f, p)
            for _ in range(k):
                r = _ppow(r, p, f, p)
            return r
        for q in [q for q in range(2, n + 1) if n % q == 0 and is_prime(q)]:
            if len(_pgcd(f, _padd(frob(n // q), [0, p - 1], p), p)) != 1:
                return False
        return not _pmod(_padd(frob(n), [0, p - 1], p), f, p)

    def roots_in_field(self):
        f, p = self.c, self.p
        h = _pgcd(f, _padd(_ppow([0, 1], p, f, p), [0, p - 1], p), p)
        out, todo, s = [], [h], 1
        while todo:
            g = todo.pop()
            if len(g) == 1:
                continue
            if len(g) == 2:
                out.append(-g[0] % p)
                continue
            if p == 2:
                out += [v for v in (0, 1) if sum(c * v for c in g[1:]) + g[0] & 1 == 0]
                continue
            s += 1
            a = _pgcd(g, _padd(_ppow([s % p, 1], (p - 1) // 2, g, p), [p - 1], p), p)
            if 1 < len(a) < len(g):
                todo += [a, _pdiv(g, a, p)]
            else:
                todo.append(g)
        return out


def _trim(a):
    while a and not a[-1]:
        a.pop()
    return a


def _padd(a, b, p):
    n = max(len(a), len(b))
    return _trim([((a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0)) % p for i in range(n)])


def _pmul(a, b, p):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return _trim([x % p for x in r])


def _pdivmod(a, m, p):
    a, q = a[:], [0] * max(len(a) - len(m) + 1, 0)
    inv = pow(m[-1], -1, p)
    for i in range(len(a) - len(m), -1, -1):
        f = a[i + len(m) - 1] * inv % p
        q[i] = f
        if f:
            for j, y in enumerate(m):
                a[i + j] = (a[i + j] - f * y) % p
    return _trim(q), _trim(a[:len(m) - 1])


def _pmod(a, m, p):
    return _pdivmod(a, m, p)[1] if len(a) >= len(m) else _trim(a[:])


def _pdiv(a, m, p):
    return _pdivmod(a, m, p)[0]


def _pgcd(a, b, p):
    while b:
        a, b = b, _pmod(a, b, p)
    inv = pow(a[-1], -1, p)
    return [x * inv % p for x in a]


def _ppow(a, e, m, p):
    r, a = _pmod([1], m, p), _pmod(a, m, p)
    while e:
        if e & 1:
            r = _pmod(_pmul(r, a, p), m, p)
        a = _pmod(_pmul(a, a, p), m, p)
        e >>= 1
    return r


class Matrix:
    def __init__(self, rows, F):
        self.F = F
        self.r = [[F(x) for x in row] for row in rows]
        self.h = len(self.r)
        self.w = len(self.r[0]) if self.r else 0
        if any(len(x) != self.w for x in self.r):
            raise ValueError("rows of different lengths")

    def _ints(self):
        return [[x.v for x in row] for row in self.r]

    def nrows(self):
        return Integer(self.h)

    def ncols(self):
        return Integer(self.w)

    def rows(self):
        return [Vector(r, self.F) for r in self.r]

    def row(self, i):
        return Vector(self.r[i], self.F)

    def column(self, j):
        return Vector([r[j] for r in self.r], self.F)

    def columns(self):
        return self.transpose().rows()

    def diagonal(self):
        return [self.r[i][i] for i in range(min(self.h, self.w))]

    def trace(self):
        return sum(self.diagonal(), self.F(0))

    def list(self):
        return [x for r in self.r for x in r]

    def __iter__(self):
        return iter(self.rows())

    def __len__(self):
        return self.h

    @staticmethod
    def _idx(i, n):
        if isinstance(i, slice):
            return list(range(*i.indices(n)))
        if isinstance(i, (list, tuple, range)):
            return [int(x) for x in i]
        return [int(i)]

    def __getitem__(self, k):
        if isinstance(k, tuple):
            i, j = k
            if isinstance(i, int) and isinstance(j, int):
                return self.r[i][j]
            return Matrix([[self.r[a][b] for b in self._idx(j, self.w)] for a in self._idx(i, self.h)], self.F)
        if isinstance(k, int):
            return Vector(self.r[k], self.F)
        return Matrix([self.r[a] for a in self._idx(k, self.h)], self.F)

    def __setitem__(self, k, v):
        if not isinstance(k, tuple):
            raise Unsupported("assignment to a row")
        i, j = k
        if isinstance(i, int) and isinstance(j, int):
            self.r[i][j] = self.F(v)
            return
        ii, jj = self._idx(i, self.h), self._idx(j, self.w)
        v = v if isinstance(v, Matrix) else None
        if v is None or v.h != len(ii) or v.w != len(jj):
            raise Unsupported("block assignment")
        for a, x in enumerate(ii):
            for b, y in enumerate(jj):
                self.r[x][y] = self.F(v.r[a][b])

    def _zip(self, o, f):
        if not isinstance(o, Matrix) or (o.h, o.w) != (self.h, self.w):
            raise Unsupported("matrices of different sizes")
        return Matrix([[f(a, b) for a, b in zip(x, y)] for x, y in zip(self.r, o.r)], self.F)

    def __add__(self, o):
        return self._zip(o, lambda a, b: a + b)

    def __sub__(self, o):
        return self._zip(o, lambda a, b: a - b)

    def __neg__(self):
        return Matrix([[-a for a in r] for r in self.r], self.F)

    def __mul__(self, o):
        p = self.F.p
        if isinstance(o, Matrix):
            a, b = self._ints(), o._ints()
            if self.w != o.h:
                raise TypeError("sizes")
            cols = list(zip(*b))
            return Matrix([[sum(x * y for x, y in zip(r, c)) % p for c in cols] for r in a], self.F)
        if isinstance(o, Vector):
            if self.w != len(o):
                raise TypeError("sizes")
            v = [int(self.F(x)) for x in o]
            return Vector([sum(x * y for x, y in zip(r, v)) % p for r in self._ints()], self.F)
        return Matrix([[a * o for a in r] for r in self.r], self.F)

    def __rmul__(self, o):
        return Matrix([[a * o for a in r] for r in self.r], self.F)

    def __pow__(self, e):
        e = int(e)
        if e < 0:
            return self.inverse() ** -e
        r, b = identity_matrix(self.F, self.h), self
        while e:
            if e & 1:
                r = r * b
            b = b * b
            e >>= 1
        return r

    def __eq__(self, o):
        if isinstance(o, Matrix):
            return self.r == o.r
        if o == 0:
            return self.is_zero()
        return NotImplemented

    def __ne__(self, o):
        return not self == o
    __hash__ = None

    def is_zero(self):
        return not any(x.v for r in self.r for x in r)

    def transpose(self):
        return Matrix([[self.r[i][j] for i in range(self.h)] for j in range(self.w)], self.F)
    T = property(transpose)

    def rank(self):
        return Integer(len(_rref(self._ints(), self.F.p)[0]))

    def is_square(self):
        return self.h == self.w

    def is_invertible(self):
        return self.h == self.w == self.rank()

    def is_singular(self):
        return not self.is_invertible()

    def determinant(self):
        raise Unsupported("determinant")

    def inverse(self):
        n = self.h
        r, piv = _rref([row + [int(i == j) for j in range(n)] for i, row in enumerate(self._ints())], self.F.p)
        if piv != list(range(n)):
            raise ZeroDivisionError("singular matrix")
        return Matrix([row[n:] for row in r], self.F)
    __invert__ = inverse

    def right_kernel(self, **k):
        return Space(self.F, self.w, _kernel(self._ints(), self.w, self.F.p))

    def left_kernel(self, **k):
        return self.transpose().right_kernel()
    kernel = left_kernel

    def minimal_polynomial(self, *a):
        if self.h != self.w:
            raise Unsupported("minimal polynomial of a rectangular matrix")
        p, n, m, acc = self.F.p, self.h, self._ints(), [1]
        for start in range(n):
            v = [int(i == start) for i in range(n)]
            seq = [v]
            while True:
                v = [sum(x * y for x, y in zip(r, v)) % p for r in m]
                seq.append(v)
                k = _kernel([list(c) for c in zip(*seq)], len(seq), p)
                if k:
                    f = _trim(k[0])
                    break
            inv = pow(f[-1], -1, p)
            f = [x * inv % p for x in f]
            acc = _pmul(acc, _pdiv(f, _pgcd(acc, f, p), p), p)
            if len(acc) == n + 1:
                break
        return Poly(acc, p)
    minpoly = minimal_polynomial

    def characteristic_polynomial(self, *a):
        f = self.minimal_polynomial()
        if f.degree() != self.h:
            raise Unsupported("characteristic polynomial of a derogatory matrix")
        return f
    charpoly = characteristic_polynomial

    def eigenspaces_right(self, format=None, **k):
        """Only eigenvalues in the field itself; the others are left out."""
        res = []
        for v in sorted(self.minimal_polynomial().roots_in_field()):
            res.append((El(v, self.F), (self - identity_matrix(self.F, self.h) * v).right_kernel()))
        return res
    right_eigenspaces = eigenspaces_right

    def eigenvalues(self, extend=True):
        if extend:
            raise Unsupported("eigenvalues in an extension")
        return [El(v, self.F) for v in self.minimal_polynomial().roots_in_field()]


def _field_of(rows):
    for r in rows:
        F = getattr(r, "F", None)
        if F:
            return F
        for x in r:
            if isinstance(x, El):
                return x.F
    raise Unsupported("matrix over the integers")


class _MatrixMaker:
    def __call__(self, *a):
        if a and isinstance(a[0], Field):
            F, a = a[0], a[1:]
            if not a:
                return Matrix([], F)
            if len(a) == 1 and isinstance(a[0], int):
                a = (a[0], a[0])
            if len(a) == 1:
                return Matrix([list(r) for r in a[0]], F)
            n, m = int(a[0]), None
            if isinstance(a[1], int):
                m, a = int(a[1]), a[2:]
            else:
                m, a = n, a[1:]
            if not a:
                return Matrix([[0] * m for _ in range(n)], F)
            d = a[0]
            if callable(d):
                return Matrix([[d(Integer(i), Integer(j)) for j in range(m)] for i in range(n)], F)
            d = list(d)
            if d and isinstance(d[0], (list, tuple, Vector)):
                return Matrix([list(r) for r in d], F)
            return Matrix([d[i * m:(i + 1) * m] for i in range(n)], F)
        if len(a) == 1:
            rows = list(a[0])
            F = _field_of(rows)
            return Matrix([list(r) for r in rows], F)
        raise Unsupported("matrix%r" % (a,))

    def circulant(self, v):
        v = list(v)
        n = len(v)
        return Matrix([[v[(j - i) % n] for j in range(n)] for i in range(n)], _field_of([v]))

    def diagonal(self, *a):
        F, d = (a[0], list(a[1])) if len(a) == 2 else (None, list(a[0]))
        F = F or _field_of([d])
        return Matrix([[d[i] if i == j else 0 for j in range(len(d))] for i in range(len(d))], F)

    def identity(self, *a):
        if len(a) == 1:
            raise Unsupported("identity over the integers")
        return identity_matrix(*a)

    def zero(self, F, n, m=None):
        return self(F, n, m or n)

    def ones(self, F, n, m=None):
        return Matrix([[1] * int(m or n)] * int(n), F)

    def block(self, *a, **k):
        raise Unsupported("matrix.block")


matrix = _MatrixMaker()


def identity_matrix(F, n):
    n = int(n)
    return Matrix([[int(i == j) for j in range(n)] for i in range(n)], F)


def diagonal_matrix(*a):
    return matrix.diagonal(*a)


def ones_matrix(*a):
    return matrix.ones(*a)


def zero_matrix(*a):
    return matrix.zero(*a)


def binomial(a, b):
    """Sage gives an integer, or a real number for real arguments."""
    if isinstance(a, int) and isinstance(b, int):
        return Integer(math.comb(a, b)) if a >= 0 else _unsupported("binomial of a negative number")
    a, b = float(a), float(b)
    if b < 0:
        return 0.0
    l = math.lgamma(a + 1) - math.lgamma(b + 1) - math.lgamma(a - b + 1)
    return math.exp(l) if l < 709.78 else math.inf


def _unsupported(what):
    raise Unsupported(what)


def powerset(x):
    x = list(x)
    return (list(c) for k in range(len(x) + 1) for c in itertools.combinations(x, k))


def preparse(src):
    """Sage's literals and operators as Python."""
    toks = list(tokenize.generate_tokens(io.StringIO(src).readline))
    out, i = [], 0
    for k, t in enumerate(toks):
        if i > k:
            continue
        i = k + 1
        if t.type == tokenize.NUMBER and t.string.isdigit() or t.type == tokenize.NUMBER and t.string[:2].lower() in ("0x", "0b", "0o"):
            out += [(tokenize.NAME, "Integer"), (tokenize.OP, "("), (tokenize.NUMBER, t.string.lstrip("0") or "0" if t.string.isdigit() else t.string), (tokenize.OP, ")")]
        elif t.type == tokenize.OP and t.string == "^":
            n = toks[k + 1]
            if n.type == tokenize.OP and n.string == "^" and n.start == t.end:
                out.append((tokenize.OP, "^"))
                i = k + 2
            else:
                out.append((tokenize.OP, "**"))
        elif t.type == tokenize.OP and t.string == "^=":
            out.append((tokenize.OP, "**="))
        else:
            out.append((t.type, t.string))
    return tokenize.untokenize(out)


class _Replace(ast.NodeTransformer):
    """Top-level `name = <integer literal>` gets another value."""

    def __init__(self, values):
        self.values, self.done = values, set()

    def visit_Module(self, m):
        for s in m.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in self.values:
                v = s.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "Integer" and isinstance(v.args[0], ast.Constant):
                    v.args[0] = ast.copy_location(ast.Constant(self.values[s.targets[0].id]), v.args[0])
                    self.done.add(s.targets[0].id)
        return m


class Exit(Exception):
    pass


def run(src, values):
    """Execute the script with the given values of its parameters.

    Returns (names that were set, what it printed, its namespace, whether it ended early)."""
    tree = ast.parse(preparse(src))
    rep = _Replace(values)
    tree = ast.fix_missing_locations(rep.visit(tree))
    out = io.StringIO()

    def leave(*a):
        raise Exit()

    def show(*a, **k):
        k.pop("file", None)
        print(*a, file=out, **k)
    sage = types.ModuleType("sage")
    mods = {"sage": sage}
    for name in ("misc", "misc.misc", "rings", "rings.polynomial", "rings.polynomial.polynomial_gf2x", "all"):
        m = types.ModuleType("sage." + name)
        mods["sage." + name] = m
        parent = mods["sage." + name.rpartition(".")[0] if "." in name else "sage"]
        setattr(parent, name.rpartition(".")[2], m)
    mods["sage.misc.misc"].powerset = powerset
    mods["sage.rings.polynomial.polynomial_gf2x"].GF2X_BuildIrred_list = lambda *a: _unsupported("GF2X_BuildIrred_list")
    ns = {"__name__": "__main__", "Integer": Integer, "ZZ": Integer, "GF": GF, "FiniteField": GF, "matrix": matrix, "Matrix": matrix,
          "vector": vector, "VectorSpace": VectorSpace, "binomial": binomial, "gcd": lambda a, b: Integer(math.gcd(a, b)),
          "identity_matrix": identity_matrix, "diagonal_matrix": diagonal_matrix, "ones_matrix": ones_matrix, "zero_matrix": zero_matrix,
          "is_prime": lambda n: is_prime(int(n)), "powerset": powerset, "sage": sage, "exit": leave, "quit": leave, "print": show,
          "Infinity": math.inf, "oo": math.inf, "infinity": math.inf, "floor": math.floor, "ceil": math.ceil, "sqrt": math.sqrt,
          "next_prime": lambda n: next(Integer(k) for k in itertools.count(int(n) + 1) if is_prime(k)),
          "log": lambda x, b=math.e: math.log(x, b), "prod": lambda xs: functools.reduce(lambda a, b: a * b, xs, Integer(1)),
          "srange": lambda *a: [Integer(i) for i in range(*a)], "xgcd": lambda *a: _unsupported("xgcd"), "sys": sys}
    for name, m in mods["sage.all"].__dict__.items():
        pass
    mods["sage.all"].__dict__.update({k: v for k, v in ns.items() if not k.startswith("__")})
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    early = False
    try:
        exec(compile(tree, "script", "exec"), ns)
    except (Exit, SystemExit):
        early = True
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    return rep.done, out.getvalue(), ns, early

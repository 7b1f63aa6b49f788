"""Value-normal-form terms and canonical boolean formulas.

Terms are nested tuples.  Arithmetic (integer and floating) is brought to a
linear normal form over the reals, comparisons to literals over a canonical
atom, boolean structure to a reduced ordered decision diagram (ROBDD) whose
variable order is the order of the atoms' printed form.  Two expressions that
differ only in how they are written (a<b / !(b<=a), nested ifs / &&, operand
order, i++ placement, index loop / iterator loop) get the same term.
"""
import hashlib
from fractions import Fraction
from functools import lru_cache
from math import gcd

# ---------------------------------------------------------------- printing
_pp = {}


_kid = {}  # id -> (term, text): terms are kept, so ids stay theirs


def key(t):
    r = _kid.get(id(t))
    if r is not None and r[0] is t:
        return r[1]
    k = _pp.get(t)
    if k is None:
        k = _pp[t] = repr(t)
    _kid[id(t)] = (t, k)
    return k


# ---------------------------------------------------------------- linear
def num(c):
    if isinstance(c, float):
        if c != c or c in (float('inf'), float('-inf')):
            return ('c', str(c))
        c = float('%.6g' % c)
        if c == int(c) and abs(c) < 1e15:
            c = int(c)
        else:
            c = Fraction('%.6g' % c)
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    return ('c', c)


def lin(t):
    """-> (const, {term: coef})"""
    if t[0] == 'c' and not isinstance(t[1], str):
        return t[1], {}
    if t[0] == '+':
        return t[1], dict(t[2])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if isinstance(c, Fraction) and c.denominator == 1:
        c = int(c)
    if not d:
        return ('c', c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ('+', c, tuple(sorted(((k, _i(v)) for k, v in d.items()), key=lambda p: (key(p[0]), p[1]))))


def _i(v):
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    return v


def add(a, b, cb=1):
    ca, da = lin(a)
    cc, dd = lin(b)
    d = dict(da)
    for k, v in dd.items():
        d[k] = d.get(k, 0) + cb * v
    return mklin(ca + cb * cc, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    c, d = lin(a)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def isc(t):
    return t[0] == 'c' and not isinstance(t[1], str)


def _flip(t):
    """sign-normalise a linear term: -> (sign, term) with the first coefficient positive"""
    if t[0] == '+':
        s = t[2][0][1]
        if s < 0:
            return -1, scale(t, -1)
    return 1, t


def mul(a, b):
    if isc(a):
        return scale(b, a[1])
    if isc(b):
        return scale(a, b[1])
    pa, pb = _mono(a), _mono(b)
    if 2 < len(pa) + len(pb) and len(pa) * len(pb) <= 8 and not any(_hasinv(x) for x, _ in pa + pb):
        # a product of sums, term by term
        r = ('c', 0)
        for x, v in pa:
            for y, w in pb:
                r = add(r, scale(mul(x, y), v * w))
        return r
    fs = []
    coef = 1
    for x in (a, b):
        if x[0] == '+' and x[1] == 0 and len(x[2]) == 1:
            coef = coef * x[2][0][1]
            x = x[2][0][0]
        s, x = _flip(x)
        coef *= s
        if x[0] == '*':
            fs.extend(x[1])
        else:
            fs.append(x)
    # cancel x * inv(x)
    out = list(fs)
    for x in fs:
        if x[0] == 'inv' and x in out and x[1] in out:
            out.remove(x)
            out.remove(x[1])
    if not out:
        return num(coef)
    if len(out) == 1:
        return scale(out[0], coef)
    return scale(('*', tuple(sorted(out, key=key))), coef)


def _mono(t):
    c, m = lin(t)
    return ([(('c', 1), c)] if c else []) + list(m.items())


def _hasinv(t):
    return t[0] == 'inv' or t[0] == '*' and any(x[0] == 'inv' for x in t[1])


def inv(b):
    if isc(b) and b[1] != 0:
        return num(Fraction(1) / Fraction(b[1]))
    if b[0] == 'inv':
        return b[1]
    if b[0] == '+' and b[1] == 0 and len(b[2]) == 1:
        return scale(inv(b[2][0][0]), Fraction(1) / Fraction(b[2][0][1]))
    s, b = _flip(b)
    if b[0] == '*':
        r = ('c', s)
        for f in b[1]:
            r = mul(r, inv(f))
        return r
    return scale(('inv', b), s)


# ---------------------------------------------------------------- atoms, BDD
# A formula is True, False or ('?', atom, hi, lo) reduced, ordered by key(atom).
_ite = {}


def fand(a, b):
    return fite(a, b, False)


def for_(a, b):
    return fite(a, True, b)


def fnot(a):
    return fite(a, False, True)


class Big(Exception):
    pass


_limit = [0]


_nodes = {}  # (text of the atom, id of hi, id of lo) -> node
_intern = {}  # id -> node known to be the one of its kind, or (other, node)


def node(at, hi, lo):
    k = (key(at), id(hi), id(lo))
    n = _nodes.get(k)
    if n is None:
        n = _nodes[k] = ('?', at, hi, lo)
        _intern[id(n)] = (n, n)
    return n


def the(f):
    """the one node standing for the formula"""
    if f is True or f is False:
        return f
    r = _intern.get(id(f))
    if r is not None and r[0] is f:
        return r[1]
    n = node(f[1], the(f[2]), the(f[3]))
    _intern[id(f)] = (f, n)
    return n


def fite(c, t, e):
    return _fite(the(c), the(t), the(e))


def _fite(c, t, e):
    if c is True:
        return t
    if c is False:
        return e
    if t is e:
        return t
    if t is True and e is False:
        return c
    k = (id(c), id(t), id(e))
    r = _ite.get(k)
    if r is not None:
        return r
    at, m = c[1], key(c[1])
    for x in (t, e):
        if x is not True and x is not False:
            n = key(x[1])
            if n < m:
                at, m = x[1], n

    def cof(x):
        if x is True or x is False or key(x[1]) != m:
            return x, x
        return x[2], x[3]
    (c1, c0), (t1, t0), (e1, e0) = cof(c), cof(t), cof(e)
    hi = _fite(c1, t1, e1)
    lo = _fite(c0, t0, e0)
    r = hi if hi is lo else node(at, hi, lo)
    _ite[k] = r
    return r


def var(atom):
    return node(atom, True, False)


def fatoms(f, acc=None):
    acc = set() if acc is None else acc
    seen = set()

    def go(x):
        if x is True or x is False or id(x) in seen:
            return
        seen.add(id(x))
        acc.add(x[1])
        go(x[2])
        go(x[3])
    go(f)
    return acc


def fsize(f):
    seen = set()

    def go(x):
        if x is True or x is False or id(x) in seen:
            return
        seen.add(id(x))
        go(x[2])
        go(x[3])
    go(f)
    return len(seen)


_restr = {}


def restrict(f, atom, val):
    return _restrict(the(f), key(atom), val)


def _restrict(f, k, val):
    if f is True or f is False:
        return f
    n = key(f[1])
    if n == k:
        return f[2] if val else f[3]
    if n > k:
        return f
    m = (id(f), k, val)
    r = _restr.get(m)
    if r is None:
        # deeper atoms come later in the order
        hi, lo = _restrict(f[2], k, val), _restrict(f[3], k, val)
        r = _restr[m] = hi if hi is lo else node(f[1], hi, lo)
    return r


def exists(f, pred):
    for a in sorted(fatoms(f), key=key):
        if pred(a):
            f = for_(restrict(f, a, True), restrict(f, a, False))
    return f


def implies(a, b):
    return fite(a, b, True) is True


def fmt(f, depth=0):
    """formula -> text (sum of products)"""
    if f is True:
        return 'true'
    if f is False:
        return 'false'
    cubes = []

    def go(x, c):
        if len(cubes) > 8:
            return
        if x is True:
            cubes.append(' & '.join(c) or 'true')
        elif x is not False:
            go(x[2], c + [pt(x[1])])
            go(x[3], c + ['!' + pt(x[1])])
    go(f, [])
    return ' | '.join(cubes)


NONNEG = ('size', 'k', 'it')


def v1(m):
    return next(iter(m.values()))


def FIND(t):
    return t[:1] == ('call',) and len(t) >= 4 and t[1] in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of')


def lt0(d, integer=True):
    """formula for d < 0"""
    c, m = lin(d)
    if not m:
        return c < 0
    if integer and all(isinstance(v, int) for v in m.values()) and isinstance(c, int):
        g = 0
        for v in m.values():
            g = gcd(g, abs(v))
        if g > 1:
            m = {k: v // g for k, v in m.items()}
            c = -((-c) // -g) if False else -(-(-c) // g) if False else _ceil_shift(c, g)
        if all(t[0] in NONNEG or t[:2] == ('call', 'size') for t in m):
            # numbers of elements are not negative
            if c >= 0 and all(v > 0 for v in m.values()):
                return False
            if c < 0 and all(v < 0 for v in m.values()):
                return True
            if c == -1 and len(m) == 1 and v1(m) == 1:
                return eq0(mklin(0, m))
            if c == 0 and len(m) == 1 and v1(m) == -1:
                return fnot(eq0(mklin(0, m)))
        if len(m) == 1 and FIND(next(iter(m))):
            # a place or npos = -1
            if c == 0 and v1(m) == 1:
                return eq0(mklin(1, m))
            if c == -1 and v1(m) == -1:
                return fnot(eq0(mklin(1, {k: 1 for k in m})))
        t = mklin(c, m)
        first = sorted(m.items(), key=lambda p: key(p[0]))[0][1]
        if first < 0:  # d<0  <=>  !( -d-1 < 0 )
            t2 = add(scale(t, -1), ('c', -1))
            return fnot(var(('<0', t2)))
        return var(('<0', t))
    # real: scale so that the first coefficient has absolute value 1
    first = sorted(m.items(), key=lambda p: key(p[0]))[0][1]
    s = abs(Fraction(first))
    t = scale(d, Fraction(1) / s)
    return var(('<f', t))


def _ceil_shift(c, g):
    # g*x + c < 0  <=>  x < -c/g  <=>  x - ceil(-c/g) < 0
    q = -((c) // g)  # ceil(-c/g) = -floor(c/g)
    return -q


def eq0(d):
    c, m = lin(d)
    if not m:
        return c == 0
    if c == 0 and len(m) == 1 and next(iter(m))[0] == 'bytes':
        v = next(iter(m))[1]
        if v[0] == 'rsz':
            return eq0(v[2])
        m = {('size', v): 1}
    vals = list(m.values())
    first = sorted(m.items(), key=lambda p: key(p[0]))[0][1]
    if all(isinstance(v, int) for v in vals) and isinstance(c, int):
        g = 0
        for v in vals + [c]:
            g = gcd(g, abs(v))
        s = g if first > 0 else -g
        t = mklin(c // s, {k: v // s for k, v in m.items()})
    else:
        t = scale(d, Fraction(1) / Fraction(first))
    return var(('=0', t))


# ---------------------------------------------------------------- arithmetic consistency of atoms
def _base(a):
    """atom -> (kind, linear part, bound): t < b  or  t == b (integers)"""
    if a[0] not in ('<0', '=0', '<f'):
        return None
    c, m = lin(a[1])
    if a[0] == '<0' and (not isinstance(c, int) or not all(isinstance(v, int) for v in m.values())):
        return None
    return a[0], mklin(0, m), -c


_left = {}


def exitfacts(at):
    """what holds of the number of iterations of a loop that was left: its condition to go on does not"""
    out = []
    for a in at:
        r = _left.get(a)
        if r is None:
            r = []
            for y in walk(a):
                if y and y[0] == 'it' and len(y) == 3 and y[2][0] == 'ite' and len(y[2][1]) == 2:
                    c = next((f for f, v in y[2][1] if v == ('stop',)), None)
                    if c is not None:
                        r.append((y, c))
            _left[a] = r
        for y, c in r:
            k = ('k', y[1])
            f = rebuild(c, lambda z, k=k, y=y: y if z == k else z if z[0] in ('it', 'mu') and z[1] == y[1] else None, lambda z: z)
            if f not in out:
                out.append(f)
    return out


_simp = {}
_th = {}


def theory(at):
    """what integer arithmetic says about the atoms -> (formula, atoms concerned)"""
    at = frozenset(at)
    r = _th.get(at)
    if r is not None:
        return r
    groups = {}
    for a in at:
        b = _base(a)
        if b:
            groups.setdefault(b[1], []).append((b[0], b[2], a))
    th = True
    cand = []
    text = {}
    for a in at:
        # a string equals at most one of several texts
        t = a[1] if a[0] in ('b', '=0') else None
        if t and t[0] == 'call' and len(t) == 4 and t[1] == ('operator==' if a[0] == 'b' else 'strcmp') and t[3][0] == 's':
            text.setdefault((t[1], t[2]), []).append(a)
    for x in text.values():
        if len(x) > 1:
            cand += x
            for i in range(len(x)):
                for j in range(i):
                    th = fand(th, fnot(fand(var(x[i]), var(x[j]))))
    for f in exitfacts(at):
        f = exists(f, lambda a: a not in at)
        if f is not True and f is not False:
            th = fand(th, f)
            cand += sorted(fatoms(f), key=key)
    for t in list(groups):
        # real numbers (none undefined): t < b and -t < c
        n = scale(t, -1)
        if n in groups:
            for k1, b1, a1 in groups[t]:
                for k2, b2, a2 in groups[n]:
                    if k2 != '<f':
                        continue
                    cand += [a1, a2]
                    if k1 == '<f':
                        th = fand(th, fnot(fand(var(a1), var(a2))) if b1 <= -b2 else for_(var(a1), var(a2)))
                        if b1 == -b2:
                            e = eq0(sub(t, ('c', b1)))
                            if e is not True and e is not False and e[1] in at:
                                th = fand(th, for_(for_(var(a1), var(a2)), e))
                    elif k1 == '=0':
                        th = fand(th, for_(fnot(var(a1)), var(a2) if -b1 < b2 else fnot(var(a2))))
    for x in groups.values():
        if len(x) < 2:
            continue
        cand += [a for _, _, a in x]
        for i in range(len(x)):
            for j in range(len(x)):
                if i == j:
                    continue
                (k1, b1, a1), (k2, b2, a2) = x[i], x[j]
                if k1 == k2 != '=0' and b1 < b2:
                    th = fand(th, for_(fnot(var(a1)), var(a2)))
                if k1 == '=0' and k2 != '=0':
                    th = fand(th, for_(fnot(var(a1)), var(a2) if b1 < b2 else fnot(var(a2))))
                if k1 == '=0' and k2 == '=0' and i < j:
                    th = fand(th, fnot(fand(var(a1), var(a2))))
        # lo <= t < hi and t differs from all values between: impossible
        lt = sorted(b for k, b, _ in x if k == '<0')
        d = {(k, b): a for k, b, a in x}
        for lo in lt:
            for hi in lt:
                if lo < hi <= lo + 4 and all(('=0', v) in d for v in range(lo, hi)):
                    some = False
                    for v in range(lo, hi):
                        some = for_(some, var(d['=0', v]))
                    th = fand(th, for_(fnot(fand(var(d['<0', hi]), fnot(var(d['<0', lo])))), some))
    _th[at] = (th, cand)
    return th, cand


def fsubst(f, m):
    """a formula with terms replaced"""
    memo = {}

    def go(f):
        if f is True or f is False:
            return f
        r = memo.get(id(f))
        if r is not None:
            return r[1]
        a = f[1]
        b = subst(a, m)
        if a == b:
            v = var(a)
        elif a[0] in ('<0', '<f'):
            v = lt0(b[1], a[0] == '<0')
        elif a[0] == '=0':
            v = eq0(b[1])
        else:
            v = var(b)
        r = fite(v, go(f[2]), go(f[3]))
        memo[id(f)] = (f, r)
        return r
    return go(f)


def equiv(f, g):
    if equiv1(f, g):
        return True
    if f is True or f is False or g is True or g is False:
        return False
    # case by case over an equality
    for a in sorted(fatoms(f) | fatoms(g), key=key):
        m = a[0] == '=0' and solve(var(a))
        if m and equiv1(restrict(f, a, False), restrict(g, a, False)) and equiv1(fsubst(restrict(f, a, True), m), fsubst(restrict(g, a, True), m)):
            return True
    return False


def equiv1(f, g):
    """equal under integer arithmetic"""
    if f == g:
        return True
    x = fite(f, fnot(g), g)
    if x is True or x is False:
        return x is False
    at = fatoms(f) | fatoms(g)
    # atoms that complete the bounds: t == v between t < v and t < v+1
    th, _ = theory(complete(at))
    return fand(x, th) is False


def complete(at):
    """with the value atoms that separate neighbouring bounds"""
    r = set(at)
    by = {}
    for a in at:
        b = _base(a)
        if b:
            by.setdefault(b[1], []).append((b[0], b[2]))
    for t, x in by.items():
        if len(x) < 2:
            continue
        vs = {b for k, b in x}
        for k, b in x:
            for v in (b, b - 1, b + 1):
                if k == '=0' and v in (b, b + 1):
                    z = lt0(sub(t, ('c', v)))
                    r |= fatoms(z)
    return r


def teq(a, b, _m={}):
    """equal terms, conditional values compared as functions"""
    if a == b:
        return True
    if not isinstance(a, tuple) or not isinstance(b, tuple):
        return False
    k = (a, b)
    r = _m.get(k)
    if r is None:
        _m[k] = False
        r = _m[k] = _teq(a, b)
    return r


def solve(h):
    """equalities that hold whenever h does: {term: value}"""
    out = {}
    if h is True or h is False:
        return out
    for a in fatoms(h):
        if a[0] == '=0' and restrict(h, a, False) is False:
            c, m = lin(a[1])
            for t, v in m.items():
                if v in (1, -1) and t[0] in ('k', 'mu', 'ld', 'arg', 'call'):
                    out[t] = scale(mklin(c, {x: y for x, y in m.items() if x != t}), -v)
                    break
    return out


def subst(t, m):
    heads = {k[0] for k in m}
    memo = {}

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        r = memo.get(id(t))
        if r is not None:
            return r[1]
        if t[0] in heads and t in m:
            r = m[t]
        elif t[0] == '+':
            r = ('c', t[1])
            for x, v in t[2]:
                r = add(r, scale(go(x), v))
        elif t[0] == 'el':
            a, o = go(t[1]), go(t[2])
            r = a if o == ('c', 0) else ('el', a, o)
        else:
            r = tuple(go(x) for x in t)
            if all(x is y for x, y in zip(r, t)):
                r = t
        memo[id(t)] = (t, r)
        return r
    return go(t)


def rebuild(t, leaf, smart, _m=None):
    """a term with some subterms replaced, in normal form again"""
    m = {} if _m is None else _m
    if not isinstance(t, tuple) or not t:
        return t
    r = m.get(id(t))
    if r is not None:
        return r[1]
    go = lambda x: rebuild(x, leaf, smart, m)
    h = t[0]
    r = leaf(t) if isinstance(h, str) else None
    if r is not None:
        pass
    elif h == '?' and len(t) == 4 and isinstance(t[1], tuple):
        a = t[1]
        b = tuple(go(x) for x in a)
        if b == a:
            v = var(a)
        elif a[0] in ('<0', '<f', '=0'):
            f = eq0 if a[0] == '=0' else lt0 if a[0] == '<0' else (lambda d: lt0(d, False))
            d = b[1]
            v = False
            for g, x in (d[1] if d[0] == 'ite' else ((True, d),)):
                v = for_(v, fand(g, f(x)))
        else:
            v = var(b)
        r = fite(v, go(t[2]), go(t[3]))
    elif h == '+' and len(t) == 3:
        r = ('c', t[1])
        for x, v in t[2]:
            y = go(x)
            r = lift(add, r, lift(lambda q, _: scale(q, v), y, ('c', 0)))
    elif h == '*' and len(t) == 2:
        r = ('c', 1)
        for x in t[1]:
            r = lift(mul, r, go(x))
    elif h == 'inv' and len(t) == 2:
        r = lift(lambda q, _: inv(q), go(t[1]), ('c', 0))
    elif h == 'ite' and len(t) == 2 and isinstance(t[1], tuple):
        r = vite([(go(f), go(x)) for f, x in t[1]])
    else:
        r = tuple(go(x) for x in t)
        if all(x is y for x, y in zip(r, t)):
            r = t
        elif r != t and isinstance(h, str):
            r = smart(r)
    m[id(t)] = (t, r)
    return r


def lift(f, a, b):
    """apply f through conditional values (bounded)"""
    if a[0] == 'ite' and b[0] == 'ite' and len(a[1]) * len(b[1]) <= 16:
        return vite([(fand(x, y), f(u, v)) for x, u in a[1] for y, v in b[1]])
    if a[0] == 'ite' and b[0] != 'ite' and len(a[1]) <= 16:
        return vite([(x, f(u, b)) for x, u in a[1]])
    if b[0] == 'ite' and a[0] != 'ite' and len(b[1]) <= 16:
        return vite([(x, f(a, u)) for x, u in b[1]])
    return f(a, b)


def isf(t):
    return t is True or t is False or isinstance(t, tuple) and t and t[0] == '?'


def _teq(a, b):
    if isf(a) and isf(b):
        return equiv(a, b)
    if a and b and (a[0] == 'ite' or b[0] == 'ite'):
        ca = a[1] if a[0] == 'ite' else ((True, a),)
        cb = b[1] if b[0] == 'ite' else ((True, b),)
        for f, t in ca:
            for g, u in cb:
                h = fand(f, g)
                if h is False:
                    continue
                if h is not True and fand(h, theory(complete(fatoms(h)))[0]) is False:
                    continue
                if not teq(t, u):
                    m = solve(h)
                    if not m or not teq(subst(t, m), subst(u, m)):
                        return False
        return True
    if len(a) != len(b):
        return False
    return all(x == y or isinstance(x, tuple) and teq(x, y) for x, y in zip(a, b))


def simplify(f):
    """drop atoms that other atoms over the same term decide"""
    if f is True or f is False:
        return f
    r = _simp.get(f)
    if r is not None:
        return r[0]
    at = fatoms(f)
    g = f
    if len(at) <= 24:
        th, cand = theory(at)
        for _ in range(3):
            ch = False
            for a in sorted(cand, key=key):
                if a not in fatoms(g):
                    continue
                for v in (False, True):
                    h = restrict(g, a, v)
                    if fand(fite(g, fnot(h), h), th) is False:
                        g = h
                        ch = True
                        break
            if not ch:
                break
        if cand and g is not True and g is not False and fand(g, th) is False:
            g = False
        elif cand and fand(fnot(g), th) is False:
            g = True
    _simp[f] = (g,)
    return g


# ---------------------------------------------------------------- ite values
_known = {}


def known(f):
    """terms that are one number whenever f holds"""
    if f is True or f is False:
        return {}
    r = _known.get(f)
    if r is None:
        r = {}
        for a in fatoms(f):
            if a[0] == '=0':
                c, m = lin(a[1])
                if len(m) == 1 and restrict(f, a, False) is False:
                    (t, v), = m.items()
                    if v in (1, -1) and t[0] != 'c':
                        r[t] = ('c', -c * v)
        _known[f] = r
    return r


def border(m):
    """cases t and u told apart by comparing them: where they are equal, the first of them"""
    ts = sorted((t for t in m if t[0] not in ('s', 'stop', 'obj', 'g')), key=key)
    if len(ts) < 2:
        return
    at = {t: fatoms(m[t]) for t in ts}
    if not any(a[0] in ('<0', '<f') for s in at.values() for a in s):
        return
    for i, w in enumerate(ts):
        for l in ts[i + 1:]:
            if w not in m or l not in m:
                continue
            both = fatoms(m[w]) | fatoms(m[l])
            d = sub(w, l)
            for integer in (True, False):
                A, B = lt0(d, integer), lt0(scale(d, -1), integer)
                if A in (True, False) or B in (True, False):
                    continue
                if A[1][0] != ('<0' if integer else '<f') or A[1] not in both and B[1] not in both:
                    continue
                E = eq0(d)
                pos = lambda f: f[2] is True

                def region(f, v):
                    for x, y in zip((A, B, E), v):
                        f = restrict(f, x[1], pos(x) == y)
                    return f
                fa, fb, fe = [{t: region(m[t], v) for t in (w, l)} for v in ((1, 0, 0), (0, 1, 0), (0, 0, 1))]
                fe = {w: for_(fe[w], fe[l]), l: False}
                for t in (w, l):
                    a, b, e = fa[t], fb[t], fe[t]
                    m[t] = simplify(fite(B, b, a) if e == a else fite(A, a, b) if e == b else fite(A, a, fite(B, b, e)))
                    if m[t] is False:
                        del m[t]
                break


def vite(cases):
    """cases: list of (formula, term) with disjoint formulas covering the space"""
    m = {}
    for f, t in cases:
        if f is False:
            continue
        if t[0] == 'ite':
            for f2, t2 in t[1]:
                g = fand(f, f2)
                if g is not False:
                    m[t2] = for_(m.get(t2, False), g)
        else:
            m[t] = for_(m.get(t, False), f)
    m = {t: simplify(f) for t, f in m.items()}
    m = {t: f for t, f in m.items() if f is not False}
    n = {}
    for t, f in m.items():
        x = known(f)
        if x and any(y in x for y in walk(t)) and not (
                any(y and y[0] == 'self' for z in x for y in walk(z)) and any(y and y[0] == 'mu' for y in walk(t))):
            t = subst(t, x)
        n[t] = for_(n.get(t, False), f)
    m = n if len(n) == len(m) else {t: simplify(f) for t, f in n.items()}
    if len(m) > 1:
        # a case that is only another one with a number put in
        for t, f in sorted(m.items(), key=lambda p: key(p[0])):
            x = known(f)
            if x and len(m) > 1:
                for u in sorted(m, key=key):
                    if u != t and any(y in x for y in walk(u)) and subst(u, x) == t and not (
                            any(y and y[0] == 'self' for z in x for y in walk(z)) and any(y and y[0] == 'mu' for y in walk(u))):
                        m[u] = simplify(for_(m[u], m.pop(t)))
                        break
    if 1 < len(m) <= 8:
        border(m)
    if len(m) == 1:
        return next(iter(m))
    if not m:
        return ('undef',)
    return ('ite', tuple(sorted(((f, t) for t, f in m.items()), key=lambda p: key(p[1]))))


def walk(t):
    """all subterms, formulas' atoms included"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        st.extend(y for y in x if isinstance(y, tuple))


_sz = {}


def tsize(t):
    """size of a term as a tree"""
    if not isinstance(t, tuple):
        return 1
    r = _sz.get(id(t))
    if r is not None and r[0] is t:
        return r[1]
    n = 1 + sum(tsize(x) for x in t)
    _sz[id(t)] = (t, n)
    return n


_dg = {}


def digest(t):
    """short name of a term too large to be written out, the same for equal terms"""
    if not isinstance(t, tuple):
        return repr(t)
    r = _dg.get(id(t))
    if r is None or r[0] is not t:
        r = _dg[id(t)] = (t, hashlib.md5(','.join(digest(x) for x in t).encode()).hexdigest()[:12])
    return r[1]


# ---------------------------------------------------------------- pretty
def pt(t):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    h = t[0]
    if h == 'c':
        return str(t[1])
    if h == '+':
        s = []
        for k, v in t[2]:
            p = pt(k)
            s.append(('' if v == 1 else '-' if v == -1 else str(v) + '*') + p)
        if t[1]:
            s.append(str(t[1]))
        return '(' + ' + '.join(s).replace('+ -', '- ') + ')'
    if h == '*':
        return '*'.join(pt(x) for x in t[1])
    if h == 'inv':
        return '1/(' + pt(t[1]) + ')'
    if h == 'arg':
        return 'arg%d' % t[1]
    if h == 'ld':
        return '*' + pt(t[1]) + ("'" if len(t) > 2 else '')
    if h == 'fld':
        return pt(t[1]) + '.' + t[2].split('.')[-1]
    if h == 'vd':
        return pt(t[1]) + '.data'
    if h == 'el':
        return pt(t[1]) + '[' + pt(t[2]) + ']'
    if h in ('call', 'vcall'):
        return t[1] + '(' + ', '.join(pt(x) for x in t[2:]) + ')'
    if h in ('<0', '<f'):
        return '(' + pt(t[1]) + ' < 0)'
    if h == '=0':
        return '(' + pt(t[1]) + ' == 0)'
    if h == 'ite':
        return '{' + '; '.join(fmt(f) + ' ? ' + pt(x) for f, x in t[1]) + '}'
    if h == 'ref':
        return '&' + pt(t[1])
    if h == 'agg':
        return '{' + ', '.join('%d: %s' % (o, pt(v)) for o, v in t[2]) + '}'
    if h == 'out':
        return 'out(%s)' % pt(t[1]) + ('@%d' % t[2] if t[2] else '')
    if h == '?' and len(t) == 4:
        return '[' + fmt(t) + ']'
    if h == 's':
        return '"' + t[1] + '"'
    return h + '(' + ', '.join(pt(x) for x in t[1:]) + ')'

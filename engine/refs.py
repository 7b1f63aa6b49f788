"""Reference contracts: the effects of functions in value normal form.

  refs.py gen            rewrite /verif/contracts/ref.json from /repo (after review)
  refs.py show BASE...   print the rows of functions
  refs.py cmp TREE [BASE...]
"""
import difflib
import hashlib
import json
import os
import re
import sys
from collections import Counter
from fractions import Fraction
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import contract as C
import terms as T
import vk
from build import VERIF, facts

REF = os.path.join(VERIF, 'contracts', 'ref.json')
SHAPE = os.path.join(VERIF, 'contracts', 'shape.json')


# ---------------------------------------------------------------- storage
class Pack:
    """terms as a table of shared nodes"""
    def __init__(self):
        self.tab = []
        self.ix = {}

    def put(self, t):
        if isinstance(t, tuple):
            i = self.ix.get(t)
            if i is None:
                n = [self.put(x) for x in t]
                i = len(self.tab)
                self.tab.append(n)
                self.ix[t] = i
            return [i]
        if isinstance(t, Fraction):
            return {'q': str(t)}
        return t


def unpack(tab):
    out = []
    for n in tab:
        out.append(tuple(out[x[0]] if isinstance(x, list) else Fraction(x['q']) if isinstance(x, dict) else x for x in n))
    return out


def load():
    j = json.load(open(REF))
    tab = unpack(j['terms'])
    g = lambda x: tab[x[0]] if isinstance(x, list) else x
    out = {}
    for b, gs in j['functions'].items():
        G = {}
        for k, r in gs.items():
            G[k] = {'dep': {g(q): set(d[0]) if d else {0} for q, cs, *d in r['rows']}, 'mul': {g(q): d[1] for q, cs, *d in r['rows'] if d},
                    'at': {g(q): [tuple((h, g(c)) for h, c in a) for a in d[2]] for q, cs, *d in r['rows'] if len(d) > 2},
                    'sig': [[tuple(l) for l in s] for s in r['sig']], 'lib': set(r['lib']), 'calls': set(r['calls']),
                    'on': [tuple((d, g(t)) for d, t in a) for a in r['on']],
                    'rows': {g(q): [g(c) for c in cs] for q, cs, *d in r['rows']}}
        out[b] = union(G)
    return out


# ---------------------------------------------------------------- terms that cannot be compared
def loopy(t, D):
    return any(y and (y[0] in ('k', 'mu', 'it') and y[1] in D or y[0] == 'ld' and len(y) > 2) for y in T.walk(t))


def isbig(t, soft=True):
    """part of the term is not written out: nothing is known of it, or (soft) no more than a digest"""
    if not soft:
        return any(y and (y[0] == 'big' and len(y) < 3 or (isinstance(y[0], str) and y[0].startswith('?') and len(y[0]) > 1)) for y in T.walk(t))
    return any(y and (y[0] == 'big' or (isinstance(y[0], str) and y[0].startswith('?') and len(y[0]) > 1)) for y in T.walk(t))


def loose(t, D):
    """subterms that depend on the loops of these depths replaced by a wildcard"""
    if not isinstance(t, tuple) or not t:
        return t
    if not loopy(t, D):
        return t
    if t[0] == 'el':
        return ('el', loose(t[1], D), ('_',))
    if t[0] in ('k', 'mu', 'it', '+', '*', 'ite', '?', 'init') or t[0] == 'ld' and len(t) > 2:
        return ('_',)
    return tuple(loose(x, D) for x in t)


def wild(r):
    return any(y == ('_',) for y in T.walk(r))


# ---------------------------------------------------------------- summaries
def skeleton(d):
    """the parameters of a function without what template arguments decide: tells overloads apart"""
    n, i = 0, 0
    for i, ch in enumerate(d):
        n += (ch == '<') - (ch == '>')
        if ch == '(' and not n and d[:i].split('::')[-1] != 'operator':
            break
    p = d[i + 1:].rsplit(')', 1)[0]
    while True:
        q = re.sub(r'<[^<>]*>', '', p)
        if q == p:
            break
        p = q
    p = re.sub(r'\b(unsigned|signed)\b ?', '', p)
    p = re.sub(r'\b(char|short|int|long|float|double|bool)\b( long| int)?', '#', p)
    return ','.join(re.sub(r'MultiOrderCounts_counter_types::\w+', '#', x).strip() for x in p.split(','))


def union(G):
    """groups of instances taken together"""
    out = {'groups': G, 'rows': {}, 'dep': {}, 'mul': {}, 'at': {}, 'on': [], 'calls': set(), 'lib': set(), 'sig': []}
    for k in sorted(G):
        g = G[k]
        out['lib'] |= g['lib']
        out['calls'] |= g['calls']
        out['on'] += g['on']
        out['sig'] += [s for s in g['sig'] if s not in out['sig']]
        for r, cs in g['rows'].items():
            L = out['rows'].setdefault(r, [])
            L += [c for c in cs if c not in L]
            out['dep'].setdefault(r, set()).update(g['dep'].get(r, {0}))
            out['mul'][r] = max(out['mul'].get(r, 1), g['mul'].get(r, 1))
            if r in g['at']:
                out['at'].setdefault(r, []).extend(g['at'][r])
    out['sig'].sort()
    return out


def summary(P, base, want=None):
    """the rows of all instances of a function, overload by overload"""
    G = {}
    loc = {}
    for f in P.fns(base):
        R = C.rows(f, want)
        g = G.setdefault(skeleton(f.dem), {'rows': {}, 'dep': {}, 'mul': {}, 'at': {}, 'on': [], 'calls': set(), 'lib': set(), 'sig': []})
        g['lib'] |= R.lib
        g['calls'] |= called_by(P, f)
        t = C.goings(f)
        if t not in g['on']:
            g['on'].append(t)
        s = C.loop_sig(f)
        if s not in g['sig']:
            g['sig'] = sorted(g['sig'] + [s])
        for r in R.rows:
            L = g['rows'].setdefault(r, [])
            for c in R.conds(r):
                if c not in L:
                    L.append(c)
            loc.setdefault(r, R.locs[r])
            g['dep'].setdefault(r, set()).update(R.dep[r])
            g['mul'][r] = max(g['mul'].get(r, 1), R.times(r))
            a = R.levels(r)
            if a and a not in g['at'].setdefault(r, []):
                g['at'][r].append(a)
    return union(G), loc


def tx(r, n=700):
    s = '%s %s(%s)' % (r[0], r[1], ', '.join(T.pt(a) for a in r[2]))
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 3:]


def cx(cs, n=700):
    s = ' / '.join(sorted(T.fmt(c) for c in cs))
    return s if len(s) <= n else s[:n // 2] + ' ... ' + s[-n // 3:]


def stops(E, A):
    """when the program gives up, in both trees alike: what it would have done then does not matter"""
    S = False
    for r, c in E.items():
        if r[0] != 'call' or r[1] not in ('exit', 'abort', '__cxa_throw') or r[1] == 'exit' and r[2] and r[2][0] == ('c', 0):
            continue
        if r in A and len(c) == len(A[r]) == 1 and T.isf(c[0]) and c[0] is not True and T.equiv(c[0], A[r][0]) \
                and not any(y and y[0] in ('k', 'mu', 'it', 'self') for y in T.walk(c[0])):
            S = T.for_(S, c[0])
    return S


def sameconds(E, A, r=None, S=False):
    if S is not False and len(E) == len(A) == 1 and T.isf(E[0]) and T.isf(A[0]):
        g = T.fnot(S)
        return sameconds(E, A, r) or T.equiv(T.fand(E[0], g), T.fand(A[0], g))
    if all(any(T.equiv(e, a) for a in A) for e in E) and all(any(T.equiv(e, a) for e in E) for a in A):
        return True
    if r and r[0] == 'store' and len(E) == len(A) == 1:
        # a store of what the place already holds is no effect
        h = change(T.fatoms(E[0]) | T.fatoms(A[0]), *r[2])
        return h is not True and T.equiv(T.fand(E[0], h), T.fand(A[0], h))
    return False


def change(atoms, p, v):
    """place p holds another value than v, in terms of the atoms"""
    h = True
    for q in (('ld', p), ('ld', p, "'")):
        for w in (v, ('c', 1 - v[1]) if T.isc(v) and v[1] in (0, 1) else None):
            d = T.eq0(T.sub(q, w)) if w else True
            if T.fatoms(d) & atoms:
                h = T.fand(h, T.fnot(d) if w is v else d)
            if w is v:
                for n in (True, False):
                    x, y = T.lt0(T.sub(q, w), n), T.lt0(T.sub(w, q), n)
                    if (T.fatoms(x) | T.fatoms(y)) & atoms:
                        h = T.fand(h, T.for_(x, y))
    return h


MUT = set('clear push_back pop_back resize erase insert assign push_front pop_front swap reserve operator= append'.split())


def names(t):
    for y in T.walk(t):
        if y and y[0] in ('call', 'icall') and len(y) > 1 and isinstance(y[1], str):
            yield y[1].split('<')[0]
        elif y and y[0] == 'at':
            yield 'operator[]'


def moved(e, a):
    """an effect is found at a loop depth that the other does not have; negative: one of several values of a store"""
    se, sa = ({x for x in s if x >= 0} for s in (e, a))
    e, a = ({x if x >= 0 else -1 - x for x in s} for s in (e, a))
    return (e <= a or a <= e) and bool(se - a or sa - e)


def depths(esig, asig):
    """depths of the loops whose shape is not one of the reference's"""
    D = set()
    for a in asig:
        best = None
        for e in esig or [[]]:
            ca, ce = Counter(l[0] for l in a), Counter(l[0] for l in e)
            d = set(ca - ce) | set(ce - ca)
            # a loop left by what it carries along, not by a jump
            for l in Counter(a) - Counter(e):
                if any(x[0] == l[0] and x[3] < l[3] for x in Counter(e) - Counter(a)):
                    d.add(l[0])
            if best is None or len(d) < len(best):
                best = d
        D |= best
    return D


def uninitialised(E, A):
    """depths of the loops that carry around a value none of the reference's loops does, and that is not set at first"""
    a, e = states(A), states(E)
    return {d for d in a if any(y == ('undef',) for i, n in a[d] - e.get(d, set()) for y in T.walk(i))}


def states(rows):
    out = {}
    for r, cs in rows.items():
        for y in T.walk((r,) + tuple(cs)):
            if y and y[0] == 'mu' and len(y) > 3:
                out.setdefault(y[1], set()).add((y[2], y[3:]))
    return out


def rephrased(E, A):
    """depths of the loops that carry other values around than the reference's: neither start nor step of one is there"""
    a, e = states(A), states(E)
    D = set()

    def odd(x, y):
        i, n = {z[0] for z in y}, {z[1] for z in y}
        return any(z[0] not in i and z[1] not in n for z in x)
    def span(x, y):
        ix, iy = {z[0] for z in x}, {z[0] for z in y}
        d = ix ^ iy
        at = lambda t: set(T.lin(t)[1])
        c = set().union(*[at(t) for t in ix & iy]) if ix & iy else set()
        return bool(d) and all(len(at(t)) > 1 and at(t) <= c for t in d)
    for d in a:
        if d in e and span(a[d], e[d]):
            D.add(d)
        if d in e and odd(a[d] - e[d], e[d]) and odd(e[d] - a[d], a[d]):
            D.add(d)
    return D


CONT = ('std::vector', 'std::deque', 'std::__cxx11::basic_string', 'std::map', 'std::set')


def objects(rows):
    return {y for r, cs in rows.items() for y in T.walk((r,) + tuple(cs))
            if y and y[0] == 'obj' and isinstance(y[1], str) and any(c in y[1] for c in CONT)}


def reconstructed(E, A):
    """local containers that are set up by another constructor than the reference's -> rows with these as one, types"""
    e, a = objects(E), objects(A)
    ty = set()
    for t in {y[1] for y in e} & {y[1] for y in a}:
        n = lambda s: {tuple(isinstance(z, tuple) and z[0] in ('vd', 'vst', 'vfin', 'el', 'obj') for z in y[2:]) for y in s if y[1] == t}
        if n(e) != n(a):
            ty.add(t)
    if not ty:
        return E, A, ty
    S = {y for y in e | a if y[1] in ty}

    def f(t):
        if isinstance(t, tuple):
            if t in S:
                return ('obj', t[1], ('_',))
            return tuple(f(x) for x in t)
        return t
    filled = lambda r: r[0] in ('store', 'call') and (r[0] == 'store' or r[1] in MUT) and r[2] and any(y in S for y in T.walk(r[2][0]))
    out = []
    for x in (E, A):
        out.append(fold({r: c for r, c in x.items() if not filled(r)}, f))
    return out[0], out[1], ty


def pair(E, A):
    """rows matched: {ref row: [cur rows]} exact first, then equal as functions"""
    M = {r: [r] for r in E if r in A}
    used = set(M)
    for e in E:
        if e in M:
            continue
        for a in A:
            if a in used or a[:2] != e[:2] or len(a[2]) != len(e[2]):
                continue
            if T.teq(e[2], a[2]):
                M.setdefault(e, []).append(a)
                used.add(a)
    return M, used


GROW = set('push_back emplace_back resize assign insert append operator= operator+= swap'.split())
SHRINK = [set(x.split()) for x in ('pop_back resize', 'pop_back erase', 'clear erase', 'clear assign', 'clear operator=', 'clear swap', 'erase resize')]


def rebuilt(miss, extra):
    """containers changed by other members of the library than required: {container}"""
    out = set()
    for r in miss:
        for a in extra:
            if r[0] == a[0] == 'call' and r[1] != a[1] and r[2] and a[2] and r[2][0] == a[2][0] and (
                    {r[1], a[1]} <= GROW or {r[1], a[1]} in SHRINK):
                out.add(r[2][0])
            # elements filled before or after they are put there
            if r[0] == a[0] == 'call' and r[1] == a[1] and r[1] in ('push_back', 'emplace_back') and r[2] and a[2] and r[2][0] == a[2][0] and \
                    any(x[0] == 'store' and into(x, {r[2][0]}) for x in (miss + extra)):
                out.add(r[2][0])
    return out


def into(r, S):
    """is the row a change of one of these containers?"""
    return bool(r[2]) and r[0] in ('store', 'call') and (r[0] == 'store' or r[1] in MUT) and any(y in S for y in T.walk(r[2][0]))


def same_under(a, b, h):
    if T.teq(a, b):
        return True
    m = T.solve(h)
    return bool(m) and T.teq(T.subst(a, m), T.subst(b, m))


def covered(X, B, rows, brows):
    """does every row of X, where it happens, equal rows of B?"""
    for r in X:
        for c in rows[r]:
            if not T.isf(c):
                return False
            cov = False
            for b in B:
                for d in brows[b]:
                    if not T.isf(d):
                        return False
                    h = T.fand(c, d)
                    if h is not False and same_under(r[2], b[2], h):
                        cov = T.for_(cov, h)
            x = T.fand(c, T.fnot(cov))
            if x is not False and T.fand(x, T.theory(T.complete(T.fatoms(x)))[0]) is not False:
                return False
    return True


def split(E, A, M, used):
    """unmatched or differing effects of one kind that are equal case by case"""
    diff = {e for e in M if not sameconds(E[e], [c for a in M[e] for c in A[a]], e)}
    kinds = {}
    for e in E:
        if e not in M or e in diff:
            kinds.setdefault((e[0], e[1], len(e[2])), ([], []))[0].append(e)
    for a in A:
        if a not in used or any(a in M[e] for e in diff):
            kinds.setdefault((a[0], a[1], len(a[2])), ([], []))[1].append(a)
    ok = set()
    for k, (es, as_) in kinds.items():
        if es and as_ and len(es) * len(as_) <= 400 and covered(es, as_, E, A) and covered(as_, es, A, E):
            ok |= set(es)
            used |= set(as_)
            for e in es:
                M[e] = None
    return M, used


def merge(rows, D):
    out = {}
    for r, cs in rows.items():
        lr = (r[0], r[1], tuple(loose(a, D) for a in r[2]))
        L = out.setdefault(lr, [])
        for c in cs:
            if loopy(c, D) if not isinstance(c, bool) else False:
                c = ('_',)
            if c not in L:
                L.append(c)
    return out


_erased = {}


def erase(t):
    """without the numbers of like-typed locals"""
    if not isinstance(t, tuple):
        return t
    r = _erased.get(id(t))
    if r is not None and r[0] is t:
        return r[1]
    u = t[:-1] if t and t[0] == 'obj' and isinstance(t[-1], tuple) and t[-1][:1] == ('#',) else t
    n = tuple(erase(x) for x in u)
    if u is t and all(x is y for x, y in zip(n, t)):
        n = t
    _erased[id(t)] = (t, n)
    return n


def numbered(rows):
    """groups of like-typed locals: {object: numbers}"""
    g = {}
    for r, cs in rows.items():
        for y in T.walk((r,) + tuple(cs)):
            if y and y[0] == 'obj' and isinstance(y[-1], tuple) and y[-1][:1] == ('#',):
                g.setdefault(erase(y), set()).add(y[-1][1])
    return g


def renumber(t, m):
    if isinstance(t, tuple):
        if t and t[0] == 'obj' and isinstance(t[-1], tuple) and t[-1][:1] == ('#',):
            k = erase(t)
            i = m.get((k, t[-1][1]))
            return k if i is None else k + (('#', i),)
        return tuple(renumber(x, m) for x in t)
    return t


def fold(rows, f):
    out = {}
    for r, cs in rows.items():
        L = out.setdefault(f(r), [])
        for c in cs:
            c = f(c)
            if c not in L:
                L.append(c)
    return out


def exchanged(E, A):
    """with all effects equal but for which of several like-typed locals they use: is no matching of the locals possible?"""
    import itertools
    ge, ga = numbered(E), numbered(A)
    keys = [k for k in ge if len(ge[k]) == len(ga.get(k, ())) and 1 < len(ge[k]) <= 4]
    if not keys:
        return False
    drop = lambda g: {(k, i): None for k in g for i in g[k] if k not in keys}
    E2 = fold(E, lambda t: renumber(t, {**{(k, i): i for k in keys for i in ge[k]}, **drop(ge)}))
    n = 0
    for ps in itertools.product(*[list(itertools.permutations(sorted(ge[k]))) for k in keys]):
        m = drop(ga)
        for k, p in zip(keys, ps):
            m.update({(k, i): j for i, j in zip(sorted(ga[k]), p)})
        A2 = fold(A, lambda t: renumber(t, m))
        M, used = pair(E2, A2)
        if len(M) == len(E2) and len(used) == len(A2) and all(sameconds(E2[e], [c for a in M[e] for c in A2[a]], e) for e in E2):
            return False
        n += 1
        if n > 300:
            return False
    return True


def called(P, base):
    """base names of the repository functions a function calls"""
    return {y for f in P.fns(base) for y in called_by(P, f)}


def called_by(P, f):
    return {P.basename(t) for x in f.insts() if x.op == 'call' for t in f.targets(x) if t in P.raw}


def forced(P, names):
    """the program with these functions inlined too"""
    if not hasattr(P, '_forced'):
        P._forced = {}
    k = tuple(sorted(names))
    if k not in P._forced:
        back = {o: n for n, o in P.alias[0].items()} if P.alias else {}
        P._forced[k] = vk.Prog(facts(P.repo, force=tuple(sorted('=' + back.get(x[1:], x[1:]) if x[0] == '=' else back.get(x, x) for x in k)), also=tuple(sorted(back.values()))), P.repo, P.alias)
    return P._forced[k]


def inlined(rows, Y, yrows, shift):
    """rows with the calls of Y replaced by the effects of Y; None if not possible"""
    y = vk.last(Y)
    iscall = lambda t: t and t[0] == 'call' and t[1] == y

    def sub(t, args):
        def leaf(z):
            if z[0] == 'arg':
                return args[z[1]] if z[1] < len(args) else ('?x',)
            if z[0] == 'k' and shift:
                return ('k', z[1] + shift)
            if z[0] in ('mu', 'it') and shift:
                return (z[0], z[1] + shift) + tuple(sub(w, args) for w in z[2:])
        return T.rebuild(t, leaf, vk._smart)
    rets = [(r[2][0], cs[0]) for r, cs in yrows.items() if r[0] == 'ret' and len(cs) == 1]
    if any(len(cs) != 1 for cs in yrows.values()) or sum(r[0] == 'ret' for r in yrows) != len(rets):
        return None

    def val(t):
        if not iscall(t) or not rets:
            return None
        return T.vite([(sub(c, t[2:]), sub(v, t[2:])) for v, c in rets])
    out = {}
    for r, cs in rows.items():
        if r[:2] == ('call', y):
            for q, qc in yrows.items():
                if q[0] == 'ret':
                    continue
                n = (q[0], q[1], tuple(sub(a, r[2]) for a in q[2]))
                for c in cs:
                    f = T.fand(T.rebuild(c, val, vk._smart), sub(qc[0], r[2]))
                    if f is not False:
                        out.setdefault(n, []).append(f)
        else:
            n = (r[0], r[1], tuple(T.rebuild(a, val, vk._smart) for a in r[2]))
            out.setdefault(n, []).extend(T.rebuild(c, val, vk._smart) for c in cs)
    return out


def compare(P, base, ref, sel=None, refs=None):
    """-> (violations [(loc, message)], undecided [message], rows compared)"""
    b, u, n = compare0(P, base, ref, sel)
    if not b:
        return b, u, n
    was = {x for r, cs in ref['rows'].items() for x in [r[1]] + list(names((r,) + tuple(cs)))}
    now = called(P, base)
    new = {y for y in now if y not in ref['calls']}
    if new:
        # functions the required effects know nothing of: what they do is judged here
        b2, u2, n = compare0(forced(P, {'=' + y if y == base else y for y in new}), base, ref, sel)
        if len(b2) < len(b):
            b, u = b2, u2
    if b and refs:
        lasts = {vk.last(y) for y in now}
        for y in refs:
            l = vk.last(y)
            if y in ref['calls'] and l in was and l not in lasts and y != base and sum(vk.last(z) == l for z in refs) == 1:
                # the body in place of the call
                for shift in (0, 1, 2):
                    try:
                        E = inlined(ref['rows'], y, refs[y]['rows'], shift)
                    except RecursionError:
                        E = None
                    if E is None:
                        break
                    b2, u2, n2 = compare0(P, base, {'rows': E, 'sig': ref['sig'], 'lib': ref['lib']}, None if sel is None else sel)
                    if len(b2) < len(b):
                        b, u = b2, u2
                    if not b:
                        break
            if not b:
                break
    return b, u, n


def compare0(P, base, ref, sel=None):
    cur, loc = summary(P, base)
    keep = (lambda r: True) if sel is None else (lambda r: sel(r[0], r[1], r))
    G, H = ref.get('groups', {}), cur['groups']
    loc = {erase(r): l for r, l in loc.items()}
    if len(G) > 1 and set(G) == set(H):
        bs, us, ns = [], [], 0
        for k in sorted(G):
            b, u, n = compareg(P, base, G[k], H[k], loc, keep)
            bs += [x for x in b if x not in bs]
            us += [x for x in u if x not in us]
            ns += n
        return bs, us, ns
    return compareg(P, base, ref, cur, loc, keep)


def erased(x):
    dep, mul = {}, {}
    for r, d in x.get('dep', {}).items():
        dep.setdefault(erase(r), set()).update(d)
    for r, d in x.get('mul', {}).items():
        mul[erase(r)] = max(d, mul.get(erase(r), 1))
    at = {}
    for r, L in x.get('at', {}).items():
        at.setdefault(erase(r), []).extend(tuple((d, erase(c)) for d, c in a) for a in L)
    on = [tuple((d, erase(t)) for d, t in a) for a in x.get('on', [])]
    return {'at': at, 'on': on, 'sig': x['sig'], 'lib': x['lib'], 'rows': fold(x['rows'], erase), 'dep': dep if 'dep' in x else None, 'mul': mul}


def compareg(P, base, ref, cur, loc, keep):
    full = [{r: c for r, c in x.items() if keep(r)} for x in (ref['rows'], cur['rows'])]
    b, u, n, exact = compare1(P, base, erased(ref), erased(cur), loc, keep)
    if not b and not u and exact and exchanged(*full):
        b = [(P.fns(base)[0].loc(), '%s: two local objects of the same type are exchanged in some effects' % base)]
    return b, u, n


def alike(x, y):
    """the same conditions at the same depths"""
    y = list(y)
    if len(x) != len(y):
        return False
    for d, c in x:
        m = next((z for z in y if z[0] == d and T.equiv(c, z[1])), None)
        if m is None:
            return False
        y.remove(m)
    return True


def going(x, y, soft=False):
    """the loops go on under the same conditions, each at the same depth; (soft) as far as these are written out"""
    if soft:
        x, y = ([z for z in w if not isbig(z[1])] for w in (x, y))
        ds = {z[0] for z in x} & {z[0] for z in y}
        x, y = ([z for z in w if z[0] in ds] for w in (x, y))
    has = lambda z, L: any(z[0] == w[0] and (z[1] == w[1] or T.teq(z[1], w[1])) for w in L)
    return all(has(z, y) for z in set(x)) and all(has(z, x) for z in set(y))


def compare1(P, base, ref, cur, loc, keep):
    E = {r: c for r, c in ref['rows'].items() if keep(r)}
    A = {r: c for r, c in cur['rows'].items() if keep(r)}
    n = len(E)
    S = stops(E, A)
    M, used = split(E, A, *pair(E, A))
    miss = [r for r in E if r not in M]
    extra = [r for r in A if r not in used]
    diff = [(e, M[e]) for e in M if M[e] is not None and not sameconds(E[e], [c for a in M[e] for c in A[a]], e, S)]
    if not (miss or extra or diff):
        bad = []
        if ref['sig'] == cur['sig'] and ref['dep'] is not None:
            for r in E:
                if r in A and ref['mul'].get(r, 1) != cur['mul'].get(r, 1):
                    bad.append((loc.get(r), '%s: effect "%s" happens %d times in a row; required: %d' % (base, tx(r), cur['mul'].get(r, 1), ref['mul'].get(r, 1))))
                e, a = ref['dep'].get(r, {0}), cur['dep'].get(r, {0})
                if r in A and moved(e, a):
                    bad.append((loc.get(r), '%s: effect "%s" is found at loop depth %s; required: %s' % (base, tx(r), sorted(x for x in a if x >= 0), sorted(x for x in e if x >= 0))))
                e, a = ref['at'].get(r), cur['at'].get(r)
                ds = lambda at, dep: {d for x in at for d, _ in x} if at else {x for x in dep if x >= 0}
                if r in A and (e or a) and ds(e, ref['dep'].get(r, {0})) == ds(a, cur['dep'].get(r, {0})):
                    for x in a or [()]:
                        if not any(alike(x, y) for y in e or [()]):
                            bad.append((loc.get(r), '%s: effect "%s" happens at loop depths %s' % (base, tx(r), '; '.join('%d when [%s]' % (d, cx([c], 300)) for d, c in x))))
                            break
        if ref['on'] and len(E) == len(ref['rows']) and cur['lib'] <= ref['lib']:
            for x in cur['on']:
                if not any(going(x, y, ref['sig'] != cur['sig']) for y in ref['on']):
                    y = min(ref['on'], key=lambda y: len(set(x) - set(y)))
                    bad.append((P.fns(base)[0].loc(), '%s: a loop goes on %s; required: %s' % (
                        base, ' / '.join(T.pt(t)[:300] for d, t in x if (d, t) not in y), ' / '.join(T.pt(t)[:300] for d, t in y if (d, t) not in x))))
                    break
        return bad, [], n, all(v is not None for v in M.values())
    floc = P.fns(base)[0].loc()
    und = []
    E2, A2, ty = reconstructed(E, A)
    if ty:
        und.append('%s: not decided: contents of local %s, set up in another way' % (base, ', '.join(sorted(ty))))
        E, A = E2, A2
        for a in A:
            loc.setdefault(a, floc)
        M, used = split(E, A, *pair(E, A))
        miss = [r for r in E if r not in M]
        extra = [r for r in A if r not in used]
        diff = [(e, M[e]) for e in M if M[e] is not None and not sameconds(E[e], [c for a in M[e] for c in A[a]], e, S)]
        # effects on these objects and what may stand for them
        o = lambda r: any(y and y[0] == 'obj' and y[1] in ty for y in T.walk(r))
        ks = {(r[0], r[1], len(r[2])) for r in miss + extra + [e for e, _ in diff] if o(r)}
        miss = [r for r in miss if (r[0], r[1], len(r[2])) not in ks]
        extra = [r for r in extra if (r[0], r[1], len(r[2])) not in ks]
        diff = [(e, a) for e, a in diff if (e[0], e[1], len(e[2])) not in ks]
    newlib = cur['lib'] - ref['lib']
    oldlib = ref['lib'] - cur['lib']
    D = depths(ref['sig'], cur['sig'])
    if [Counter(l[:3] for l in x) for x in ref['sig']] == [Counter(l[:3] for l in x) for x in cur['sig']]:
        D -= uninitialised(E, A)
    D |= rephrased(E, A)
    cw = lambda cs: any(c == ('_',) for c in cs)
    if D:
        E, A = merge(E, D), merge(A, D)
        for a in list(A):
            loc.setdefault(a, floc)
        M, used = pair(E, A)
        miss = [r for r in E if r not in M]
        extra = [r for r in A if r not in used]
        diff = []
        for e in M:
            ac = [c for a in M[e] for c in A[a]]
            if cw(E[e]) or cw(ac):
                continue
            if wild(e) and not sameconds(E[e], ac, e, S):
                continue
            if not sameconds(E[e], ac, e, S):
                diff.append((e, M[e]))

    soft = bool(D or newlib)

    def opaque(r, cs, libs):
        t = (r,) + tuple(cs)
        if isbig(t, soft) or wild(t):
            return True
        if r[1] in libs and r[0] == 'call':
            return not (r[1] in MUT and r[2] and not any(y and y[0] == 'obj' for y in T.walk(r[2][0])))
        return bool(libs) and any(x in libs for x in names(t))
    C = rebuilt(miss, extra)
    if C:
        und.append('%s: not decided: changes of %s, made through other members' % (base, ', '.join(sorted(T.pt(c) for c in C))))
        miss = [r for r in miss if not into(r, C)]
        extra = [r for r in extra if not into(r, C)]
    oe = [r for r in extra if opaque(r, A[r], newlib)]
    od = [(e, a) for e, a in diff if any(opaque(x, A[x], newlib) for x in a) or soft and opaque(e, E[e], oldlib)]
    om = [r for r in miss if soft and opaque(r, E[r], oldlib) or isbig((r,) + tuple(E[r]), soft)]
    kinds = {r[:2] for r in oe} | ({r[:2] for r in A if wild(r)} if D else set())
    om += [r for r in miss if r not in om and r[:2] in kinds]
    left = {r[:2] for r in A}
    # a repository function no longer called at all is not a matter of loops
    om = [r for r in om if r[:2] in left or r[0] != 'call' or not repo_call(P, r[1]) or newlib]
    kinds = {r[:2] for r in om} | ({r[:2] for r in E if wild(r)} if D else set())
    oe += [r for r in extra if r not in oe and r[:2] in kinds and (D or newlib)]
    if oe or od or om:
        und.append('%s: not decided: %d of %d effects (%s%s)' % (
            base, len(om) + len(od), n, 'loop rewritten at depth %s ' % sorted(D) if D else '',
            'library calls %s' % sorted(newlib) if newlib else 'opaque values'))
    bad = []
    for e, a in diff:
        if (e, a) in od:
            continue
        bad.append((loc.get(a[0], floc), '%s: effect "%s" happens when [%s]; required: when [%s]' % (
            base, tx(a[0]), cx([c for x in a for c in A[x]]), cx(E[e]))))
    for r in extra:
        if r not in oe:
            bad.append((loc.get(r, floc), '%s: effect "%s" (when [%s]) is none of the required effects' % (base, tx(r), cx(A[r]))))
    for r in miss:
        if r not in om:
            bad.append((floc, '%s: required effect "%s" (when [%s]) is absent' % (base, tx(r), cx(E[r]))))
    return bad, und, n, False


def repo_call(P, name):
    if not hasattr(P, '_lasts'):
        P._lasts = {vk.last(b) for b in P.bases()}
    return name.split('<')[0] in P._lasts


def struct(n):
    return n.rsplit('::', 1)[0] if '::' in n else ''


def renamed(P, shape):
    """functions and members found under another name than the reference's: ({new: old}, {new: old})"""
    fns, fields = {}, {}
    old, new = shape['defined'], P.defined
    gone = [b for b in old if b not in new]
    came = [b for b in new if b not in old]
    for g in gone:
        same = lambda c: struct(c) == struct(g) and new[c] == old[g]
        C = [c for c in came if same(c)]
        if C and len(C) == sum(struct(h) == struct(g) and old[h] == old[g] for h in gone):
            # several with the same parameters: the one with the closest name
            C.sort(key=lambda c: -difflib.SequenceMatcher(None, c, g).ratio())
            c = next((c for c in C if c not in fns), None)
            if c:
                fns[c] = g
    for s, fs in shape['types'].items():
        ns = P.types.get(s)
        if not ns or ns == fs:
            continue
        gf = [tuple(x) for x in fs if x[0] != 'base' and x[1] not in {y[1] for y in ns}]
        cf = [tuple(x) for x in ns if x[0] != 'base' and x[1] not in {y[1] for y in fs}]
        for x in gf:
            C = [y for y in cf if (y[0], y[2]) == (x[0], x[2])]
            G = [y for y in gf if (y[0], y[2]) == (x[0], x[2])]
            if C and len(C) == len(G):
                fields['%s.%s' % (s, C[G.index(x)][1])] = '%s.%s' % (s, x[1])
    return fns, fields


def program(repo='/repo'):
    P = vk.Prog(facts(repo), repo)
    shape = json.load(open(SHAPE))
    a = renamed(P, shape)
    if any(a):
        P = vk.Prog(facts(repo, also=tuple(sorted(a[0]))), repo, a)
    return P


def generate(repo='/repo'):
    P = vk.Prog(facts(repo), repo)
    pk = Pack()
    out = {}
    n = 0
    for b in sorted(P.bases()):
        fs = P.fns(b)
        if all(f.inlined for f in fs) and not b.startswith('main@'):
            continue
        s, _ = summary(P, b)
        extra = lambda g, r: [[sorted(g['dep'][r]), g['mul'][r]] + ([[[[d, pk.put(c)] for d, c in a] for a in g['at'][r]]] if g['at'].get(r) else [])] \
            if g['dep'][r] != {0} or g['mul'][r] > 1 else []
        out[b] = {k: {'sig': g['sig'], 'lib': sorted(g['lib']), 'calls': sorted(g['calls']),
                      'on': [[[d, pk.put(t)] for d, t in a] for a in g['on']],
                      'rows': sorted(([pk.put(r), [pk.put(c) for c in cs]] + [z for y in extra(g, r) for z in y]
                                      for r, cs in g['rows'].items()), key=lambda p: p[0][0])} for k, g in sorted(s['groups'].items())}
        n += len(s['rows'])
    os.makedirs(os.path.dirname(REF), exist_ok=True)
    with open(REF, 'w') as o:
        o.write('{"functions": {\n')
        o.write(',\n'.join(json.dumps(b) + ': ' + json.dumps(r, separators=(',', ':')) for b, r in sorted(out.items())))
        o.write('},\n"terms": [\n')
        o.write(',\n'.join(json.dumps(x, separators=(',', ':')) for x in pk.tab))
        o.write(']}\n')
    with open(SHAPE, 'w') as o:
        o.write('{"defined": {\n' + ',\n'.join(json.dumps(b) + ': ' + json.dumps(x) for b, x in sorted(P.defined.items())))
        o.write('},\n"types": {\n' + ',\n'.join(json.dumps(b) + ': ' + json.dumps(x) for b, x in sorted(P.types.items())) + '}}\n')
    print(len(out), 'functions', n, 'rows', len(pk.tab), 'terms')


if __name__ == '__main__':
    if sys.argv[1] == 'gen':
        generate(sys.argv[2] if len(sys.argv) > 2 else '/repo')
    elif sys.argv[1] == 'show':
        P = vk.Prog(facts())
        for b in sys.argv[2:]:
            s, loc = summary(P, b)
            print('##', b, s['sig'])
            for r, c in s['rows'].items():
                print('  ', loc[r], tx(r, 5000), '  WHEN', cx(c, 5000))
    elif sys.argv[1] == 'cmp':
        P = program(sys.argv[2])
        ref = load()
        for b in (sys.argv[3:] or ref):
            if b not in P.bases():
                print('VANISHED', b)
                continue
            bad, und, n = compare(P, b, ref[b], None, ref)
            for u in und:
                print('UNDECIDED', u)
            for l, m in bad:
                print('BAD', l, m[:int(os.environ.get('W', 600))])

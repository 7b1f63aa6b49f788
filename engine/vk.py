"""Facts engine: functions of the repository in SSA form, control-flow facts,
value-normal-form terms, reaching conditions, effects and the call graph."""
import json
import re
import sys
from collections import Counter, defaultdict
from fractions import Fraction
import terms as T
from terms import (num, add, sub, mul, inv, scale, lt0, eq0, fand, for_, fnot, fite, var, vite, key, isc, lin, mklin)

sys.setrecursionlimit(100000)

NORET = {'exit', 'abort', '_exit', '__assert_fail', '__cxa_throw', '__cxa_rethrow', 'std::terminate',
         '__clang_call_terminate', '__cxa_bad_cast'}


def last(n):
    """last component of a qualified name"""
    if 'operator' in n:
        i = n.index('operator')
        return n[i:]
    return n.split('::')[-1]


class Inst(dict):
    __slots__ = ()
    def __getattr__(self, k):
        return self.get(k)


ENDPTR = re.compile(r'(__isoc23_)?strto(l|ul|ll|ull|d|f|ld)$')
# iterators of node-based containers
CURSOR = re.compile(r'std::(_Rb_tree_|_List_|__detail::_Node_)(const_)?iterator')


def nonzero(t):
    if t[0] == 'ite' and len(t[1]) <= 6:
        r = False
        for f, v in t[1]:
            r = for_(r, fand(f, nonzero(v)))
        return r
    return fnot(eq0(t))


class Fn:
    def __init__(self, prog, j):
        self.prog = prog
        self.name, self.dem, self.base = j['name'], j['dem'], j['base']
        self.file, self.line = j['file'], j['line']
        self.args = j['args']
        self.ret = j['ret']
        self.inlined = j['inlined']
        self.blocks = []
        self.ins = {}
        self.where = {}
        for bi, b in enumerate(j['blocks']):
            L = []
            for k, x in enumerate(b):
                x = Inst(x)
                L.append(x)
                self.ins[x['id']] = x
                self.where[x['id']] = (bi, k)
            self.blocks.append(L)
        self._sees_through()
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b in range(n):
            t = self.blocks[b][-1] if self.blocks[b] else None
            for s in (t.su or []) if t else []:
                if s not in self.succ[b]:
                    self.succ[b].append(s)
        self._cut_noreturn()
        for b in range(n):
            for s in self.succ[b]:
                self.pred[s].append(b)
        self._reachable()
        self._dom()
        self._loops()
        self._lev = 0          # level of address evaluation, see up()
        self._nam = 0          # inside the naming of a local
        self._tc = {}          # (level, naming) -> cache
        self._stack = []
        self._poison = 0
        self._exp = {}
        self._bigs = {}
        self._uses = None
        self._vecs = None

    def _sees_through(self):
        """addresses of locals seen after a loop are the addresses themselves"""
        al = {}
        for L in self.blocks:
            for x in L:
                if x.op == 'phi' and len(x['o']) == 1 and x['o'][0][0][0] == 'i':
                    o = x['o'][0][0]
                    while o[0] == 'i' and (self.ins[o[1]].op in ('getelementptr', 'bitcast') or o[1] in al):
                        o = al[o[1]] if o[1] in al else self.ins[o[1]]['o'][0]
                    if o[0] == 'i' and self.ins[o[1]].op in ('alloca', 'call'):
                        al[x['id']] = x['o'][0][0]

        def put(o):
            if isinstance(o, list):
                if len(o) == 2 and o[0] == 'i' and o[1] in al:
                    return put(al[o[1]])
                return [put(y) for y in o]
            return o
        if al:
            for L in self.blocks:
                for x in L:
                    if 'o' in x:
                        x['o'] = put(x['o'])
                    if x.callee:
                        x['callee'] = put(x.callee)

    # -- control flow ------------------------------------------------
    def calls_noret(self, b):
        for x in self.blocks[b]:
            if x.op in ('call', 'invoke') and (x.noret or x.cb in NORET or x.fn in self.prog.noret):
                return True
        return False

    def _cut_noreturn(self):
        self.dead = set()
        for b in range(len(self.blocks)):
            t = self.blocks[b][-1] if self.blocks[b] else None
            if t is None or t.op == 'unreachable' or self.calls_noret(b):
                self.succ[b] = []
                self.dead.add(b)
        # blocks all of whose successors are dead ends (error exits)
        ch = True
        while ch:
            ch = False
            for b in range(len(self.blocks)):
                if b not in self.dead and self.succ[b] and all(s in self.dead for s in self.succ[b]):
                    self.dead.add(b)
                    ch = True

    def _reachable(self):
        seen = [0]
        S = {0}
        while seen:
            b = seen.pop()
            for s in self.succ[b]:
                if s not in S:
                    S.add(s)
                    seen.append(s)
        self.reachable = S
        # reverse postorder
        order = []
        vis = set()

        def dfs(b):
            st = [(b, iter(self.succ[b]))]
            vis.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in vis:
                        vis.add(s)
                        st.append((s, iter(self.succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        self.rpo = order[::-1]
        self.rpon = {b: i for i, b in enumerate(self.rpo)}

    def _dom(self):
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a != c:
                        while self.rpon[a] > self.rpon[c]:
                            a = idom[a]
                        while self.rpon[c] > self.rpon[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

    def dominates(self, a, b):
        """block a dominates block b"""
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def idominates(self, x, y):
        """instruction x executes before y on every path to y"""
        bx, kx = self.where[x['id']]
        by, ky = self.where[y['id']]
        if bx == by:
            return kx < ky
        return self.dominates(bx, by)

    def _loops(self):
        self.loops = {}  # header -> set of blocks
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(p for p in self.pred[x] if p in self.reachable)
        self.lof = {}  # block -> list of headers, outermost first
        for b in self.rpo:
            hs = [h for h in self.loops if b in self.loops[h]]
            hs.sort(key=lambda h: -len(self.loops[h]))
            self.lof[b] = hs

    def depth(self, b):
        return len(self.lof.get(b, []))

    def insts(self):
        for b in self.rpo:
            for x in self.blocks[b]:
                yield x

    def calls(self, *names):
        for x in self.insts():
            if x.op == 'call' and (not names or self.cname(x) in names or x.cb in names):
                yield x

    def cname(self, x):
        """last component of the name of the called function (common to all virtual targets)"""
        if x.cb:
            n = last(re.sub(r'\[abi:\w+\]', '', x.cb))
            if x.cb.startswith('std::__cxx11::basic_string::'):
                fn = x.fn or ''
                if n == 'operator+=':
                    return 'push_back' if fn.endswith('pLEc') else 'append'
                if n == 'append' and fn.endswith('appendEmc') and x['o'][1] == ['c', 1]:
                    return 'push_back'
                if n == 'assign' and len(x['o']) == 2:
                    return 'operator='
            return n
        if x.tb:
            ns = {last(t) for t in x.tb}
            if len(ns) == 1:
                return ns.pop()
            return '|'.join(sorted(ns))
        return '<indirect>'

    def targets(self, x):
        """names of the functions a call may reach"""
        if x.fn:
            return [x.fn]
        return x.tg or []

    def loc(self, x=None):
        if x is None:
            return '%s:%d' % (self.file, self.line)
        return '%s:%d' % (x.fl or self.file, x.ln or self.line)

    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for x in self.insts():
                for o in self.operands(x):
                    if o[0] == 'i':
                        u[o[1]].append(x)
            self._uses = u
        return self._uses

    def operands(self, x):
        if x.op == 'phi':
            return [p[0] for p in x['o']]
        if x.op == 'getelementptr':
            r = [x['o'][0]]
            for st in x['o'][1]:
                if st[0] != 'f':
                    r.append(st[1])
            return r
        return list(x['o'])

    # -- reaching conditions -------------------------------------------
    def edge_cond(self, b, s):
        t = self.blocks[b][-1]
        if t.op == 'br' and t['o']:
            c = self.cond(t['o'][0], b)
            if t['su'][0] == t['su'][1]:
                return True
            return c if s == t['su'][0] else fnot(c)
        if t.op == 'switch':
            v = self.term(t['o'][0])
            r = False
            o = False
            for val, dst in t['cs']:
                e = eq0(sub(v, ('c', val)))
                o = for_(o, e)
                if dst == s:
                    r = for_(r, e)
            if t['su'][0] == s:
                r = for_(r, fnot(o))
            return r
        return True

    def reach_from(self, src, to=None):
        """conditions under which blocks (those before block to) are reached from block src, back edges cut"""
        R = {src: True}
        start = self.rpon[src]
        for b in self.rpo[start + 1:None if to is None else self.rpon[to]]:
            f = False
            for p in self.pred[b]:
                if p not in R or self.rpon.get(p, 1 << 30) >= self.rpon[b]:
                    continue
                f = for_(f, self._edge_reach(p, b, R))
                if T.fsize(f) > 400:
                    f = var(self.big('reach', (src, b), f))
            if f is not False:
                R[b] = f
        return R

    def _edge_reach(self, p, b, R, apart=False):
        # leaving loops: when all exits of a loop (other than error exits) lead
        # to one block, that block is reached whenever the loop is entered
        left = [h for h in self.lof.get(p, []) if b not in self.loops[h]]
        if left:
            h = left[0]  # outermost loop left
            L = self.loops[h]
            targets = {s for x in L for s in self.succ[x] if s not in L and s not in self.dead}
            if len(targets) == 1 and b in targets and h in R and not apart:
                return R[h]
        if len([s for s in self.succ[p] if s not in self.dead]) == 1 and b not in self.dead:
            return R[p]  # the other branch is an error exit: assumed not taken
        f = fand(R[p], self.edge_cond(p, b))
        return self.left(f, p, b) if left else f

    def _join(self, vals, b):
        """value at block b, [(value, predecessor)]"""
        if len({v for v, _ in vals}) == 1:
            return vals[0][0]
        R = self.reach_from(self.idom.get(b, 0), b)
        vals = [(v, p) for v, p in vals if p in R]
        # several ways out of one loop are told apart by what happens in the iteration
        # unless it makes no difference
        n = Counter(h for _, h in {(v, h) for v, p in vals for h in self.lof.get(p, []) if b not in self.loops[h]})
        return vite([(self.left(self._edge_reach(p, b, R, any(n[h] > 1 for h in self.lof.get(p, []))), p, b), v) for v, p in vals])

    @property
    def reach(self):
        C = self._cache()
        if 'reach' not in C:
            n = self._poison
            r = self.reach_from(0)
            if self._poison != n:
                return r
            C['reach'] = r
        return C['reach']

    # -- terms -----------------------------------------------------------
    def cond(self, o, blk=None):
        """boolean formula of an i1 operand"""
        if o[0] == 'c':
            return bool(o[1])
        if o[0] in ('u',):
            return False
        if o[0] != 'i':
            return var(('b', self.term(o)))
        x = self.ins[o[1]]
        ck = ('cond', o[1])
        C = self._cache()
        if ck in C:
            return C[ck]
        n = self._poison
        r = self._cond(x)
        if T.fsize(r) > 300 or T.tsize(r) > 6000:
            r = var(self.big('cond', o[1], r))
        if self._poison == n:
            C[ck] = r
        return r

    def _cache(self):
        return self._tc.setdefault((self._lev, self._nam), {})

    def up(self, g):
        """evaluate at the next level: there, loads see only what the levels above them do not need"""
        self._lev += 1
        try:
            return g()
        finally:
            self._lev -= 1

    def _cond(self, x):
        op = x.op
        if op == 'icmp' or op == 'fcmp':
            return self._cmp(x)
        if op == 'xor':
            a, b = x['o']
            if b[0] == 'c':
                f = self.cond(a)
                return fnot(f) if b[1] else f
            a, b = self.cond(a), self.cond(b)
            return fite(a, fnot(b), b)
        if op == 'and':
            return fand(self.cond(x['o'][0]), self.cond(x['o'][1]))
        if op == 'or':
            return for_(self.cond(x['o'][0]), self.cond(x['o'][1]))
        if op == 'select':
            return fite(self.cond(x['o'][0]), self.cond(x['o'][1]), self.cond(x['o'][2]))
        if op == 'phi':
            if self._is_header_phi(x):
                return var(('b', self.term(['i', x['id']])))
            if x['id'] in self._stack:
                self._poison += 1
                return var(('big', 'cycle'))
            self._stack.append(x['id'])
            try:
                b = self.where[x['id']][0]
                R = self.reach_from(self.idom[b], b)
                n = Counter(h for _, h in {(self.cond(o), h) for o, p in x['o'] for h in self.lof.get(p, []) if b not in self.loops[h]})
                r = False
                for o, p in x['o']:
                    if p in R:
                        r = for_(r, self.left(fand(self._edge_reach(p, b, R, any(n[h] > 1 for h in self.lof.get(p, []))), self.cond(o)), p, b))
                return r
            finally:
                self._stack.pop()
        if op in ('trunc', 'freeze'):
            y = x['o'][0]
            if y[0] == 'i' and self.ins[y[1]].op == 'zext' and self.ins[y[1]]['o']:
                return self.cond(self.ins[y[1]]['o'][0])
            return nonzero(self.term(y))
        if op == 'call' and x.cb and x.cb.startswith('std::') and self.cname(x) == 'empty' and len(x['o']) == 1:
            o = x['o'][0]
            bi, kk = self.where[x['id']]
            t = self.content_of(o, bi, kk) if o[0] == 'i' and self.texts(o[1]) else ('undef',)
            return eq0(('call', 'size', self.term(o) if t == ('undef',) else t))
        if op == 'call' and self.cname(x) == 'operator!=' and x.cb and x.cb.startswith(('std::', '__gnu_cxx::')):
            t = self.term(['i', x['id']])
            return fnot(var(('b', same(*t[2:]) if len(t) == 4 else ('call', 'operator==') + tuple(t[2:]))))
        return var(('b', self.term(['i', x['id']])))

    def _is_header_phi(self, x):
        b = self.where[x['id']][0]
        return b in self.loops

    def _cmp(self, x):
        a, b = x['o']
        pr = x.pr
        # comparisons of zero-extended conditions with constants
        for p, q in ((a, b), (b, a)):
            if p[0] == 'i' and self.ins[p[1]].op == 'zext' and q[0] == 'c' and q[1] in (0, 1) and pr in ('eq', 'ne') \
                    and self.ins[p[1]]['o'][0][0] == 'i' and self._isbool(self.ins[p[1]]['o'][0]):
                f = self.cond(self.ins[p[1]]['o'][0])
                same = (q[1] == 1) == (pr == 'eq')
                return f if same else fnot(f)
        if x.op == 'icmp' and self._isbool(a) and (self._isbool(b) or b[0] == 'c'):
            f, g = self.cond(a), self.cond(b)
            e = fite(f, g, fnot(g))
            return e if pr == 'eq' else fnot(e) if pr == 'ne' else var(('cmp', pr, self.term(a), self.term(b)))
        ta, tb = self.term(a), self.term(b)
        # lift conditional values into the formula
        for (u, isa) in ((ta, True), (tb, False)):
            if u[0] == 'ite' and len(u[1]) <= 4:
                r = False
                for f, v in u[1]:
                    r = for_(r, fand(f, self._cmp2(x, v if isa else ta, tb if isa else v)))
                return r
        return self._cmp2(x, ta, tb)

    def _cmp2(self, x, ta, tb):
        pr = x.pr
        if x.op == 'fcmp':
            p = pr[1:] if len(pr) == 3 else pr
            if pr in ('ord', 'uno'):
                f = var(('nan', ta, tb))
                return f if pr == 'uno' else fnot(f)
            if pr in ('true', 'false'):
                return pr == 'true'
            d = sub(ta, tb)
            if p == 'eq':
                return eq0(d)
            if p == 'ne':
                return fnot(eq0(d))
            if p == 'lt':
                return lt0(d, False)
            if p == 'gt':
                return lt0(scale(d, -1), False)
            if p == 'le':
                return fnot(lt0(scale(d, -1), False))
            if p == 'ge':
                return fnot(lt0(d, False))
            return var(('cmp', pr, ta, tb))
        d = self._ptrsub(ta, tb)
        if pr in ('eq', 'ne'):
            f = eq0(d)
            if d[0] == 'call' and d[1] == 'compare' and len(d) == 4:
                f = var(('b', same(*d[2:]) if len(d) == 4 else ('call', 'operator==') + d[2:]))
            # a loop counter compared for equality in its loop header: the
            # counter starts on this side of the bound
            b = self.where[x['id']][0]
            if b in self.loops and self.blocks[b][-1].op == 'br':
                h = len(self.lof[b])
                c, m = lin(d)
                kk = ('k', h)
                if kk in m and all(self._invariant(t, h) for t in m if t != kk):
                    s = m[kk]
                    g = abs(s)
                    if all(isinstance(v, int) and v % g == 0 for v in m.values()) and c % g == 0:
                        d2 = scale(d, Fraction(1, s))
                        f = fnot(lt0(d2))
            return f if pr == 'eq' else fnot(f)
        p = pr[1:]
        if p == 'lt':
            return lt0(d)
        if p == 'gt':
            return lt0(scale(d, -1))
        if p == 'le':
            return fnot(lt0(scale(d, -1)))
        return fnot(lt0(d))

    def _invariant(self, t, depth):
        for y in T.walk(t):
            if y and y[0] == 'k' and y[1] >= depth or y and y[0] in ('mu', 'self', 'hp'):
                return False
        return True

    def _leaves(self, o, n=0):
        """the calls and loads a truth value is made of"""
        x = self.ins[o[1]]
        if x.op in ('call', 'load') or n > 6:
            return [o]
        return [z for q in self.operands(x) if q[0] == 'i' for z in self._leaves(q, n + 1)] if x.op != 'phi' else []

    def _stable(self, t, h):
        """what the term looks at does not change in the loop"""
        T_ = self.__dict__.setdefault('_touch', {})
        if h not in T_:
            s = T_[h] = set()
            for b in self.loops[h]:
                for x in self.blocks[b]:
                    if x.op == 'store':
                        s.add(x.tf or '?')
                    elif x.op == 'call':
                        if not (x.cb or '').startswith('llvm.') and not any(z in self.prog.raw for z in self.targets(x)) and not x.cb:
                            s.add('?')
                        for z in self.targets(x):
                            if z in self.prog.raw:
                                s |= self.prog.mods(z)
                        for i, o in enumerate(x['o']):
                            if not self.prog.writes_param(self, x, i):
                                continue
                            rt = self.root(o)
                            if rt:
                                s.add(re.sub(r'\.\d+$', '', self.ins[rt[0]].aty or '?'))
                            elif o[0] in ('i', 'ge', 'g'):
                                f = [y[2] for y in T.walk(self.term(o)) if y and y[0] == 'fld']
                                s.update(f or ['?'])
        s = T_[h]
        D = self.__dict__.setdefault('_before', {})
        if h not in D:
            L = self.loops[h]
            out, ins = set(), set()
            for b in L:
                for x in self.blocks[b]:
                    if x.ty and (x.op == 'call' or x.op == 'load'):
                        ins |= tops(self.term(['i', x['id']]))
                    for o in self.operands(x):
                        if o[0] == 'i' and self.where[o[1]][0] not in L and self.ins[o[1]].op in ('call', 'load'):
                            out |= tops(self.term(o))
                        elif o[0] == 'i' and self.where[o[1]][0] not in L and self.ins[o[1]].ty == 'i1':
                            out.update(y for z in self._leaves(o) for y in tops(self.term(z)))
            D[h] = out - ins
        before = D[h]
        st = [t]
        while st:
            y = st.pop()
            if not isinstance(y, tuple) or not y or y in before:
                continue
            st.extend(y)
            if y[0] == 'call' or y[0] == 'obj' and (y[1] in s or '?' in s) or y[0] == 'fld' and y[2] in s or y[0] == 'out':
                return False
            if y[0] == 'ld' and (len(y) > 2 or y[1][0] not in ('fld',) and s):
                return False
        return True

    def _isbool(self, o):
        return o[0] == 'i' and self.ins[o[1]].ty == 'i1'

    def _ptrsub(self, a, b):
        """difference of two terms; of element addresses with one base, the byte offset"""
        def split(t):
            if t[0] == 'el':
                return t[1], t[2]
            return t, ('c', 0)
        ba, oa = split(a)
        bb, ob = split(b)
        if ba == bb and (a[0] == 'el' or b[0] == 'el'):
            return _sizes(sub(oa, ob))
        return _sizes(sub(a, b))

    def term(self, o):
        k = o[0]
        if k == 'i':
            C = self._cache()
            r = C.get(o[1])
            if r is None:
                me = (self._lev, self._nam, o[1])
                if me in self._stack:
                    self._poison += 1
                    return ('big', 'cycle')
                n = self._poison
                self._stack.append(me)
                try:
                    r = self._term(self.ins[o[1]])
                    if T.tsize(r) > 2500:
                        r = self.big(self.ins[o[1]].op, o[1], r)
                finally:
                    self._stack.pop()
                if self._poison == n:
                    C[o[1]] = r
            return r
        if k == 'c':
            return ('c', o[1])
        if k == 'f':
            return num(float(o[1]))
        if k == 'n':
            return ('c', 0)
        if k == 'u':
            return ('undef',)
        if k == 's':
            return ('s', o[1])
        if k == 'a':
            return ('arg', o[1])
        if k == 'g':
            return ('g', o[1])
        if k == 'fn':
            return ('fn', self.prog.basename(o[1]))
        if k == 'ge':
            return self._gep(o[1:])
        if k == 'ce':
            return self.term(o[2])
        return ('?' + str(o[0]),) + tuple(str(z) for z in o[1:])

    def _gep(self, o):
        a = self.term(o[0])
        for st in o[1]:
            if st[0] == 'f':
                a = self.fld(a, st[1])
            else:
                a = self.el(a, self.term(st[1]), st[2])
        return a

    @staticmethod
    def fld(a, name):
        if a[0] == 'ite':
            return vite([(f, Fn.fld(v, name)) for f, v in a[1]])
        if name.endswith('._M_finish'):
            return ('vfin', a)
        if name.endswith('._M_start'):
            return ('vst', a)
        return ('fld', a, name)

    @staticmethod
    def el(a, idx, size):
        if a[0] == 'ite' and len(a[1]) <= 4:
            return vite([(f, Fn.el(v, idx, size)) for f, v in a[1]])
        if idx[0] == 'ite' and len(idx[1]) <= 4:
            return vite([(f, Fn.el(a, v, size)) for f, v in idx[1]])
        off = scale(idx, size)
        if a[0] == 'el':
            base = a[2]
            if size > 1 and off != ('c', 0):
                # the end of a vector whose elements have this size
                c, m = lin(base)
                if any(t[0] == 'bytes' for t in m):
                    m2 = {}
                    for t, v in m.items():
                        if t[0] != 'bytes':
                            m2[t] = m2.get(t, 0) + v
                    base = mklin(c, m2)
                    for t, v in m.items():
                        if t[0] == 'bytes':
                            base = add(base, scale(sizeof(t[1]), v * size))
            off = add(base, off)
            a = a[1]
        if off == ('c', 0):
            return a
        return ('el', a, off)

    def instance(self, x):
        """template arguments of the called function, where several instances of it are called"""
        if not hasattr(self, '_insts'):
            self._insts = {}
            g = defaultdict(set)
            for y in self.insts():
                if y.op == 'call' and y.fn in self.prog.raw:
                    g[self.prog.raw[y.fn]['base']].add(y.fn)
            for b, ns in g.items():
                ta = {n: template_args(self.prog.raw[n]['dem']) for n in ns}
                if len(set(ta.values())) > 1:
                    self._insts.update(ta)
        return self._insts.get(x.fn, '')

    def _reread(self, x, args):
        """the same question was put to the program's state before, and the state may have changed since"""
        if not hasattr(self, '_asks'):
            self._asks = defaultdict(list)
            for y in self.insts():
                if y.op == 'call' and y.ty:
                    tg = self.targets(y)
                    if tg and all(t in self.prog.raw for t in tg):
                        self._asks[tuple(sorted(tg))].append(y)
        L = self._asks.get(tuple(sorted(self.targets(x)))) if x.ty and self._lev < LEVELS else None
        if not L or len(L) < 2 or x not in L:
            return False
        pure = all(t in self.prog.pure() for t in self.targets(x))
        bx = self.where[x['id']][0]
        for y in L:
            if not pure and (y is x or self.lof.get(self.where[y['id']][0]) != self.lof.get(bx) or not self.dominates(self.where[y['id']][0], bx)):
                continue
            if y is x or not self._may_precede(y, x) or y['o'] != x['o'] and self.up(lambda: [self.term(o) for o in y['o']] != [self.term(o) for o in x['o']]):
                continue
            for z in self.insts():
                if z.op == 'call' and z not in L and not self._quiet(z) and not any(self.root(o) for o in z['o'][:1]) and self._between(y, z, x) \
                        and self.prog.disturbs(self.targets(z), self.targets(x)):
                    return True
        return False

    def _slice(self, x):
        """what is computed from a value within an iteration"""
        if not hasattr(self, '_slices'):
            self._slices = {}
        r = self._slices.get(x['id'])
        if r is None:
            r, st = {x['id']}, [x['id']]
            while st and len(r) < 300:
                for u in self.uses[st.pop()]:
                    if u['id'] not in r and u.ty and u.op not in ('load', 'getelementptr') and (u.op != 'call' or u.ty != 'ptr' and self._quiet(u)) \
                            and not (u.op == 'phi' and self.where[u['id']][0] in self.loops):
                        r.add(u['id'])
                        st.append(u['id'])
            self._slices[x['id']] = r
        return r

    def anew(self, x):
        """how many times what this instruction asks for was asked before in vain: the answers are put together, and
        what it looks at may have changed in between"""
        if not hasattr(self, '_anew'):
            self._anew, self._alike = {}, defaultdict(list)
            for b in self.rpo:
                for y in self.blocks[b]:
                    k = self._same(y)
                    if k:
                        self._alike[k].append(y)
        k = self._same(x)
        L = self._alike.get(k, ())
        if len(L) < 2 or self._lev >= LEVELS:
            return 0
        r = self._anew.get(x['id'])
        if r is not None:
            return r
        self._anew[x['id']] = 0
        r = 0
        wx = self.where[x['id']]
        for y in L:
            wy = self.where[y['id']]
            if y is x or not self.forward(wy, wx) or not self._slice(y) & self._slice(x):
                continue
            if y['o'] != x['o'] and self.up(lambda: [self.term(o) for o in y['o']] != [self.term(o) for o in x['o']]):
                continue
            for z in self.insts():
                if z is x or z is y or not self._alters(z, x):
                    continue
                wz = self.where[z['id']]
                if self.forward(wy, wz) and self.forward(wz, wx):
                    r = max(r, self.anew(y) + 1)
                    break
        self._anew[x['id']] = r
        return r

    def _same(self, y):
        if y.op == 'call' and y.ty:
            tg = self.targets(y)
            if tg and all(t in self.prog.raw for t in tg):
                return tuple(sorted(tg))
        elif y.op == 'load' and y.tf and y.tf in self.prog.allmods():
            return y.tf
        return None

    def _alters(self, z, x):
        if z.op == 'store':
            return x.op == 'load' and z.tf == x.tf or x.op == 'call' and z.tf and any(z.tf in self.prog.looks(t) for t in self.targets(x))
        if z.op != 'call' or self._quiet(z):
            return False
        tg = [t for t in self.targets(z) if t in self.prog.raw]
        if x.op == 'load':
            return any(x.tf in self.prog.mods(t) for t in tg)
        return bool(tg) and self.prog.disturbs(tg, self.targets(x))

    def addr(self, x):
        """normalised address term of a load or store"""
        p = self.term(x['o'][0] if x.op == 'load' else x['o'][1])
        return self._addr2(p, x)

    def _addrs(self, x):
        """all addresses of a load"""
        a = self.addr(x)
        return [v for _, v in a[1]] if a[0] == 'ite' else [a]

    def _key(self, x, a):
        """syntactic key of the stores to the place"""
        return a[2] if a[0] == 'fld' else x.tf or (x.tt or '?')

    def _addr2(self, p, x):
        if x.tf:
            if p[0] == 'ite':
                return vite([(f, self._addr2(v, x)) for f, v in p[1]])
            if x.tf.endswith('._M_start'):
                return p if p[0] == 'vst' else ('vst', p)
            if x.tf.endswith('._M_finish'):
                return p if p[0] == 'vfin' else ('vfin', p)
            return self.fld(p, x.tf) if not (p[0] == 'fld' and p[2] == x.tf) else p
        return p

    def _term(self, x):
        op = x.op
        o = x['o']
        if op in ('sext', 'zext', 'trunc', 'bitcast', 'freeze', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'ptrtoint',
                  'inttoptr'):
            if o[0][0] == 'i' and self._isbool(o[0]):
                f = self.cond(o[0])
                return vite([(f, ('c', 1)), (fnot(f), ('c', 0))])
            if x.ty == 'i1':
                f = self.cond(['i', x['id']])
                return vite([(f, ('c', 1)), (fnot(f), ('c', 0))])
            return self.term(o[0])
        if op in ('fptosi', 'fptoui'):
            t = self.term(o[0])
            return t if isc(t) and isinstance(t[1], int) else ('toint', t)
        if x.ty == 'i1' and op in ('icmp', 'fcmp', 'and', 'or', 'xor', 'select'):
            f = self.cond(['i', x['id']])
            return vite([(f, ('c', 1)), (fnot(f), ('c', 0))])
        if op in ('add', 'fadd', 'sub', 'fsub', 'mul', 'fmul'):
            a, b = self.term(o[0]), self.term(o[1])
            if op in ('add', 'fadd'):
                return lift2(add, a, b)
            if op in ('sub', 'fsub'):
                return lift2(self._ptrsub if op == 'sub' else sub, a, b)
            return lift2(mul, a, b)
        if op == 'fneg':
            return lift2(mul, ('c', -1), self.term(o[0]))
        if op == 'fdiv':
            return lift2(lambda a, b: mul(a, inv(b)), self.term(o[0]), self.term(o[1]))
        if op in ('sdiv', 'udiv'):
            return lift2(self._idiv, self.term(o[0]), self.term(o[1]))
        if op == 'shl':
            b = self.term(o[1])
            if isc(b):
                return scale(self.term(o[0]), 1 << b[1])
        if op in ('ashr', 'lshr'):
            b = self.term(o[1])
            if isc(b):
                return self._idiv(self.term(o[0]), ('c', 1 << b[1]))
        if op in ('and', 'or', 'xor'):
            a, b = sorted([self.term(o[0]), self.term(o[1])], key=key)
            return (op + 'i', a, b)
        if op in ('srem', 'urem'):
            return ('rem', self.term(o[0]), self.term(o[1]))
        if op == 'getelementptr':
            return self._gep(o)
        if op == 'select':
            f = self.cond(o[0])
            return vite([(f, self.term(o[1])), (fnot(f), self.term(o[2]))])
        if op == 'load':
            v = self._either(x)
            if v is not None:
                return v
            a = self.addr(x)
            return self._load(x, a)
        if op == 'alloca':
            return self._alloca(x)
        if op == 'phi':
            return self._phi(x)
        if op == 'call':
            return self._call(x)
        if op == 'extractvalue':
            return ('xv', self.term(o[0]))
        return (op,) + tuple(self.term(y) for y in o)

    def _idiv(self, a, b):
        if isc(b) and b[1] != 0:
            c, m = lin(a)
            if all(isinstance(v, int) and v % b[1] == 0 for v in m.values()) and isinstance(c, int) and c % b[1] == 0:
                return scale(a, Fraction(1, b[1]))
            # number of bytes of a vector divided by the element size
            if c == 0 and len(m) == 1:
                (t, v), = m.items()
                if t[0] == 'bytes' and v in (1, -1):
                    return scale(sizeof(t[1]), v)
            m2, ns = {}, []
            ok = True
            for t, v in m.items():
                if t[0] == 'bytes':
                    ns.append(scale(sizeof(t[1]), v))
                elif v % b[1] == 0:
                    m2[t] = v // b[1]
                else:
                    ok = False
            if ok and isinstance(c, int) and c % b[1] == 0:
                r = mklin(c // b[1], m2)
                for n in ns:
                    r = add(r, n)
                return r
        return ('idiv', a, b)

    def _either(self, x):
        """a load through one of several addresses, one of them a local's"""
        o = x['o'][0]
        y = self.ins[o[1]] if o[0] == 'i' else None
        if y is None or y.op not in ('select', 'phi') or y.op == 'phi' and self._is_header_phi(y):
            return None
        rt = self.root(o)
        if rt and rt[1] is not None:
            return None
        ops = self.operands(y)[1:] if y.op == 'select' else self.operands(y)
        if not any(r and r[1] is not None and self.tracked(r[0]) for r in map(self.root, ops)):
            return None
        def at(p):
            z = Inst(x)
            z['o'] = [p]
            return self._term(z)
        if y.op == 'select':
            f = self.cond(y['o'][0])
            return vite([(f, at(ops[0])), (fnot(f), at(ops[1]))])
        b = self.where[y['id']][0]
        return self._join([(self.left(at(p), q, b), q) for p, q in y['o'] if q in self.rpon], b)

    def _load(self, x, a):
        if a[0] == 'ite':
            return vite([(f, self._load(x, v)) for f, v in a[1]])
        if a[0] == 'vst':
            return ('vd', a[1])
        if (x.it or x.ty == 'ptr' and tuple(x['o'][0]) in self.vectors()) and a[0] != 'vfin' and not x.tf:
            return ('vd', a)
        if a[0] == 'vfin':
            return ('el', ('vd', a[1]), ('bytes', self._sized(x, self._copied(x, a[1]), a[1])))
        rt = self.root(x['o'][0])
        if rt and self.tracked(rt[0]):
            bi, k = self.where[x['id']]
            if rt[1] is not None:
                return self.cell(rt[0], rt[1], bi, k)
            pl = self.place(x['o'][0])
            ops = list(self._cellops(rt[0]).values())
            if pl and pl[2] is not None and len(ops) == 1 and (ops[0].cb or '').startswith('llvm.memcpy') and self.idominates(ops[0], x):
                # a local that is a copy throughout
                r2 = self.root(ops[0]['o'][0])
                if r2 and r2[1] is not None and not self.root(ops[0]['o'][1]):
                    off = lift2(lambda a, _: add(a, ('c', pl[1] - r2[1])), pl[2], ('c', 0))
                    return ld(self.el(self.term(ops[0]['o'][1]), off, 1)) if off[0] != 'ite' else \
                        vite([(f, ld(self.el(self.term(ops[0]['o'][1]), v, 1))) for f, v in off[1]])
            es = self._elem(pl) if pl and pl[2] is not None else None
            if es:
                cs = []
                for e in es:
                    f = self._at(pl, e)
                    if f is not False:
                        cs.append((f, self.cell(rt[0], e, bi, k)))
                return vite(cs)
        v = self._forward(x, a) if a[0] == 'fld' else self._forward_el(x, a) if a[0] in ('el', 'vd', 'g') else None
        if v is None:
            v = self._pushed(x, a)
        if v is not None:
            return v
        n = self.anew(x)
        return ('ld', a) + (("'" * (n + 1),) if n else ("'",) if self._stored_before(x, a) else ())

    def vectors(self):
        """operands known to be the address of a vector: their second pointer is looked at somewhere"""
        if self._vecs is None:
            self._vecs = set()
            for y in self.insts():
                if y.op == 'getelementptr' and len(y['o'][1]) == 1 and y['o'][1][0][0] == 'f' and y['o'][1][0][1].endswith('_Vector_impl_data._M_finish') \
                        and y['o'][1][0][2] == 8 and y['o'][0][0] in ('a', 'i'):
                    self._vecs.add(tuple(y['o'][0]))
        return self._vecs

    def _copied(self, x, a):
        """a local copy of a vector that is not changed before x has the size of the original"""
        if a[0] != 'obj' or len(a) != 3:
            return a
        rt = self.root(x['o'][0])
        if not rt:
            return a
        for u in self.uses[rt[0]]:
            if u.op == 'call' and u is not x and self._may_precede(u, x) and self.cname(u) not in (
                    'size', 'begin', 'end', 'operator[]', 'back', 'front', 'empty', 'vector', 'lifetime') \
                    and not (u.cb or '').startswith('llvm.') and self.prog.writes_param(
                        self, u, next(k for k, o in enumerate(u['o']) if o == ['i', rt[0]])):
                return a
        return a[2]

    KEEPS = frozenset('size begin end cbegin cend rbegin rend operator[] at back front empty data capacity reserve max_size vector get_allocator'.split())

    def _resizers(self):
        """calls that change the number of elements of a vector: (call, operand)"""
        if not hasattr(self, '_rsz'):
            self._rsz = []
            for u in self.insts():
                if u.op != 'call':
                    continue
                if any(t in self.prog.raw for t in self.targets(u)):
                    self._rsz.append((u, None))
                elif (u.cb or '').startswith('std::') and u['o'] and self.cname(u) not in self.KEEPS and '::vector' in u.cb and not last(u.cb).startswith('~'):
                    self._rsz.append((u, u['o'][0]))
        return self._rsz

    def _perhaps(self, o, x, v):
        """may the operand be the address of the vector v that is looked at in x?"""
        if o[0] != 'i':
            return o[0] == 'a' and v == ('arg', o[1])
        y = self.ins[o[1]]
        if v[0] == 'fld':
            return y.op == 'getelementptr' and bool(y['o'][1]) and y['o'][1][-1][0] == 'f' and y['o'][1][-1][1] == v[2] or y.op in ('phi', 'select', 'load')
        r = self.root(x['o'][0])
        return bool(r) and (self.root(o) or (None,))[0] == r[0]

    def _sized(self, x, v, w):
        """the vector as it is at x: after resize(n) known to have n elements, or maybe changed since the start"""
        if v != w or self._lev >= LEVELS or v[0] not in ('fld', 'obj'):
            return v
        c = []
        for u, o in self._resizers():
            if not self._may_precede(u, x):
                continue
            if o is not None:
                if self._perhaps(o, x, v) and self.up(lambda: self.term(o)) == v:
                    c.append(u)
            elif self.prog.call_sizes(self, u, v, x):
                c.append(u)
        if not c:
            return v
        u0 = None
        for u in c:
            if self.idominates(u, x) and (u0 is None or self.idominates(u0, u)):
                u0 = u
        if u0 is not None and self.cname(u0) in ('resize', 'clear') and (u0.cb or '').startswith('std::') \
                and set(self.lof[self.where[u0['id']][0]]) <= set(self.lof[self.where[x['id']][0]]) \
                and not any(u is not u0 and self._between(u0, u, x) for u in c):
            n = ('c', 0) if self.cname(u0) == 'clear' else self.term(u0['o'][1])
            if n[0] != 'ite':
                return ('rsz', v, n)
        return ('chg', v)

    def _forward(self, x, a):
        """value of the one store to this field that reaches the load"""
        if self._lev >= LEVELS:
            return None
        c = [s for s in self._stores().get(self._key(x, a), []) if self._may_precede(s, x)]
        if not c:
            return None
        a = self._uaddr(x, a)
        if a[0] != 'fld':
            return None
        c = [s for s in c if self.up(lambda: self.addr(s)) == a]
        doms = [s for s in c if self.idominates(s, x)]
        if not doms:
            return None
        s0 = doms[0]
        for s in doms[1:]:
            if self.idominates(s0, s):
                s0 = s
        for s in c:
            if s is not s0 and self._between(s0, s, x):
                return None
        fld = a[2]
        for y in self.insts():
            if y.op == 'call' and self._between(s0, y, x) and self.up(lambda: self.prog.call_mods(self, y, fld, a)):
                return None
        return self.term(s0['o'][0])

    def _forward_el(self, x, a):
        """the same for array elements"""
        if self._lev >= LEVELS:
            return None
        c = [s for s in self._stores().get(self._key(x, a), []) if self._may_precede(s, x)]
        if not c:
            return None
        a = self._uaddr(x, a)
        s0 = None
        at = {}
        for s in c:
            at[s['id']] = self.up(lambda: self.addr(s))
            if at[s['id']] == a and self.idominates(s, x) and (s0 is None or self.idominates(s0, s)):
                s0 = s
        if s0 is None:
            return None
        base, off = (a[1], a[2]) if a[0] == 'el' else (a, ('c', 0))
        for s in c:
            if s is s0 or not self._between(s0, s, x):
                continue
            t = at[s['id']]
            b2, o2 = (t[1], t[2]) if t and t[0] == 'el' else (t, ('c', 0))
            if b2 == base and isc(sub(off, o2)) and sub(off, o2) != ('c', 0):
                continue
            if b2 and disjoint(base, b2):
                continue
            return None
        for y in self.insts():
            if y.op == 'call' and not self._quiet(y) and self._between(s0, y, x) and (
                    a[0] != 'g' or self.prog.mods_global(self, y, a[1])):
                return None
        return self.term(s0['o'][0])

    def _pushed(self, x, a):
        """last element of a container: what was pushed there just before"""
        if self._lev >= LEVELS or a[0] != 'el' or a[1][0] != 'vd':
            return None
        c, m = lin(a[2])
        if len(m) != 1 or (m.get(('size', a[1][1])) or m.get(('size', ('chg', a[1][1])))) != -c:
            return None
        y0 = None
        for y in self.insts():
            if y.op == 'call' and y.cb and y.cb.startswith('std::') and self.cname(y) in ('push_back', 'emplace_back') and len(y['o']) == 2 \
                    and self.idominates(y, x) and self.term(y['o'][0]) == a[1][1] and (y0 is None or self.idominates(y0, y)):
                y0 = y
        if y0 is None:
            return None
        for y in self.insts():
            if y is y0 or not (y.op == 'call' and not self._quiet(y) or y.op == 'store' and (y.tf or y.tt or '?') == (x.tf or x.tt or '?')):
                continue
            if self._between(y0, y, x):
                return None
        v = self._call(y0)[-1]
        return v[1] if v[0] == 'ref' else None

    def _quiet(self, y):
        """call that changes no memory the function reads otherwise"""
        if y.cb and y.cb.startswith('llvm.'):
            return not y.cb.startswith('llvm.mem')
        tg = self.targets(y)
        if any(t in self.prog.raw for t in tg):
            return all(t in self.prog.pure() for t in tg)
        n = self.cname(y)
        import contract as C
        return n in ('fprintf', 'printf', 'fputs', 'fputc', 'puts', 'putchar', 'fwrite', 'perror') or C.pure(self, y)

    def _between(self, s, y, x):
        """may y execute after s and before x, s not executed again in between?"""
        bs, ks = self.where[s['id']]
        by, ky = self.where[y['id']]
        bx, kx = self.where[x['id']]

        def reach(b0, k0, b1, k1):
            # from just after (b0,k0) to (b1,k1) without executing s
            if b0 == b1 and k0 < k1 and not (b0 == bs and k0 < ks < k1):
                return True
            if b0 == bs and k0 < ks:
                return False
            seen = set()
            st = [t for t in self.succ[b0]]
            while st:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                if b == b1 and not (b == bs and ks < k1):
                    return True
                if b == bs:
                    continue
                st.extend(self.succ[b])
            return False
        return reach(bs, ks, by, ky) and reach(by, ky, bx, kx)

    # -- contents of local aggregates ------------------------------------
    def root(self, o, depth=0):
        """(alloca id, constant byte offset or None) a pointer operand is rooted in"""
        off = 0
        n = 0
        while o[0] == 'i' and n < 30:
            n += 1
            y = self.ins[o[1]]
            if y.op == 'alloca':
                return o[1], off
            if y.op == 'getelementptr':
                off = off + y.off if off is not None and y.off is not None else None
                o = y['o'][0]
            elif y.op == 'bitcast':
                o = y['o'][0]
            elif y.op in ('select', 'phi'):
                # an address computed from several: all rooted in one local?
                seen, todo, found = {o[1]}, list(self.operands(y)[1:] if y.op == 'select' else self.operands(y)), set()
                while todo:
                    p = todo.pop()
                    if p[0] != 'i':
                        return None
                    if p[1] in seen:
                        continue
                    seen.add(p[1])
                    z = self.ins[p[1]]
                    if z.op == 'alloca':
                        found.add(p[1])
                    elif z.op in ('getelementptr', 'bitcast'):
                        todo.append(z['o'][0])
                    elif z.op in ('select', 'phi'):
                        todo += self.operands(z)[1:] if z.op == 'select' else self.operands(z)
                    else:
                        return None
                return (found.pop(), None) if len(found) == 1 else None
            else:
                return None
        return None

    def place(self, o):
        """(alloca id, constant offset, symbolic offset or None, lo, hi) of a pointer into a local;
        with a symbolic offset the place lies in [lo, hi)"""
        path = []
        while o[0] == 'i':
            y = self.ins[o[1]]
            if y.op == 'alloca':
                break
            if y.op == 'getelementptr':
                path.append(y['o'][1])
                o = y['o'][0]
            elif y.op == 'bitcast':
                o = y['o'][0]
            else:
                return None
        else:
            return None
        c, sym, lo, hi = 0, None, None, None
        for steps in reversed(path):
            for st in steps:
                if st[0] == 'f':
                    c += st[2]
                elif st[1][0] == 'c':
                    c += st[1][1] * st[2]
                else:
                    if st[0] == 'e' and st[3]:
                        b = (c, c + st[2] * st[3])
                    elif st[0] == 'x':
                        sz = self.ins[o[1]].sz or 0
                        b = (0, sz) if lo is None else (lo, hi)
                    else:
                        return None
                    if lo is None:
                        lo, hi = b
                    t = lift2(lambda a, _: scale(a, st[2]), self.term(st[1]), ('c', 0))
                    sym = t if sym is None else lift2(add, sym, t)
        return o[1], c, sym, lo, hi

    def _at(self, pl, off):
        """condition under which the place is at constant offset off"""
        _, c, sym, lo, hi = pl
        if sym is None:
            return c == off
        if not lo <= off < hi:
            return False
        r = False
        for f, v in (sym[1] if sym[0] == 'ite' else ((True, sym),)):
            r = for_(r, fand(f, eq0(add(v, ('c', c - off)))))
        return r

    def _elem(self, pl):
        """offsets of the elements a symbolic place may be at"""
        _, c, sym, lo, hi = pl
        g = 0
        from math import gcd
        for f, v in (sym[1] if sym[0] == 'ite' else ((True, sym),)):
            k, m = lin(v)
            for z in [k] + list(m.values()):
                g = gcd(g, abs(int(z)))
        if not g or (hi - lo) // g > 16:
            return None
        return range(lo + (c - lo) % g, hi, g)

    def tracked(self, aid):
        """locals whose contents are followed: scalars, arrays and the repository's plain structs"""
        ty = self.ins[aid].aty or ''
        if ty.startswith('%'):
            n = re.sub(r'\.\d+$', '', ty[1:])
            return n in self.prog.plain
        if '%' in ty:
            return False
        return (self.ins[aid].sz or 0) <= 64

    TEXTS = re.compile(r'^%(class|struct)?\.?std::__cxx11::basic_string(\.\d+)?$')
    LOOKS = frozenset('c_str size length empty compare find rfind find_first_of find_last_of find_first_not_of find_last_not_of substr data max_size'.split())

    def text(self, aid):
        """the calls that give a local string its content, if nothing else ever changes it"""
        if not hasattr(self, '_texts'):
            self._texts = {}
        if aid in self._texts:
            return self._texts[aid]
        self._texts[aid] = None
        y = self.ins[aid]
        if y.op != 'alloca' or not self.TEXTS.match(y.aty or ''):
            return None
        r = {}
        todo, seen = [aid], {aid}
        while todo:
            i = todo.pop()
            for u in self.uses.get(i, []):
                if u.op in ('phi', 'select'):
                    if u['id'] not in seen:
                        seen.add(u['id'])
                        todo.append(u['id'])
                    continue
                k = self._text_use(u, i)
                if k is None or k and i != aid:
                    return None
                if k:
                    r[self.where[u['id']]] = u
        self._texts[aid] = r or None
        return self._texts[aid]

    def _text_use(self, u, i):
        """does the instruction give the string its content (True), only look at it (False), or something else (None)?"""
        cb = u.cb or ''
        tg = self.targets(u) if u.op == 'call' else ()
        if not tg and not cb:
            return None
        if cb.startswith('llvm.lifetime'):
            return False
        at = [k for k, o in enumerate(u['o']) if o == ['i', i]]
        p = cb.split('::')
        n = self.cname(u)
        if p[-1].startswith('~'):
            return False
        if u.at and u.at[0] == 'sret' and at == [0]:
            return True
        if any(t in self.prog.raw for t in tg):
            if any(t not in self.prog.raw or not self.prog.kept(t, k, len(u['o'])) for t in tg for k in at):
                return None
            return False
        if cb.startswith('std::__cxx11::basic_string::') and 0 in at:
            if len(p) > 1 and p[-1] == p[-2] or n == 'operator=' and not self.uses.get(u['id']):
                if len(u['o']) > 2 and not all(o[0] == 'i' and 'allocator' in (self.ins[o[1]].aty or '') for o in u['o'][2:]):
                    return None
                return True
            if n in ('clear', 'erase') and len(u['o']) == 1:
                return True
            if n in ('operator[]', 'at', 'back', 'front'):
                return None if any(v.op != 'load' for v in self.uses.get(u['id'], [])) else False
            return False if n in self.LOOKS else None
        if not cb or not C_std(cb) or n in ('getline', 'operator>>', 'swap', 'move', 'forward') or at[0] == 0 and not n.startswith('operator'):
            return None
        return False

    def texts(self, i, n=0):
        """is the instruction the address of such a string, or of one of several?"""
        y = self.ins[i]
        if y.op == 'alloca':
            return self.text(i) is not None
        if y.op == 'select' or y.op == 'phi' and not self._is_header_phi(y):
            ops = self.operands(y)[1:] if y.op == 'select' else self.operands(y)
            return n < 4 and any(o[0] == 'i' and self.texts(o[1], n + 1) for o in ops)
        return False

    def _text(self, o, b, k):
        if o[0] != 'i' or not self.texts(o[1]):
            return self.term(o)
        y = self.ins[o[1]]
        if y.op == 'alloca':
            return self.cell(o[1], 'text', b, k)
        if y.op == 'select':
            f = self.cond(y['o'][0])
            return vite([(f, self._text(y['o'][1], b, k)), (fnot(f), self._text(y['o'][2], b, k))])
        h = self.where[y['id']][0]
        return self._join([(self.left(self._text(p, q, len(self.blocks[q])), q, h), q) for p, q in y['o'] if q in self.rpon], h)

    def content_of(self, o, b, k):
        """content of such a string just before instruction k of block b"""
        t = self._text(o, b, k)
        return ('obj', '%class.std::__cxx11::basic_string', t) if t[0] == 'ite' else t

    def _given(self, u, b, j):
        n = self.cname(u)
        if u.at and u.at[0] == 'sret':
            t = self.term(['i', u['id']])
            return t[:2] + t[3:] if t[0] == 'call' else t
        if n in ('clear', 'erase') or len(u['o']) == 1 or u['o'][1][0] == 'i' and 'allocator' in (self.ins[u['o'][1][1]].aty or ''):
            return ('s', '')
        o = u['o'][1]
        return self._text(o, b, j)

    def _cellops(self, aid):
        """instructions that may define cells of a local, by block"""
        if not hasattr(self, '_co'):
            self._co = {}
        r = self._co.get(aid)
        if r is not None:
            return r
        if self.text(aid) is not None:
            r = self._co[aid] = self.text(aid)
            return r
        r = defaultdict(list)
        der = {aid}
        work = [aid]
        while work:
            i = work.pop()
            for u in self.uses[i]:
                if u.op in ('getelementptr', 'bitcast', 'select', 'phi') and u['id'] not in der:
                    der.add(u['id'])
                    work.append(u['id'])
        for i in der:
            for u in self.uses[i]:
                if u.op == 'store' and u['o'][1] == ['i', i]:
                    r[self.where[u['id']]] = u
                elif u.op == 'call':
                    for k, o in enumerate(u['o']):
                        if o == ['i', i] and self.prog.writes_param(self, u, k):
                            r[self.where[u['id']]] = u
        self._co[aid] = r
        return r

    def cell(self, aid, off, b, k):
        """term of the cell's value just before instruction k of block b"""
        ops = self._cellops(aid)
        for j in range(k - 1, -1, -1):
            u = ops.get((b, j))
            if u is not None:
                r = self._celldef(u, aid, off, b, j)
                if r is not None:
                    return r
        if b == self.where[aid][0]:
            return ('undef',)
        return self._cell_entry(aid, off, b)

    def _celldef(self, u, aid, off, b, j):
        if off == 'text':
            return self._given(u, b, j)
        if u.op == 'store':
            rt = self.root(u['o'][1])
            if rt[1] is not None:
                return self.term(u['o'][0]) if rt[1] == off else None
            pl = self.place(u['o'][1])
            if pl is None:
                return ('big', 'cell')
            f = self._at(pl, off)
            if f is False:
                return None
            if f is True:
                return self.term(u['o'][0])
            return vite([(f, self.term(u['o'][0])), (fnot(f), self.cell(aid, off, b, j))])
        n = u.cb or ''
        if CURSOR.match((self.ins[aid].aty or '')[1:]) and u['o'][0] == ['i', aid]:
            if self.cname(u) == 'operator++':
                return ('call', 'next', self.cell(aid, off, b, j))
            if self.cname(u) == 'operator--':
                return ('call', 'prev', self.cell(aid, off, b, j))
            if len(u['o']) == 2:  # conversion
                rs = self.root(u['o'][1])
                if rs and rs[1] is not None and self.tracked(rs[0]):
                    return self.cell(rs[0], rs[1], *self.where[u['id']])
        if n.startswith('llvm.memset'):
            rt = self.root(u['o'][0])
            ln = self.term(u['o'][2])
            if rt and rt[1] is not None and isc(ln):
                if rt[1] <= off < rt[1] + ln[1]:
                    return self.term(u['o'][1])
                return None
        if n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            rt = self.root(u['o'][0])
            ln = self.term(u['o'][2])
            if rt and rt[1] is not None and isc(ln) and not (rt[1] <= off < rt[1] + ln[1]):
                return None
            rs = self.root(u['o'][1])
            if rt and rs and rt[1] is not None and rs[1] is not None and self.tracked(rs[0]):
                return self.cell(rs[0], rs[1] + off - rt[1], *self.where[u['id']])
            if rt and rt[1] is not None:
                return ld(self.el(self.term(u['o'][1]), ('c', off - rt[1]), 1))
        args = []
        pos = off
        for o in u['o']:
            rt = self.root(o)
            if rt and rt[0] == aid:
                if rt[1] is not None:
                    pos = off - rt[1]
                args.append(('self*',))
            else:
                args.append(self.term(o))
        return ('out', ('call', self.cname(u)) + tuple(args), pos)

    def _cell_entry(self, aid, off, b):
        mk = ('cell', aid, off, b)
        C = self._cache()
        if mk in C:
            return C[mk]
        n = self._poison
        ps = [p for p in self.pred[b] if p in self.rpon]
        end = lambda p: self.cell(aid, off, p, len(self.blocks[p]))
        if not ps:
            r = ('undef',)
        elif b in self.loops and any(w[0] in self.loops[b] for w in self._cellops(aid)):
            r = ('hp', ('cell', aid, off, b), self._lev)
        else:
            vals = [(p, end(p)) for p in ps if b not in self.loops or p not in self.loops[b]]
            if len({v for _, v in vals}) == 1:
                r = vals[0][1]
            else:
                r = self._join([(v, p) for p, v in vals], b)
        if T.tsize(r) > 2500:
            r = self.big('cell', mk, r)
        if self._poison == n:
            C[mk] = r
        return r

    # -- values carried around loops -------------------------------------
    def _binder(self, h):
        """(depth, initial value, [next values]) of a value carried around a loop, in terms of such values"""
        C = self._cache()
        mk = ('binder', h)
        if mk in C:
            return C[mk]
        n = self._poison
        if isinstance(h, tuple):
            _, aid, off, b = h
            val = lambda p: self.cell(aid, off, p, len(self.blocks[p]))
            inc = [(val, p) for p in self.pred[b] if p in self.rpon]
        else:
            x = self.ins[h]
            b = self.where[h][0]
            inc = [(lambda p, o=o: self.term(o), p) for o, p in x['o'] if p in self.rpon]
        L = self.loops[b]
        outs = [(v(p), p) for v, p in inc if p not in L]
        if len({v for v, _ in outs}) == 1:
            init = outs[0][0]
        elif not outs:
            init = ('undef',)
        else:
            init = self._join(outs, b)
        nx = set()
        for v, p in inc:
            if p in L:
                # the next value while the loop goes on
                t, c = self.left(v(p), p, b), self.goes_on(b, p)
                if c is not True:
                    t = vite([(fand(f, c), w) for f, w in (t[1] if t[0] == 'ite' else ((True, t),)) if T.simplify(fand(f, c)) is not False]
                             + [(fnot(c), STOP)])
                nx.add(t)
        nx = sorted(nx, key=key)
        r = (len(self.lof[b]), init, nx)
        if self._poison == n:
            C[mk] = r
        return r

    def goes_on(self, h, p):
        """condition under which an iteration of the loop ends with going on from block p"""
        C = self._cache()
        mk = ('on', h, p)
        if mk in C:
            return C[mk]
        n = self._poison
        i = self.rpon[p] + 1
        R = self.reach_from(h, self.rpo[i] if i < len(self.rpo) else None)
        r = T.simplify(self._edge_reach(p, h, R)) if p in R else True
        if r is False:
            r = True
        if self._poison == n:
            C[mk] = r
        return r

    def left(self, t, p, b):
        """a value seen after the loops it was computed in: their counters are the numbers of their iterations"""
        hs = [h for h in self.lof.get(p, []) if b not in self.loops[h]]
        if not isinstance(t, tuple) or b in self.dead:
            return t  # an error exit is part of the iteration it happens in
        for h in reversed(hs):
            d = len(self.lof[h])
            if not any(y == ('k', d) for y in T.walk(t)):
                continue
            n = ('hp', ('it', h), self._lev)
            t = T.rebuild(t, lambda y: n if y == ('k', d) else y if y[0] in ('mu', 'it') and y[1] == d else None, _smart)
        return t

    def big(self, what, k, r):
        """a placeholder for a term too large to go on with"""
        h = ('big', what, k, self._nam)
        self._bigs[(h, self._lev)] = r
        return ('hp', h, self._lev)

    def expand(self, t, path=()):
        """the term with carried values written as recurrences; those being written refer to themselves by nesting distance"""
        if not isinstance(t, tuple):
            return t
        if not any(y and y[0] == 'hp' for y in T.walk(t)):
            return t
        return T.rebuild(t, lambda y: self._carried(y, path) if y[0] == 'hp' else None, _smart)

    def _carried(self, y, path):
        h = y[1:]
        if h in path:
            return ('self', len(path) - 1 - path.index(h))
        if len(path) >= 3:
            return ('self', 'deep')
        mk = (h, path)
        r = self._exp.get(mk)
        if r is None and isinstance(h[0], tuple) and h[0][0] == 'big':
            return self._exp.setdefault(mk, ('big', h[0][1], T.digest(self.expand(self._bigs[h], path + (h,)))))
        if r is None and isinstance(h[0], tuple) and h[0][0] == 'it':
            lev, self._lev = self._lev, h[1]
            try:
                d = len(self.lof[h[0][1]])
                c = False
                for q in self.pred[h[0][1]]:
                    if q in self.loops[h[0][1]] and q in self.rpon:
                        c = for_(c, self.goes_on(h[0][1], q))
            finally:
                self._lev = lev
            c = self.expand(c, path + (h,))
            # a test that comes out the same in every iteration is one of the loop being entered
            once = True
            for a in sorted(T.fatoms(c), key=key):
                for v in (True, False):
                    if T.restrict(c, a, not v) is False and self._invariant(a, d) and self._stable(a, h[0][1]):
                        once = fand(once, var(a) if v else fnot(var(a)))
                        c = T.restrict(c, a, v)
            r = ('it', d, vite([(c, add(('k', d), ('c', 1))), (fnot(c), STOP)]))
            if T.tsize(r) > 2500:
                r = ('big', 'it', T.digest(r))
            if once is not True:
                r = vite([(once, r), (fnot(once), ('c', 0))])
            self._exp[mk] = r
        if r is None:
            lev, self._lev = self._lev, h[1]
            try:
                d, init, nx = self._binder(h[0])
            finally:
                self._lev = lev
            p2 = path + (h,)
            init = self.expand(init, path)
            nx = sorted({self._begun(self.expand(n, p2), d, init) for n in nx}, key=key)
            if all(w == ('self', 0) or w == init or w == STOP for n in nx for w in ([x for _, x in n[1]] if n[0] == 'ite' else [n])):
                r = init
            else:
                r = ('mu', d, init) + tuple(nx)
                if T.tsize(r) > 12000:
                    r = ('big', 'mu', T.digest(r))
            self._exp[mk] = r
        return r

    def _begun(self, n, d, init):
        """in the first iteration the carried value is the initial one"""
        if n[0] != 'ite' or any(y[0] == 'self' for y in T.walk(init) if y):
            return n
        cs = []
        for f, w in n[1]:
            if w != STOP and T.known(f).get(('k', d)) == ('c', 0):
                w = T.rebuild(w, lambda y: init if y == ('self', 0) else y if y[0] == 'mu' else None, _smart)
            cs.append((f, w))
        return vite(cs)

    def content(self, o, b, k):
        """a pointer operand to a tracked local, with the contents it has at this point"""
        rt = self.root(o)
        if not rt or not self.tracked(rt[0]) or rt[1] is None:
            return None
        aid, base = rt
        offs = {0} if CURSOR.match((self.ins[aid].aty or '')[1:]) else set()
        for w, u in self._cellops(aid).items():
            if u.op == 'store':
                r2 = self.root(u['o'][1])
                if r2[1] is not None:
                    offs.add(r2[1])
                else:
                    pl = self.place(u['o'][1])
                    offs |= set(self._elem(pl) or ()) if pl and pl[2] is not None else set()
            elif (u.cb or '').startswith('llvm.memset'):
                ty = self.ins[aid].aty
                m = re.match(r'\[(\d+) x ([a-z]+)(\d*)\]', ty)
                if m:
                    es = {'i': int(m.group(3) or 8) // 8, 'float': 4, 'double': 8, 'ptr': 8}.get(m.group(2), 1)
                    offs |= {i * es for i in range(min(int(m.group(1)), 16))}
                else:
                    offs |= set(self.prog.plain.get(re.sub(r'\.\d+$', '', ty[1:]), ()) if ty.startswith('%') else {0})
        cells = []
        for f in sorted(offs):
            v = self.cell(aid, f, b, k)
            if v != ('undef',):
                cells.append((f - base, v))
        if not cells:
            return None
        ty = self.ins[aid].aty or ''
        if len(cells) == 1 and cells[0][0] == 0 and (CURSOR.match(ty[1:]) or not ty.startswith(('%', '['))):
            return ('ref', cells[0][1])
        return ('agg', self.ins[aid].aty, tuple(cells))

    def _stores(self):
        if not hasattr(self, '_st'):
            self._st = defaultdict(list)
            self._st_busy = True
            for s in self.insts():
                if s.op == 'store':
                    # cheap syntactic key: field name or None
                    self._st[s.tf or (s.tt or '?')].append(s)
        return self._st

    def _stored_before(self, x, a):
        """a direct store to the same address may precede this load"""
        if self._lev >= LEVELS:
            return False
        c = [s for s in self._stores().get(self._key(x, a), []) if self._may_precede(s, x)]
        if c:
            a = self._uaddr(x, a)
        return any(self.up(lambda: self.addr(s)) == a for s in c)

    def _uaddr(self, x, a):
        """the address at the next level; of several, the one of this shape"""
        u = self.up(lambda: self._addrs(x))
        if len(u) == 1:
            return u[0]
        u = [v for v in u if v == a] or [v for v in u if v[:1] == a[:1] and (a[0] != 'fld' or v[2] == a[2])]
        return u[0] if len(u) == 1 else ('?x',)

    def _may_precede(self, s, x):
        bs, ks = self.where[s['id']]
        bx, kx = self.where[x['id']]
        if bs == bx and ks < kx:
            return True
        return bx in self.reach_blocks(bs)

    def forward(self, p, q):
        """is place q reached from place p without going round a loop?"""
        if p[0] == q[0]:
            return p[1] < q[1]
        if not hasattr(self, '_fw'):
            self._fw = {}
        r = self._fw.get(p[0])
        if r is None:
            r, st = set(), [p[0]]
            while st:
                b = st.pop()
                for s in self.succ[b]:
                    if s not in r and self.rpon[s] > self.rpon[b]:
                        r.add(s)
                        st.append(s)
            self._fw[p[0]] = r
        return q[0] in r

    def reach_blocks(self, b):
        """blocks reachable from the end of block b"""
        if not hasattr(self, '_rb'):
            self._rb = {}
        r = self._rb.get(b)
        if r is None:
            r = set()
            st = list(self.succ[b])
            while st:
                y = st.pop()
                if y not in r:
                    r.add(y)
                    st.extend(self.succ[y])
            self._rb[b] = r
        return r

    _naming = set()

    def _alloca(self, x):
        t = self._alloca0(x)
        if self._naming or t[0] != 'obj' or (len(t) > 2 and 'basic_string' in t[1]) or 'iterator' in t[1] or 'allocator' in t[1] or self.tracked(x['id']):
            return t
        g = self._groups().get(t, ())
        if 1 < len(g) <= 4 and x['id'] in g:
            return t + (('#', g.index(x['id'])),)
        return t

    def _groups(self):
        """locals that only their place among their likes tells apart"""
        if not hasattr(self, '_grp'):
            self._grp = {}
            g = defaultdict(list)
            # on a copy of its own: naming must not leave terms behind
            me = Fn(self.prog, self.prog.raw[self.name])
            me._grp = {}
            for x in me.insts():
                if x.op == 'alloca' and not me.tracked(x['id']):
                    g[me._alloca0(x)].append(x['id'])
            self._grp = g
        return self._grp

    def definer(self, a):
        """(call that gives a local its content once and for all, operands of the content, whether these are it) or None"""
        if not hasattr(self, '_definers'):
            self._definers = {}
        if a in self._definers:
            return self._definers[a]
        self._definers[a] = None
        ctor, plain, given, calls, other = [], [], [], [], False
        for u in self.uses[a]:
            if u.op != 'call' or not u['o'] or u['o'][0] != ['i', a] or not u.cb:
                if u.op == 'call' or u.op in ('getelementptr', 'bitcast', 'phi', 'select', 'store', 'load', 'icmp'):
                    calls.append(u)
                continue
            p = u.cb.split('::')
            if len(p) > 1 and p[-1] == p[-2]:
                (ctor if len(u['o']) > 1 else plain).append(u)
            elif len(p) > 1 and p[-1].startswith('~'):
                pass
            elif u.at and u.at[0] == 'sret' and (C_std(u.cb) or u.cb in ('str::long_vec', 'str::fmt')):
                given.append(u)
            elif self.cname(u) == 'operator=' and u.cb.startswith('std::__cxx11::basic_string') and len(u['o']) == 2 and not self.uses.get(u['id']):
                given.append(u)
                calls.append(u)
            else:
                calls.append(u)
        r = None
        if len(ctor) == 1:
            r = (ctor[0], ctor[0]['o'][1:], False)
        elif not ctor and len(given) == 1:
            g = given[0]
            if g.at and g.at[0] == 'sret':
                r = (g, None, False)
            elif all(u is g or self.idominates(g, u) for u in calls):
                r = (g, g['o'][1:], True)
        self._definers[a] = r
        return r

    def constant(self, a):
        """a local never changed after it was made"""
        import contract as C
        d = self.definer(a)
        for u in self.uses[a]:
            if u is d[0] or u.op == 'call' and u.cb and u.cb.split('::')[-1].startswith('~'):
                continue
            if u.op != 'call' or u.cb and C_std(u.cb) and u['o'][0] == ['i', a] and self.cname(u) not in C.PURE:
                return False
        return True

    def passing(self, a):
        """a temporary: made, handed on once, destroyed"""
        d = self.definer(a)
        n = [u for u in self.uses[a] if u is not (d and d[0]) and not (u.op == 'call' and u.cb and u.cb.split('::')[-1].startswith('~'))]
        return bool(d) and len(n) <= 1

    def _alloca0(self, x):
        ty = re.sub(r'\.\d+$', '', x.aty)
        # identify a local by its type and, when there is exactly one, its constructor's arguments
        d = self.definer(x['id'])
        if not d or x['id'] in self._naming and d[1] is None:
            return ('obj', ty)
        self._naming.add(x['id'])
        self._nam += 1
        try:
            if d[1] is None:
                c = d[0]
                return ('obj', ty, ('call', self.cname(c)) + tuple(self.term(y) for y in c['o'][1:]))
            as_ = []
            for y in d[1]:
                if y[0] == 'i' and self.ins[y[1]].op == 'alloca':
                    if y[1] == x['id'] or 'allocator' in (self.ins[y[1]].aty or '') or y[1] in self._naming - {x['id']}:
                        continue
                as_.append(self.term(y))
                if len(d[1]) == 1 and as_[0][0] == 'obj' and as_[0][1] == ty and y[0] == 'i' and self.ins[y[1]].op == 'alloca' and self.passing(y[1]):
                    return as_[0]
            if len(as_) == 1 and as_[0][0] == 's' and 'basic_string' in ty and self.constant(x['id']):
                return as_[0]
            return ('obj', ty) + tuple(as_)
        finally:
            self._naming.discard(x['id'])
            self._nam -= 1

    def _phi(self, x):
        b = self.where[x['id']][0]
        if b in self.loops:
            L = self.loops[b]
            outs = [(o, p) for o, p in x['o'] if p not in L]
            ins_ = [(o, p) for o, p in x['o'] if p in L]
            d = len(self.lof[b])
            # induction variable?
            step = None
            for o, p in ins_:
                s = self._step(o, x['id'], L)
                if s is None or (step is not None and s != step):
                    step = None
                    break
                step = s
            if step is None:
                return ('hp', x['id'], self._lev)
            if len(outs) == 1:
                init = self.term(outs[0][0])
            else:
                init = self._join([(self.term(o), p) for o, p in outs], b)
            n, esz, isptr = step
            if isptr:
                return self.el(init, ('k', d), n) if init[0] != 'ite' else ('el', init, scale(('k', d), n))
            return add(init, scale(('k', d), n))
        return self._join([(self.left(self.term(o), p, b), p) for o, p in x['o'] if p in self.rpon], b)

    def _step(self, o, pid, L, depth=0):
        """o == phi + constant?"""
        if o[0] != 'i' or depth > 6:
            return None
        y = self.ins[o[1]]
        if o[1] == pid:
            return (0, 0, False)
        if y.op in ('add', 'sub'):
            a, b = y['o']
            if b[0] == 'c':
                s = self._step(a, pid, L, depth + 1)
                if s and not s[2]:
                    return (s[0] + (b[1] if y.op == 'add' else -b[1]), 0, False)
            if a[0] == 'c' and y.op == 'add':
                s = self._step(b, pid, L, depth + 1)
                if s and not s[2]:
                    return (s[0] + a[1], 0, False)
            return None
        if y.op == 'getelementptr' and len(y['o'][1]) == 1 and y['o'][1][0][0] == 'x' and y['o'][1][0][1][0] == 'c':
            s = self._step(y['o'][0], pid, L, depth + 1)
            if s is not None:
                return (s[0] + y['o'][1][0][1][1] * y['o'][1][0][2], 0, True)
            return None
        if y.op in ('sext', 'zext', 'trunc', 'freeze'):
            return self._step(y['o'][0], pid, L, depth + 1)
        if y.op == 'phi' and self.where[y['id']][0] in L and self.where[y['id']][0] not in self.loops:
            r = None
            for q, p in y['o']:
                s = self._step(q, pid, L, depth + 1)
                if s is None or (r is not None and r != s):
                    return None
                r = s
            return r
        return None

    PTRFN = {'operator[]'}

    def _call(self, x):
        n = self.cname(x)
        n = re.sub(r'^llvm\.([a-z]+)\..*', r'\1', x.cb) if x.cb and x.cb.startswith('llvm.') else n
        if n in ('smax', 'smin', 'umax', 'umin', 'maxnum', 'minnum', 'abs') and x.cb.startswith('llvm.'):
            a = [self.term(y) for y in x['o'][:2]]
            if n == 'abs':
                return ('call', 'abs', a[0])
            f = lt0(sub(a[0], a[1]))
            lo, hi = (a[0], a[1])
            return vite([(f, hi), (fnot(f), lo)]) if 'max' in n else vite([(f, lo), (fnot(f), hi)])
        n = {'fmuladd': 'fmuladd'}.get(n, n)
        args = []
        bi, kk = self.where[x['id']]
        for y in x['o']:
            if y[0] == '?' and y[1] == 'metadata':
                continue
            if y[0] == 'i' and self.texts(y[1]):
                if y is x['o'][0] and x.at and x.at[0] == 'sret':
                    args.append(('obj', 'out'))
                    continue
                t = self.content_of(y, bi, kk)
                args.append(t if t != ('undef',) else self.term(y))
                continue
            if ENDPTR.match(n) and y is x['o'][1] and self.root(y):
                args.append(('obj', 'ptr'))  # only written
                continue
            t = None
            if y[0] == 'i' and self.root(y):
                if self.prog.reads_param(self, x, x['o'].index(y)):
                    t = self.content(y, bi, kk)
                if t is None and self.tracked(self.root(y)[0]) and not (self.ins[self.root(y)[0]].aty or '').startswith(('%', '[')) \
                        and self.root(y)[1] == 0:
                    args.append(('obj', 'out'))  # only written
                    continue
            if t is None and y is x['o'][-1] and y[0] in ('i', 'a') and self.prog.scalar_ref(x):
                a = self.term(y)
                z = Inst({'op': 'load', 'id': x['id'], 'o': [y], 'tf': a[2] if a[0] == 'fld' else None, 'tt': self.prog.scalar_ref(x)})
                t = ('ref', self._load(z, self._addr2(a, z)))
            args.append(t if t is not None else self.term(y))
        if n == 'fmuladd':
            return add(mul(args[0], args[1]), args[2])
        if x.tg is not None and not x.cb:
            n = self.cname(x)
            if n == '<indirect>' and x.callee:
                return ('icall', self.term(x.callee)) + tuple(args)
        m = {'powf': 'pow', 'log10f': 'log10', 'expf': 'exp', 'logf': 'log', 'fabsf': 'fabs', 'sqrtf': 'sqrt'}
        n = m.get(n, n)
        if n in ('get', 'operator->') and x.cb and re.match(r'std::(__)?(shared|unique)_ptr', x.cb) and len(args) == 1:
            n = 'operator*'  # what a smart pointer points to
        if x.cb == n and n in ('fputs', 'fputc', 'putc', 'putchar', 'puts', 'fwrite'):
            t = printed(n, args)
            if t:
                return t
        if x.cb == n == 'printf':
            return ('call', 'fprintf', ('ld', ('g', 'stdout'))) + tuple(args)
        if n in ('strtod', 'strtol', '__isoc23_strtol') and args[1] == ('c', 0) and x.cb:
            if n == 'strtod':
                return ('call', 'atof', args[0])
            n = 'strtol'
        if n in ('operator++', 'operator--') and len(args) == 2 and x.cb and C_std(x.cb) and not self.uses.get(x['id']):
            args = args[:1]
        if n == 'push_back' and len(args) == 3:
            args = args[:1] + args[2:]
        t = ('call', n + self.instance(x)) + tuple(args)
        again = self.anew(x)
        if again:
            t += (("'" * (again + 1),),)
        elif self._reread(x, args):
            t += (("'",),)
        if x.cb and x.cb.startswith('std::'):
            if n == 'operator==' and len(args) == 2:
                t = same(*args)
            if n in ('size', 'length', 'strlen') and len(args) == 1 and args[0][0] == 's':
                return num(len(args[0][1]))
            if n in ('c_str', 'data') and len(args) == 1 and args[0][0] == 's':
                return args[0]
            if n == 'length':
                t = ('call', 'size') + tuple(args)
            elif n == 'resize' and len(args) == 2 and args[1] == ('c', 0):
                t = ('call', 'clear', args[0])
            elif n == 'count' and len(args) == 2 and re.match(r'std::(unordered_)?(map|set)\b', x.cb):
                f = var(('b', same(('ref', ('call', 'find') + tuple(args)), ('ref', ('call', 'end', args[0])))))
                return vite([(f, ('c', 0)), (fnot(f), ('c', 1))])
            elif n == 'operator->':
                t = ('call', 'operator*') + tuple(args)
        if n == 'operator[]' and len(args) == 2:
            return ('at', args[0], args[1])
        return t


def template_args(d):
    """template arguments in the qualified name of a function"""
    out, n = '', 0
    for ch in d:
        if ch == '(' and not n:
            break
        n += ch == '<'
        if n:
            out += ch
        n -= ch == '>'
    return out


def C_std(n):
    return n.startswith(('std::', '__gnu_cxx::'))


def printed(n, args):
    """output of a constant, or of a string, as fprintf does it"""
    out = ('ld', ('g', 'stdout'))
    def const(a):
        return a[1] if a[0] == 's' else chr(a[1]) if a[0] == 'c' and isinstance(a[1], int) and 0 < a[1] < 128 else None
    f, a = (out if n in ('putchar', 'puts') else args[-1]), args[0]
    if n in ('fputc', 'putc', 'putchar') and a[0] != 'c':
        return ('call', 'fprintf', f, ('s', '%c'), a)
    if n == 'fwrite':
        s = const(a)
        if s is None or len(args) != 4 or not (isc(args[1]) and isc(args[2])) or args[1][1] * args[2][1] != len(s):
            return None
    s = const(a)
    if s is None:
        return ('call', 'fprintf', f, ('s', '%s' + ('\n' if n == 'puts' else '')), a)
    return ('call', 'fprintf', f, ('s', s.replace('%', '%%') + ('\n' if n == 'puts' else '')))


def disjoint(a, b):
    """arrays held by different members of one object"""
    if a[0] == b[0] == 'ld' or a[0] == b[0] == 'vd':
        a, b = a[1], b[1]
        return a[0] == b[0] == 'fld' and a[1] == b[1] and a[2] != b[2]
    return False


def same(a, b):
    """equality of two library values"""
    a, b = sorted((a, b), key=lambda t: (t[0] == 's', key(t)))
    return ('call', 'operator==', a, b)


def sizeof(v):
    """size of a vector at the place where it is looked at"""
    return v[2] if v[0] == 'rsz' else ('size', v)


def _sizes(d):
    """in a difference mixing vector byte counts and offsets, count elements"""
    c, m = lin(d)
    if any(t[0] == 'bytes' for t in m):
        others = [abs(v) for t, v in m.items() if t[0] != 'bytes' and isinstance(v, int)]
        from math import gcd
        g = 0
        for v in others:
            g = gcd(g, v)
        if isinstance(c, int) and c:
            g = gcd(g, abs(c))
        if not others and not c:
            if len(m) == 1:
                return d  # a bare byte count: kept for a division by the element size
            return d
        if g and g in (1, 2, 4, 8, 12, 16, 24, 32) or g:
            r = mklin(c // g if isinstance(c, int) else c, {t: v // g for t, v in m.items() if t[0] != 'bytes'})
            for t, v in m.items():
                if t[0] == 'bytes':
                    r = add(r, scale(sizeof(t[1]), v))
            return r
    return d


def ld(a):
    if a[0] == 'ite':
        return vite([(f, ld(v)) for f, v in a[1]])
    return ('ld', a)


def lift2(f, a, b):
    """apply f through conditional values (bounded)"""
    if a[0] == 'ite' and b[0] == 'ite' and len(a[1]) * len(b[1]) <= 16:
        return vite([(fand(x, y), f(u, v)) for x, u in a[1] for y, v in b[1]])
    if a[0] == 'ite' and b[0] != 'ite' and len(a[1]) <= 16:
        return vite([(x, f(u, b)) for x, u in a[1]])
    if b[0] == 'ite' and a[0] != 'ite' and len(b[1]) <= 16:
        return vite([(x, f(a, u)) for x, u in b[1]])
    return f(a, b)


LEVELS = 2


def _smart(t):
    """a rebuilt term in normal form"""
    if t[0] == 'el' and len(t) == 3:
        return Fn.el(t[1], t[2], 1)
    if t[0] == 'fld' and len(t) == 3:
        return Fn.fld(t[1], t[2])
    if t[0] == 'ld' and len(t) == 2:
        return ld(t[1])
    return t


STOP = ('stop',)


def tops(t):
    """the outermost calls and loads of a term"""
    r, st = set(), [t]
    while st:
        y = st.pop()
        if isinstance(y, tuple) and y:
            if y[0] in ('call', 'ld'):
                r.add(y)
                if y[:2] == ('call', 'operator!='):
                    r.add(('call', 'operator==') + y[2:])
            else:
                st.extend(y)
    return r


def rename(j, fns, fields):
    """give renamed functions and members the names the reference knows them by"""
    def dem(s):
        for n, o in fns.items():
            if last(n) in s:
                s = re.sub(r'(?<![\w~])%s(?=[(<]|$)' % re.escape(last(n)), last(o), s)
        return s

    def tree(x):
        if isinstance(x, list):
            if len(x) > 1 and x[0] == 'f' and isinstance(x[1], str):
                return [x[0], fields.get(x[1], x[1])] + x[2:]
            return [tree(y) for y in x]
        return x
    for f in j['functions']:
        f['base'] = fns.get(f['base'], f['base'])
        f['dem'] = dem(f['dem'])
        for b in f['blocks']:
            for x in b:
                for k, m in (('cb', fns), ('tf', fields)):
                    if x.get(k) in m:
                        x[k] = m[x[k]]
                if 'tb' in x:
                    x['tb'] = [fns.get(y, y) for y in x['tb']]
                if fields and 'o' in x:
                    x['o'] = tree(x['o'])
    j['demangled'] = {k: dem(v) for k, v in j['demangled'].items()}
    j['defined'] = {fns.get(k, k): v for k, v in j['defined'].items()}
    for s, fs in j['types'].items():
        for x in fs:
            o = fields.get('%s.%s' % (s, x[1]))
            if o:
                x[1] = o.rsplit('.', 1)[1]


class Prog:
    def __init__(self, path, repo='/repo', alias=None):
        self.repo = repo
        j = json.load(open(path))
        self.alias = alias
        if alias:
            rename(j, *alias)
        self.defined = j['defined']
        self.dem = j['demangled']
        self.types = j['types']
        self.raw = {f['name']: f for f in j['functions']}
        self._fn = {}
        self._base = {}
        self.sref = {}
        for f in j['functions']:
            self._base.setdefault(f['base'], []).append(f['name'])
        self.noret = self._never_return()
        self.inlined = {f['name'] for f in j['functions'] if f['inlined']}
        # plain structs: no base, no library or dynamic members
        self.plain = {}
        for n, fs in self.types.items():
            if fs and all(k == 'field' and not re.search(r'vector|string|map|deque|\*|list|ptr', ty) for k, _, ty in fs):
                self.plain[n] = tuple()
        self.cursors = {n for n in self.types if CURSOR.match(n)} | {
            'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::_List_iterator', 'std::_List_const_iterator'}
        for n in self.cursors:
            self.plain[n] = (0,)

    def _never_return(self):
        """repository functions no path of which returns"""
        out = set()
        ch = True
        while ch:
            ch = False
            for f in self.raw.values():
                if f['name'] in out or not f['blocks']:
                    continue
                B = f['blocks']
                seen, st, ret = {0}, [0], False
                while st and not ret:
                    b = st.pop()
                    for x in B[b]:
                        if x['op'] in ('call', 'invoke') and (x.get('noret') or x.get('cb') in NORET or x.get('fn') in out):
                            break
                        if x['op'] in ('ret', 'resume'):
                            ret = True
                            break
                    else:
                        for s in (B[b][-1].get('su') or []) if B[b] else []:
                            if s not in seen:
                                seen.add(s)
                                st.append(s)
                if not ret:
                    out.add(f['name'])
                    ch = True
        return out

    def fn(self, name):
        if name not in self._fn and name in self.raw:
            self._fn[name] = Fn(self, self.raw[name])
        return self._fn.get(name)

    def basename(self, mangled):
        if mangled in self.raw:
            return self.raw[mangled]['base']
        return self.dem.get(mangled, mangled)

    def fns(self, *bases):
        """instances of functions by base name ('X::*' for all members)"""
        r = []
        for b in bases:
            if b.endswith('*'):
                for k in self._base:
                    if k.startswith(b[:-1]):
                        r += self._base[k]
            else:
                r += self._base.get(b, [])
        return [self.fn(n) for n in r]

    def all(self):
        return [self.fn(n) for n in self.raw]

    def bases(self):
        return self._base

    # -- modification summaries ---------------------------------------
    def disturbs(self, zs, xs):
        """may a call of zs change what a call of xs looks at?"""
        if not hasattr(self, '_looks'):
            W, L, cal = {}, {}, {}
            for n, j in self.raw.items():
                W[n], L[n], cal[n] = set(), set(), set()
                for b in j['blocks']:
                    for x in b:
                        if x['op'] in ('store', 'load'):
                            (W if x['op'] == 'store' else L)[n].add(x.get('tf') or x.get('tt') or '?')
                        elif x['op'] == 'call':
                            cal[n].update([x['fn']] if x.get('fn') else [])
                            cal[n].update(x.get('tg') or [])
            for D in (W, L):
                ch = True
                while ch:
                    ch = False
                    for n in D:
                        for c in cal[n]:
                            if c in D and not D[c] <= D[n]:
                                D[n] |= D[c]
                                ch = True
            self._writes, self._looks = W, L
        return not any(z in self.raw for z in zs) or any(self._writes[z] & self._looks[x] for z in zs if z in self.raw for x in xs if x in self.raw)

    def looks(self, name):
        """names of the fields a function may read, transitively"""
        if not hasattr(self, '_looks'):
            self.disturbs((), ())
        return self._looks.get(name, set())

    def allmods(self):
        if not hasattr(self, '_allmods'):
            self._allmods = set().union(*(self.mods(n) for n in self.raw)) if self.raw else set()
        return self._allmods

    def mods(self, name):
        """names of the fields a function may store to, transitively"""
        if not hasattr(self, '_mods'):
            self._mods = {}
            callees = {}
            for n, j in self.raw.items():
                m = set()
                cs = set()
                for b in j['blocks']:
                    for x in b:
                        if x['op'] == 'store' and x.get('tf'):
                            m.add(x['tf'])
                        if x['op'] == 'call':
                            if x.get('fn'):
                                cs.add(x['fn'])
                            cs.update(x.get('tg') or [])
                self._mods[n] = m
                callees[n] = cs
            ch = True
            while ch:
                ch = False
                for n in self._mods:
                    for c in callees[n]:
                        if c in self._mods and not self._mods[c] <= self._mods[n]:
                            self._mods[n] |= self._mods[c]
                            ch = True
        return self._mods.get(name, set())

    def sizes(self):
        """per function: fields whose number of elements it may change, transitively"""
        if not hasattr(self, '_sizes'):
            self._sizes, cal = {}, {}
            for n, j in self.raw.items():
                m, cs, at = set(), set(), {}
                for b in j['blocks']:
                    for x in b:
                        if x['op'] == 'getelementptr':
                            at[x['id']] = [p[1] for p in x['o'][1] if p[0] == 'f']
                        if x['op'] != 'call':
                            continue
                        tg = ([x['fn']] if x.get('fn') else []) + (x.get('tg') or [])
                        cs.update(tg)
                        cb = x.get('cb') or ''
                        if '::vector' in cb and last(cb) not in Fn.KEEPS or any(t in self.raw for t in tg):
                            for o in x.get('o') or []:
                                if o and o[0] == 'i' and o[1] in at:
                                    m.update(at[o[1]])
                self._sizes[n], cal[n] = m, cs
            ch = True
            while ch:
                ch = False
                for n in self._sizes:
                    for c in cal[n]:
                        if c in self._sizes and not self._sizes[c] <= self._sizes[n]:
                            self._sizes[n] |= self._sizes[c]
                            ch = True
        return self._sizes

    def call_sizes(self, f, x, v, at):
        """may the call change the number of elements of this vector?"""
        for k, o in enumerate(x['o']):
            if o[0] in ('i', 'a') and f._perhaps(o, at, v) and self.writes_param(f, x, k) and f.up(lambda: f.term(o)) == v:
                return True
        return v[0] == 'fld' and any(v[2] in self.sizes().get(t, ()) for t in f.targets(x))

    def mods_global(self, f, y, g):
        """may the call change this global variable?"""
        if any(o == ['g', g] for o in y['o']):
            return True
        tg = f.targets(y)
        if not tg and not y.cb:
            return True
        if not hasattr(self, '_gmods'):
            self._gmods = {}
            cal = {}
            for n, j in self.raw.items():
                m, cs = set(), set()
                for b in j['blocks']:
                    for x in b:
                        for i, o in enumerate(x.get('o') or []):
                            if o and o[0] == 'g' and not (x['op'] == 'load' or x['op'] == 'getelementptr'):
                                m.add(o[1])
                        if x['op'] == 'call':
                            if x.get('fn'):
                                cs.add(x['fn'])
                            cs.update(x.get('tg') or [])
                self._gmods[n] = m
                cal[n] = cs
            ch = True
            while ch:
                ch = False
                for n in self._gmods:
                    for c in cal[n]:
                        if c in self._gmods and not self._gmods[c] <= self._gmods[n]:
                            self._gmods[n] |= self._gmods[c]
                            ch = True
        return any(g in self._gmods[t] for t in tg if t in self.raw)

    READERS = re.compile(r'printf$|^f?puts?$|^puts|^push_back$|^emplace_back$|^push_front$|^insert$|^strlen$|^strcmp$|^memcmp$|^find$|'
                         r'^count$|^operator(\[\]|==|!=|<<|\+|\*|->)$|^min$|^max$|^fwrite$|^append$|^assign$|^resize$|^erase$|^make_pair$')

    def scalar_ref(self, x):
        """type of the last parameter of a library function when it is a constant reference to a number"""
        if not x.fn or x.fn in self.raw:
            return None
        r = self.sref.get(x.fn)
        if r is None:
            m = re.search(r'\b(unsigned char|unsigned short|unsigned int|unsigned long|bool|char|short|int|long|float|double) const&\)(?: const)?$', self.dem.get(x.fn, ''))
            r = self.sref[x.fn] = m.group(1) if m else ''
        return r or None

    def writes_param(self, f, x, k):
        """may the call store through its k-th argument?"""
        cb = x.cb or ''
        if cb.startswith('llvm.lifetime') or cb.startswith('llvm.dbg'):
            return False
        tg = f.targets(x)
        rp = [t for t in tg if t in self.raw]
        if rp:
            return any(self.param_written(t, k) for t in rp)
        if not tg:
            return True
        if cb.startswith('llvm.mem'):
            return k == 0
        n = last(cb)
        parts = cb.split('::')
        if k == 0 and len(parts) > 1:
            return not self.READERS.search(n) or n in ('push_back', 'insert', 'erase', 'assign', 'append', 'resize')
        if len(parts) > 1 and parts[-1] == parts[-2]:
            return k == 0
        return not self.READERS.search(n)

    def param_written(self, name, k):
        if not hasattr(self, '_pw'):
            self._pw = {}
        r = self._pw.get((name, k))
        if r is not None:
            return r
        self._pw[name, k] = False
        f = self.fn(name)
        r = False
        der = set()
        isarg = lambda o: o == ['a', k] or (o[0] == 'i' and o[1] in der)
        for _ in range(2):
            for x in f.insts():
                if x.op in ('getelementptr', 'bitcast') and isarg(x['o'][0]):
                    der.add(x['id'])
                elif x.op in ('phi', 'select') and any(isarg(o) for o in f.operands(x)):
                    der.add(x['id'])
        for x in f.insts():
            if x.op == 'store' and isarg(x['o'][1]):
                r = True
            elif x.op == 'store' and isarg(x['o'][0]):
                r = True  # escapes
            elif x.op == 'call':
                for i, o in enumerate(x['o']):
                    if isarg(o) and self.writes_param(f, x, i):
                        r = True
        self._pw[name, k] = r
        return r

    def kept(self, t, k, n):
        """is the string passed as k-th of n operands handed over by value or for reading only?"""
        m = re.match(r'(.*)\((.*)\)( const)?$', self.dem.get(t, ''), re.S)
        if m:
            # the last parenthesis group
            d = self.dem[t]
            d = d[:d.rindex(')')]
            lv, i = 0, len(d) - 1
            ps, end = [], len(d)
            while i >= 0:
                ch = d[i]
                if ch in ')>':
                    lv += 1
                elif ch in '(<' and lv:
                    lv -= 1
                elif not lv and ch in ',(':
                    ps.append(d[i + 1:end].strip())
                    end = i
                    if ch == '(':
                        break
                i -= 1
            ps.reverse()
            j = k - (n - len(ps))
            if 0 <= j < len(ps):
                q = ps[j]
                return not q.endswith(('*', '&')) or q.endswith('const&')
        return not self.param_written(t, k)

    def reads_param(self, f, x, k):
        """may the call look at what its k-th argument points to?"""
        tg = f.targets(x)
        if tg and all(t in self.raw for t in tg):
            return any(self.param_read(t, k) for t in tg)
        return not ((x.cb or '').startswith('llvm.mem') and k == 0)

    def param_read(self, name, k):
        if not hasattr(self, '_pr'):
            self._pr = {}
        r = self._pr.get((name, k))
        if r is not None:
            return r
        self._pr[name, k] = False
        f = self.fn(name)
        r = False
        der = set()
        isarg = lambda o: o == ['a', k] or (o[0] == 'i' and o[1] in der)
        for _ in range(3):
            for x in f.insts():
                if x.op in ('getelementptr', 'bitcast') and isarg(x['o'][0]):
                    der.add(x['id'])
                elif x.op in ('phi', 'select') and any(isarg(o) for o in f.operands(x)):
                    der.add(x['id'])
        sts = [x for x in f.insts() if x.op == 'store' and isarg(x['o'][1])]
        for x in f.insts():
            if x.op in ('getelementptr', 'bitcast', 'phi', 'select', 'icmp'):
                continue
            if x.op == 'call':
                r = r or any(isarg(o) and self.reads_param(f, x, i) for i, o in enumerate(x['o']))
            elif x.op == 'store':
                r = r or isarg(x['o'][0])
            elif x.op == 'load':
                r = r or isarg(x['o'][0]) and not any(s['o'][1] == x['o'][0] and f.idominates(s, x) for s in sts)
            else:
                r = r or any(isarg(o) for o in f.operands(x))
        if r:  # a guess made on the way through a cycle of calls may have been used elsewhere
            self._pr = {n: v for n, v in self._pr.items() if v}
        self._pr[name, k] = r
        return r

    def pure(self):
        """repository functions without effects: no stores outside their own locals"""
        if hasattr(self, '_pure'):
            return self._pure
        import contract as C
        bad = set()
        callees = {}
        for f in self.all():
            cs = set()
            for x in f.insts():
                if x.op == 'store':
                    if not f.root(x['o'][1]):
                        bad.add(f.name)
                elif x.op == 'call':
                    tg = f.targets(x)
                    rp = [t for t in tg if t in self.raw]
                    cs.update(rp)
                    if not rp and (x.cb and C.library_effect(f, x) or not x.cb) and not C.local_effect(f, x):
                        bad.add(f.name)
            callees[f.name] = cs
        ch = True
        while ch:
            ch = False
            for n, cs in callees.items():
                if n not in bad and cs & bad:
                    bad.add(n)
                    ch = True
        self._pure = set(self.raw) - bad
        return self._pure

    def speaks(self):
        """repository functions that may write to, open or close a file"""
        if not hasattr(self, '_speaks'):
            import contract as C
            r, callees = set(), {}
            for f in self.all():
                cs = callees[f.name] = set()
                for x in f.insts():
                    if x.op == 'call':
                        tg = f.targets(x)
                        cs.update(tg)
                        if not any(t in self.raw for t in tg) and not C.diag(f, x) and C.speaks(x, f.cname(x)):
                            r.add(f.name)
            ch = True
            while ch:
                ch = False
                for n, cs in callees.items():
                    if n not in r and cs & r:
                        r.add(n)
                        ch = True
            self._speaks = r
        return self._speaks

    def call_mods(self, f, x, fld, addr):
        """may the call change the field at this address?"""
        for t in f.targets(x):
            if t in self.raw:
                if fld in self.mods(t):
                    return True
            else:
                # library function: only through a pointer to the object itself
                for o in x['o']:
                    if o[0] in ('i', 'a') and f.term(o) in (addr, addr[1]):
                        return True
        if not f.targets(x):
            return True
        return False

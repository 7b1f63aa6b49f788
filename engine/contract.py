"""Effect rows of a function in value normal form."""
import re
import terms as T
from terms import fand, for_, fnot, vite, pt, fmt, key
from vk import last

# calls that are only values: nothing but their result matters
PURE = set('''get size empty c_str length data begin end cbegin cend rbegin rend front back find count at capacity strlen strcmp strncmp
memcmp pow log10 log exp fabs sqrt floor ceil round isnan isinf abs operator* operator-> operator== operator!= operator< operator[]
operator+ operator- compare substr str what operator!
getvalue num_entries Idx2Keyp Idx2Valp word word_index num_words order last_order log_prob log_prob_bo log_prob_i
order_size bo_order_size isspace isdigit atoi atol atof log2 strchr strrchr strstr find_first_not_of find_last_not_of
find_first_of find_last_of rfind ferror feof stof stod stoi strerror __errno_location'''.split())
# also without a place to put the end
PURE0 = {'strtod': 'atof', 'strtof': 'strtof', 'strtol': 'strtol', '__isoc23_strtol': 'strtol'}
# repository functions that are values although they may end the program on bad input
VALUES = set('''conf::Config::operator[] conf::Option::get_int conf::Option::get_double conf::Option::get_str conf::Option::get_c_str
str::str2long str::str2float str::long_vec'''.split())
SAME = {'operator!=': 'operator==', 'compare': 'operator==', 'operator->': 'operator*', 'get': 'operator*', 'length': 'size', 'empty': 'size'}
IGN = set('''allocator ~allocator'''.split())


def is_std(n):
    return n is not None and (n.startswith('std::') or n.startswith('__gnu_cxx::') or n.startswith('llvm.') or n.startswith('__cxa'))


def diag(f, x):
    """diagnostic output on stderr / cerr"""
    n = f.cname(x)
    if n not in ('fprintf', 'fputs', 'fputc', 'fwrite', 'vfprintf', 'fflush', 'operator<<', 'endl', 'put', 'flush', 'perror'):
        return False
    if any(stream(f, o) in ('stderr', 'std::cerr') for o in x['o']):
        return True
    if not hasattr(f.prog, '_pure'):
        return n == 'perror'  # terms cannot be formed yet
    if n in ('fprintf', 'fputs', 'fputc', 'fwrite', 'vfprintf', 'fflush'):
        for o in x['o']:
            t = f.term(o)
            if t == ('ld', ('g', 'stderr')):
                return True
    if n == 'operator<<' or n in ('endl', 'put', 'flush'):
        for y in T.walk(f.term(['i', x['id']]) if x.ty else ('x',)):
            if y == ('g', 'std::cerr'):
                return True
    if n == 'perror':
        return True
    return False


def stream(f, o):
    """the global variable a stream operand comes from"""
    while o[0] == 'i':
        y = f.ins[o[1]]
        if y.op == 'call' and f.cname(y) not in ('operator<<', 'endl', 'put', 'flush') or not y['o']:
            return None
        o = y['o'][0]
    return o[1] if o[0] == 'g' else None


def pure(f, x):
    n = f.cname(x)
    if not hasattr(f.prog, '_pure'):
        return n in PURE or n in PURE0 and x['o'][1] in (['c', 0], ['n'])
    return n in PURE or n in PURE0 and f.term(x['o'][1]) == ('c', 0)


def iterator(f, o):
    r = f.root(o)
    return bool(r) and 'iterator' in (f.ins[r[0]].aty or '')


def library_effect(f, x):
    n = f.cname(x)
    cb = x.cb or ''
    if cb.startswith('llvm.'):
        return bool(re.match(r'llvm\.(memcpy|memmove|memset)', cb))
    if n in ('operator++', 'operator--', 'operator+=', 'operator-=', 'operator=') and x['o'] and iterator(f, x['o'][0]):
        return False
    if n in IGN or n.startswith('~') or n.startswith('__throw') or diag(f, x):
        return False
    parts = cb.split('::')
    if len(parts) > 1 and parts[-1] == parts[-2]:
        return False  # constructor of a library object
    if pure(f, x):
        return False
    return True


def hole(a):
    """a conditional value in an argument: its cases and the argument with a value in its place"""
    if not isinstance(a, tuple) or not a:
        return None
    if a[0] == 'ite':
        return a[1], lambda v: v
    if a[0] == 'ref':
        h = hole(a[1])
        return h and (h[0], lambda v: ('ref', h[1](v)))
    if a[0] == 'agg':
        for k, (o, v) in enumerate(a[2]):
            h = hole(v)
            if h:
                return h[0], lambda w: ('agg', a[1], a[2][:k] + ((o, h[1](w)),) + a[2][k + 1:])
    if a[0] in ('call', 'vcall', 'toint', 'idiv', 'rem'):
        for k in range(1, len(a)):
            h = hole(a[k])
            if h:
                return h[0], lambda w: a[:k] + (h[1](w),) + a[k + 1:]
    return None


def longer(row):
    """a text set to itself and something more has that appended"""
    if row[:2] != ('call', 'operator=') or len(row[2]) != 2:
        return row
    a, v = row[2]
    more = []
    while isinstance(v, tuple) and len(v) == 4 and v[:2] == ('call', 'operator+'):
        more.append(v[3])
        v = v[2]
    if v != a or not more or any(a in T.walk(m) for m in more):
        return row
    m = more.pop()
    while more:
        m = ('call', 'operator+', m, more.pop())
    return ('call', 'push_back' if m[0] == 'c' else 'append', (a, m))


class Rows:
    def __init__(self, f):
        self.f = f
        self.rows = {}   # (kind, name, args) -> formula
        self.parts = {}  # (kind, name, args) -> [formula of each place]
        self.locs = {}
        self.dep = {}    # (kind, name, args) -> nesting depths it is found at
        self.at = {}     # (kind, name, args) -> {(nesting depth, loop): formula}
        self.sites = {}  # (kind, name, args) -> instructions
        self.lib = set()

    def put(self, row, cond, x, limit=60):
        """expand conditional values in the arguments"""
        row = longer(row)
        todo = [((row[0], row[1], tuple(self.f.expand(a) for a in row[2])), self.f.expand(cond))]
        n = 0
        while todo:
            r, c = todo.pop()
            if c is False:
                continue
            i, h = next(((i, h) for i, a in enumerate(r[2]) for h in [hole(a)] if h), (None, None))
            if i is None or n > limit:
                c = T.simplify(c)
                if c is False or r[0] == 'store' and idle(self.f, x, r[2][0], r[2][1]):
                    continue
                self.rows[r] = T.simplify(for_(self.rows.get(r, False), c))
                if c not in self.parts.setdefault(r, []):
                    self.parts[r].append(c)
                self.locs.setdefault(r, self.f.loc(x))
                d = self.f.depth(self.f.where[x['id']][0])
                self.dep.setdefault(r, set()).add(-1 - d if n and x.op == 'store' else d)  # one value of several
                at = self.at.setdefault(r, {})
                ls = self.f.lof[self.f.where[x['id']][0]]
                k = (d, ls[-1] if ls else -1)
                at[k] = for_(at.get(k, False), c)
                if x not in self.sites.setdefault(r, []):
                    self.sites[r].append(x)
            else:
                for g, v in h[0]:
                    g = fand(c, g)
                    if g is False:
                        continue
                    n += 1
                    todo.append(((r[0], r[1], r[2][:i] + (h[1](v),) + r[2][i + 1:]), g))

    def settle(self):
        """effects that differ in one argument and are told apart by comparing it"""
        g = {}
        for r in self.rows:
            for i in range(len(r[2])):
                g.setdefault((r[:2], i, r[2][:i], r[2][i + 1:]), []).append(r)
        for (_, i, _, _), rs in g.items():
            if not 1 < len(rs) <= 8 or any(r not in self.rows or len(self.conds(r)) > 1 for r in rs):
                continue
            m = {r[2][i]: self.rows[r] for r in rs}
            T.border(m)
            for r in rs:
                c = m.get(r[2][i], False)
                if c != self.rows[r]:
                    if c is False:
                        del self.rows[r], self.parts[r]
                    else:
                        self.rows[r], self.parts[r] = c, [c]

    def times(self, r):
        """how many times in a row the effect can happen, loops aside"""
        S = self.sites.get(r, [])
        if r[0] != 'call' or len(S) < 2 or len(S) > 8:
            return 1
        w = self.f.where
        S = sorted(S, key=lambda x: (self.f.rpon[w[x['id']][0]], w[x['id']][1]))
        n = []
        for i, x in enumerate(S):
            n.append(1 + max([n[j] for j in range(i) if self.f.forward(w[S[j]['id']], w[x['id']])], default=0))
        return max(n)

    def levels(self, r):
        """the condition loop by loop, where it happens in several"""
        a = self.at.get(r, {})
        return tuple(sorted(((d, T.simplify(c)) for (d, _), c in a.items()), key=lambda x: (x[0], T.key(x[1])))) if len(a) > 1 else ()

    def conds(self, r):
        """the condition; place by place where the alternatives together say nothing"""
        if self.rows[r] is True and True not in self.parts[r]:
            return self.parts[r]
        return [self.rows[r]]


def local_effect(f, x):
    """library call that only changes a local object of the function"""
    return bool(x['o']) and f.root(x['o'][0]) is not None


TEXT = re.compile(r'std::(__cxx11::)?(basic_string|basic_(o)?stringstream)\b')
MORE = set('append push_back operator= assign clear operator<< endl reserve insert erase resize swap pop_back'.split())


def complaints(f):
    """local texts that only go to diagnostic output"""
    if not hasattr(f, '_complaints'):
        cand = {x['id'] for x in f.insts() if x.op == 'alloca' and TEXT.search((x.aty or '').replace('class.', '').lstrip('%'))}
        while cand:
            bad = set()
            for a in cand:
                todo, seen = [a], set()
                while todo and a not in bad:
                    i = todo.pop()
                    for x in f.uses.get(i, []):
                        if x['id'] in seen:
                            continue
                        seen.add(x['id'])
                        if x.op in ('getelementptr', 'bitcast', 'phi', 'select', 'load', 'icmp', 'zext', 'sext', 'trunc'):
                            todo.append(x['id'])
                        elif x.op == 'call' and diag(f, x):
                            if x.ty:
                                todo.append(x['id'])
                        elif x.op == 'call' and x.cb and (is_std(x.cb) or x.cb in ('strlen',)):
                            r = f.root(x['o'][0]) if x['o'] else None
                            n = f.cname(x)
                            parts = x.cb.split('::')
                            made = len(parts) > 1 and (parts[-1] == parts[-2] or parts[-1].startswith('~'))
                            if r and r[0] in cand and (made or n in MORE or pure(f, x) or n in ('operator+',)):
                                if x.ty:
                                    todo.append(x['id'])
                            elif pure(f, x) and x.ty and x['o'] and x['o'][0] == ['i', i]:
                                todo.append(x['id'])
                            else:
                                bad.add(a)
                        else:
                            bad.add(a)
            if not bad:
                break
            cand -= bad
        f._complaints = cand
    return f._complaints


def complaint(f, x):
    r = f.root(x['o'][0]) if x['o'] else None
    return bool(r) and r[0] in complaints(f)


def overwritten(f, s, a, c):
    """reaching condition of a store without the paths on which the same place is stored again at once"""
    bs = f.where[s['id']][0]
    ty = s.tf or (s.tt or '?')
    for s2 in f._stores().get(ty, []):
        if s2 is s or not f.idominates(s, s2):
            continue
        b2 = f.where[s2['id']][0]
        if f.lof[b2] != f.lof[bs] or f.addr(s2) != a:
            continue
        if any(_observes(f, y, s, a, ty) and f._between(s, y, s2) for y in f.insts() if y is not s and y is not s2):
            continue
        c2 = f.reach.get(b2)
        if c2 is not None:
            c = fand(c, fnot(c2))
    return c


def idle(f, s, a, v):
    """store of what the place still holds: nothing comes between any look at it and the store"""
    if v not in (('ld', a), ('ld', a, "'")):
        return False
    k = a[2] if a[0] == 'fld' else s.tf or (s.tt or '?')
    for y in f.insts():
        if y.op == 'store' and y is not s:
            if (y.tf or (y.tt or '?')) not in (k, s.tt or '?'):
                continue
        elif not (y.op == 'call' and not f._quiet(y) and not diag(f, y)):
            continue
        if a[0] == 'fld' and y.op == 'call' and not f.prog.call_mods(f, y, a[2], a):
            continue
        for x in f.insts():
            if x.op == 'load' and not f.root(x['o'][0]) and f._may_precede(x, s) and a in f._addrs(x) and f._between(x, y, s):
                return False
    return True


def _observes(f, y, s, a, ty):
    if y.op == 'call':
        return not f._quiet(y) and not diag(f, y)
    if y.op == 'load' and (y.tf or (y.tt or '?')) == ty and f.addr(y) == a:
        return (f._forward(y, a) if a[0] == 'fld' else f._forward_el(y, a)) is None
    return False


def rows(f, want=None):
    """want(kind, name) -> bool selects the effects"""
    R = Rows(f)
    P = f.prog
    prints, acts = {}, set()
    for x in f.insts():
        b = f.where[x['id']][0]
        c = f.reach.get(b)
        if c is None:
            continue
        d = f.depth(b)
        if x.op == 'store':
            if f.root(x['o'][1]):
                continue
            a = f.addr(x)
            nm = a[2].split('.')[-1] if a[0] == 'fld' else '*'
            if want and not want('store', nm):
                continue
            R.put(('store', nm, (a, f.term(x['o'][0]))), overwritten(f, x, a, c), x)
        elif x.op == 'ret':
            if x['o'] and (not want or want('ret', '')):
                o = x['o'][0]
                if f._isbool(o) or (f.ret == 'i1'):
                    t = f.cond(o)
                    R.put(('ret', '', (('c', 1),)), fand(c, t), x)
                    R.put(('ret', '', (('c', 0),)), fand(c, fnot(t)), x)
                else:
                    R.put(('ret', '', (f.term(o),)), c, x)
        elif x.op == 'call':
            n = f.cname(x)
            tg = f.targets(x)
            if complaint(f, x):
                continue
            if n in ('operator=', 'clear', 'erase') and x['o'] and x['o'][0][0] == 'i' and f.text(x['o'][0][1]) is not None:
                continue
            if n == 'operator=' and x['o'] and x['o'][0][0] == 'i' and f.ins[x['o'][0][1]].op == 'alloca':
                d = f.definer(x['o'][0][1])
                if d and d[0] is x:
                    continue  # its value is the name of the object
            repo = any(t in P.raw for t in tg)
            if not repo and (x.cb or not x.tg):
                if 'allocator' in n:
                    continue
                if not library_effect(f, x):
                    R.lib.add(SAME.get(n, n))
                    continue
                R.lib.add(SAME.get(n, n))
            elif all(t in P.pure() for t in tg):
                continue
            elif all(P.basename(t).replace('[abi:cxx11]', '') in VALUES for t in tg):
                continue
            if diag(f, x):
                continue
            if x.cb and x.cb.startswith('llvm.mem'):
                rt = f.root(x['o'][0])
                if rt and f.tracked(rt[0]):
                    continue
            if (any(t in P.speaks() for t in tg) if repo else speaks(x, n)):
                acts.add(x['id'])
            if want and not want('call', n):
                continue
            t = f.term(['i', x['id']]) if x.ty else f._call(x)
            args = tuple(t[2:]) if t[0] in ('call',) else tuple(t[1:])
            nm = t[1] if t[0] == 'call' else n
            if args and args[-1] in (("'",), ("''",), ("'''",)):
                args = args[:-1]
            if tg and all(P.basename(t) == 'conf::Config::operator()' for t in tg):
                args = args[:-1]  # the text of the help is no behaviour
            if nm == 'check_malloc':
                args = args[:1]  # so is the text of a complaint
            if nm == 'fprintf' and len(args) > 1 and args[1][0] == 's':
                prints[x['id']] = (x, args, c)
                continue
            R.put(('call', nm, args), c, x)
    for x, args, c in joined(f, prints, acts):
        R.put(('call', 'fprintf', args), c, x)
    R.settle()
    return R


IO = re.compile(r'^(v?f?printf|f?put[cs]|putchar|f?write|fflush|fclose|fseek|rewind|fopen|freopen|setv?buf|close|open|flush|endl|operator<<|system|popen|pclose|dup2?|tmpfile|remove|rename)$')


def speaks(x, n):
    """may the call of a library function have to do with an output stream?"""
    return not x.cb or bool(IO.match(n)) or any(o[0] == '?' and o[1] != 'metadata' for o in x['o'])


def joined(f, prints, acts):
    """prints to one stream in a row, with no other effect between them, are one print"""
    if not prints:
        return
    live = lambda b: [s for s in f.succ[b] if s not in f.dead]
    nxt = {}
    for b in f.rpo:
        s = live(b)
        if len(f.succ[b]) == 1 and len(s) == 1 and [p for p in f.pred[s[0]] if p in f.rpon] == [b]:
            nxt[b] = s[0]
    into = set(nxt.values())
    for b in f.rpo:
        if b in into:
            continue
        cur = None
        while b is not None:
            for x in f.blocks[b]:
                if x.op != 'call':
                    continue
                p = prints.get(x['id'])
                if p and cur and cur[1][0] == p[1][0]:
                    cur = (cur[0], (cur[1][0], ('s', cur[1][1][1] + p[1][1][1])) + cur[1][2:] + p[1][2:], cur[2])
                elif p or x['id'] in acts:
                    if cur:
                        yield cur
                    cur = p
            b = nxt.get(b)
        if cur:
            yield cur


def goings(f):
    """per loop: nesting depth and when it goes on"""
    out = []
    for h in f.loops:
        t = f.expand(('hp', ('it', h), 0))
        if t[0] == 'ite':  # whether it is entered at all shows in its effects
            t = next((v for _, v in t[1] if v != ('c', 0)), t)
        out.append((len(f.lof[h]), t))
    return tuple(sorted(out, key=lambda x: (x[0], T.key(x[1]))))


def loop_sig(f):
    """per loop: nesting depth, exit in the header, number of exits, number of accumulated values"""
    s = []
    for h, L in f.loops.items():
        hx = any(t not in L for t in f.succ[h])
        ex = sum(1 for b in L for t in f.succ[b] if t not in L and t not in f.dead)
        acc = sum(1 for x in f.blocks[h] if x.op == 'phi' and f.expand(f.term(['i', x['id']]))[0] == 'mu')
        s.append((len(f.lof[h]), hx, ex, acc))
    return sorted(s)


def text(r, c):
    return '%s %s(%s)' % (r[0], r[1], ', '.join(pt(a) for a in r[2])), fmt(c)

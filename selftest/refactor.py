"""Random edits of /repo's sources that keep the behaviour: which of them does the analysis report?

  refactor.py N SEED [FILE...]    prints the edits something was said about
"""
import concurrent.futures as cf
import glob, os, random, re, sys
import mutate as M

BAD = re.compile(r'\b(return|break|continue|goto|case|default|template|static|va_start|va_end)\b|^\s*(#|//|/\*|\*)')
DECL = re.compile(r'^\s*(const |struct |unsigned |std::|typename |auto |int |long |float |double |char |bool |CT |KT |BOT |K |T |V |ICT |byte |size_t |indextype |FILE |Gram |[A-Z]\w*(::\w+|<[^>]*>)* [&*]?\w+( =|;|\())')
HEAD = re.compile(r'^(\s+)(for|while|if) \((.*)\) \{$')
STMT = re.compile(r'^(\s+)([\w\(\*&][^;{}]*);$')


def end(L, i):
    """last line of the block opened at the end of line i"""
    ind = re.match(r'\s*', L[i]).group()
    for j in range(i + 1, len(L)):
        if L[j].strip() and len(re.match(r'\s*', L[j]).group()) <= len(ind):
            return j if L[j].startswith(ind + '}') else None
    return None


def split3(s):
    """the three parts of a for header"""
    p, d, cur = [], 0, ''
    for ch in s:
        if ch in '([{':
            d += 1
        if ch in ')]}':
            d -= 1
        if ch == ';' and not d:
            p.append(cur)
            cur = ''
        else:
            cur += ch
    return p + [cur]


def edits(f, L):
    """(first line, last line, new lines)"""
    n = 0
    lam = f.endswith(('.cc', '.hh'))
    for i, l in enumerate(L):
        if len(re.match(r'\s*', l).group()) < 2 or '"' in l and '//' in l:
            continue
        m = HEAD.match(l)
        if m:
            ind, kw, c = m.groups()
            j = end(L, i)
            if j is None:
                continue
            body = L[i + 1:j]
            plain = L[j].strip() == '}'
            if lam and plain and not any(BAD.search(x) for x in [l] + body):
                yield i, j, [ind + '[&]() {'] + L[i:j + 1] + [ind + '}();'], 'lambda'
            if kw == 'if' and plain and ';' not in c:
                yield i, i, [ind + 'const bool cond_%d = %s;' % (i, c if re.fullmatch(r'[^,]*(==|!=|<|>|&&|\|\||!).*', c) else '!!(%s)' % c), ind + 'if (cond_%d) {' % i], 'bool'
                yield i, j, [ind + 'if (!(%s)) {' % c, ind + '} else {'] + body + [L[j]], 'else'
            if kw == 'if' and L[j].strip() == '} else {':
                k = end(L, j)
                if k is not None and L[k].strip() == '}':
                    yield i, k, [ind + 'if (!(%s)) {' % c] + L[j + 1:k] + [ind + '} else {'] + body + [ind + '}'], 'invert'
            if kw == 'while' and plain:
                yield i, i, [ind + 'for (;;) {', ind + '  if (!(%s))' % c, ind + '    break;'], 'while'
            if kw == 'for' and plain and c.count(';') >= 2 and not any(re.search(r'\bcontinue\b', x) for x in body):
                a, b, d = split3(c)
                yield i, j, [ind + '{', ind + a + ';', ind + 'while (%s) {' % (b.strip() or 'true')] + body + [ind + d + ';', ind + '}', ind + '}'], 'for'
                if b.strip():
                    yield i, j, [ind + '{', ind + a + ';', ind + 'if (%s) {' % b, ind + 'do {'] + body + [ind + d + ';', ind + '} while (%s);' % b, ind + '}', ind + '}'], 'do'
            continue
        m = STMT.match(l)
        p = next((x for x in reversed(L[:i]) if x.strip()), '')
        own = p.rstrip().endswith((';', '{', '}')) or p.strip().startswith('//')
        if m and own and l.count('(') == l.count(')'):
            ind, s = m.groups()
            r = re.match(r'return \(?(.+?)\)?$', s)
            if s.startswith('return ') and lam and s != 'return true' and s != 'return false' and 'NULL' not in s:
                yield i, i, [ind + '{', ind + 'auto &&result_ = ' + s[7:] + ';', ind + 'return result_;', ind + '}'], 'return'
            if BAD.search(l) or DECL.match(l):
                continue
            if lam:
                yield i, i, [ind + '[&]() { ' + s + '; }();'], 'lambda1'
            r = re.match(r'([\w\.\->\[\]]+) ([-+*])= (.*)$', s)
            if r:
                yield i, i, [ind + '%s = %s %s (%s);' % (r[1], r[1], r[2], r[3])], 'assign'
            r = re.match(r'([\w\.\->\[\]]+) = (.*)$', s)
            if r and lam and '=' not in r[2].replace('==', ''):
                yield i, i, [ind + '{', ind + 'const auto value_ = ' + r[2] + ';', ind + r[1] + ' = value_;', ind + '}'], 'value'


def one(m):
    f, (a, b, new, kind) = m
    L = open('/repo/' + f).read().split('\n')
    return kind, M.one((f, a, '\n'.join(new + [DEL] * (b - a)))), L[a:b + 1], new


DEL = '//@@'


if __name__ == '__main__':
    import build
    M.BASE = build.facts()
    tool = build.tool()
    build.tool = lambda: tool
    files = sys.argv[3:] or sorted(os.path.relpath(p, '/repo') for p in glob.glob('/repo/src/*.[ch][ch]') + glob.glob('/repo/src/*.c') + glob.glob('/repo/app/*.cc'))
    E = [(f, e) for f in files for e in edits(f, open('/repo/' + f).read().split('\n'))]
    random.Random(int(sys.argv[2])).shuffle(E)
    n = {}
    with cf.ProcessPoolExecutor(int(os.environ.get('J', '8'))) as ex:
        for fu in cf.as_completed([ex.submit(one, e) for e in E[:int(sys.argv[1])]]):
            kind, (m, old, res, msg), was, new = fu.result()
            k = res.split()[0]
            n[kind, k] = n.get((kind, k), 0) + 1
            if k in ('bad', 'error') or k == 'nocompile' and os.environ.get('NC'):
                print('%s %s %s:%d %s' % (res, kind, m[0], m[1] + 1, was[0].strip()), flush=True)
    print(len(E), {k: dict((a[0], v) for a, v in n.items() if a[1] == k) for k in {a[1] for a in n}})

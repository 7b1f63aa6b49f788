"""Random small faults in /repo's sources: which of them leave the analysis quiet?

  mutate.py N SEED [FILE...]    prints the mutants whose functions changed and that nothing was said about
"""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'engine'))
OPS = [(r'<=', ['<']), (r'>=', ['>']), (r'(?<![<\-])<(?![<=\w])', ['<=']), (r'(?<![>\-])>(?![>=])', ['>=']), (r'==', ['!=']), (r'!=', ['==']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'(?<![+\w])\+(?![+=])', ['-']), (r'(?<![-\w(])-(?![-=>])', ['+']),
       (r'\b1\b', ['2', '0']), (r'\b0\b', ['1']), (r'\b2\b', ['1', '3']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'\bi\b', ['i + 1', 'j']), (r'\bj\b', ['i']), (r'\+\+', ['--']), (r'(?<=\()!(?!=)', ['']), (r'\bcontinue;', [';']), (r'\bbreak;', [';']),
       (r'^\s+[\w\.\->\[\]\(\)]+\s*(?:[-+*/]?=)[^=;]*;$', ['  ;']), (r'^\s+[\w\.\->]+\([^;]*\);$', ['  ;']), (r'\*', ['/'])]


def mutants(n, seed, files):
    rnd = random.Random(seed)
    lines = []
    for f in files:
        L = open('/repo/' + f).read().split('\n')
        com = False
        for i, l in enumerate(L):
            if '/*' in l:
                com = '*/' not in l
                continue
            if com:
                com = '*/' not in l
                continue
            s = l.split('//')[0]
            if not s.strip() or s.startswith('#') or 'include' in s or 'template' in s or 'fprintf(stderr' in s or 'cerr' in s or 'assert' in s:
                continue
            lines.append((f, i, l))
    out = []
    while len(out) < n:
        f, i, l = rnd.choice(lines)
        c = [(m, r) for p, rs in OPS for m in re.finditer(p, l.split('//')[0]) for r in rs if '"' not in l[:m.start()] or l[:m.start()].count('"') % 2 == 0]
        if not c:
            continue
        m, r = rnd.choice(c)
        out.append((f, i, l[:m.start()] + r + l[m.end():]))
    return out


def strip(x):
    if isinstance(x, dict):
        return {k: sorted(v) if k in ('tg', 'tb') else strip(v) for k, v in x.items() if k not in ('ln', 'line', 'fl')}
    if isinstance(x, list):
        return [strip(y) for y in x]
    return x


def one(m):
    f, i, new = m
    d = tempfile.mkdtemp(prefix='vkmut')
    try:
        for s in ('src', 'app'):
            shutil.copytree('/repo/' + s, d + '/' + s)
        L = open(d + '/' + f).read().split('\n')
        old = L[i]
        L[i:i + 1 + new.count('\n//@@')] = [new.replace('\n//@@', '')]
        open(d + '/' + f, 'w').write('\n'.join(L))
        import build, refs, vk
        build.BUILD = os.path.join(d, 'b')
        os.makedirs(build.BUILD)
        try:
            p = build.facts(d)
        except build.Broken:
            return m, old, 'nocompile', []
        base = {x['name']: strip(x) for x in json.load(open(BASE))['functions']}
        now = json.load(open(p))['functions']
        ch = sorted({x['base'] for x in now if strip(x) != base.get(x['name'])})
        P = refs.program(d)
        ref = refs.load()
        res, msg = 'same' if not ch else 'quiet', []
        for b in ch:
            if b in ref:
                v, u, _ = refs.compare(P, b, ref[b], None, ref)
                if v:
                    return m, old, 'bad', [x[1] for x in v[:3]]
                if u:
                    res = 'undecided'
                    msg += u
        return m, old, res, msg or ch
    except Exception as e:
        return m, old if 'old' in locals() else '', 'error %r' % e, []
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    import build, glob
    BASE = build.facts()
    tool = build.tool()
    build.tool = lambda: tool
    files = sys.argv[3:] or sorted(os.path.relpath(p, '/repo') for p in glob.glob('/repo/src/*.[ch][ch]') + glob.glob('/repo/src/*.c') + glob.glob('/repo/app/*.cc'))
    n = {}
    with cf.ProcessPoolExecutor(8) as ex:
        for fu in cf.as_completed([ex.submit(one, m) for m in mutants(int(sys.argv[1]), int(sys.argv[2]), files)]):
            m, old, res, msg = fu.result()
            k = res.split()[0]
            n[k] = n.get(k, 0) + 1
            if k in ('quiet', 'undecided', 'error'):
                print('%s %s:%d\n   - %s\n   + %s\n   %s' % (res, m[0], m[1] + 1, old.strip(), m[2].strip(), ' | '.join(x[:160] for x in msg[:3])), flush=True)
            if os.environ.get('LOG'):
                print(sum(n.values()), m[0], m[1] + 1, m[2].strip(), k, flush=True)
    print(n)

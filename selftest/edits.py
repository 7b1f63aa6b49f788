"""Behaviour-preserving edits of /repo (selftest): apply a set to a scratch copy and compare.

  edits.py SET [-k]     apply the edits of SET (a file in this folder) to a copy of /repo, compile, compare
"""
import os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))


def parse(p):
    out = []
    f = None
    s = open(p).read()
    for m in re.finditer(r'^@@ ([^\n]*)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>\n', s, re.S | re.M):
        if m.group(1):
            f = m.group(1).strip()
        else:
            out.append((f, m.group(2), m.group(3)))
    return out


def apply(tree, edits):
    for f, a, b in edits:
        p = os.path.join(tree, f)
        s = open(p).read()
        if a not in s:
            sys.exit('no such text in %s:\n%s' % (f, a))
        open(p, 'w').write(s.replace(a, b, 1))


def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    for d in ('src', 'app'):
        shutil.copytree('/repo/' + d, dst + '/' + d)


if __name__ == '__main__':
    dst = tempfile.mkdtemp(prefix='vkref')
    try:
        copy(dst)
        for s in sys.argv[1:]:
            apply(dst, parse(os.path.join(HERE, s)))
        subprocess.run([sys.executable, os.path.join(HERE, '..', 'engine', 'refs.py'), 'cmp', dst])
    finally:
        shutil.rmtree(dst, ignore_errors=True)

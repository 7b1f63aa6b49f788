"""Build the extractor and the facts of /repo's current sources (cached by content)."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BUILD = os.path.join(VERIF, 'build')
CXX = '/usr/bin/clang++-18'
CC = '/usr/bin/clang-18'
LLVM = '/usr/lib/llvm-18'
CFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-Xclang', '-disable-lifetime-markers', '-g', '-fno-discard-value-names', '-DNDEBUG', '-w', '-fPIC',
          '-flto', '-fwhole-program-vtables', '-fvisibility=hidden', '-c', '-emit-llvm']


class Broken(Exception):
    pass


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isfile(p):
            h.update(p.encode() + b'\0')
            h.update(open(p, 'rb').read())
        else:
            h.update(p.encode())
    return h.hexdigest()[:20]


def tool():
    src = os.path.join(HERE, 'vkx.cc')
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, 'vkx-' + sha(src))
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I' + LLVM + '/include', src, '-o', tmp,
                            '-L' + LLVM + '/lib', '-lLLVM-18'], capture_output=True, text=True)
        if r.returncode:
            raise Broken('the extractor does not build:\n' + r.stderr[-2000:])
        os.replace(tmp, out)
    return out


def sources(repo):
    app = sorted(glob.glob(repo + '/app/*.cc'))
    src = sorted(glob.glob(repo + '/src/*.cc') + glob.glob(repo + '/src/*.c'))
    hdr = sorted(glob.glob(repo + '/src/*.h') + glob.glob(repo + '/src/*.hh') + glob.glob(repo + '/app/*.h*'))
    return app, src, hdr


def facts(repo='/repo', force=(), also=()):
    """path of the facts file for the repository's current working tree"""
    app, src, hdr = sources(repo)
    if len(app) < 9 or len(src) < 13:
        raise Broken('source files are missing: %d programs, %d units' % (len(app), len(src)))
    anchors = os.path.join(HERE, 'anchors.txt')
    t = tool()
    h = sha(t, anchors, repo, ' '.join(CFLAGS), ' '.join(force), '+' + ' '.join(also), *(app + src + hdr))
    out = os.path.join(BUILD, 'facts-%s.json' % h)
    if os.path.exists(out):
        return out
    tmp = tempfile.mkdtemp(prefix='bc', dir=BUILD)
    try:
        jobs = []
        args = []
        for f in app + src:
            isapp = f in app
            b = os.path.basename(f).rsplit('.', 1)[0]
            o = os.path.join(tmp, ('app_' if isapp else 'src_') + b + '.bc')
            std = ['-std=gnu11'] if f.endswith('.c') else ['-std=gnu++11']
            jobs.append((f, [CC if f.endswith('.c') else CXX] + CFLAGS + std + ['-I' + repo + '/src', f, '-o', o]))
            args.append((b + '=' + o) if isapp else o)
        run = []
        errs = []
        i = 0
        while i < len(jobs) or run:
            while i < len(jobs) and len(run) < 8:
                run.append((jobs[i][0], subprocess.Popen(jobs[i][1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
                i += 1
            f, p = run.pop(0)
            o = p.communicate()[0]
            if p.returncode:
                errs.append(f + ':\n' + o.decode(errors='replace')[-1500:])
        if errs:
            raise Broken('does not compile: ' + '\n'.join(errs))
        o = out + '.%d' % os.getpid()
        r = subprocess.run([t, repo, anchors, o] + ['-b' + x[1:] if x[0] == '=' else '-i' + x for x in force] + ['-a' + x for x in also] + args, capture_output=True, text=True)
        if r.returncode:
            raise Broken('extraction failed: ' + r.stderr[-2000:])
        os.replace(o, out)
        # keep the cache small
        old = sorted(glob.glob(BUILD + '/facts-*.json'), key=os.path.getmtime)
        for x in old[:-12]:
            os.remove(x)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


if __name__ == '__main__':
    print(tool())
    print(facts())

#!/usr/bin/env python3
"""Development aid (no registered check uses it): applies textual variants of /repo/src in a scratch
copy and runs checks against them.  variants.py FILE [name-pattern] ; FILE defines V = [(name, kind, props, file, [(old, new), ...])]
kind 'same' must stay quiet, kind 'bug' must be reported."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('FSTALIGN_DUMPCACHE', '/tmp/dumpcache')
os.makedirs(os.environ['FSTALIGN_DUMPCACHE'], exist_ok=True)


def run(v):
    name, kind, props, file, edits = v
    d = tempfile.mkdtemp(prefix='variant')
    try:
        shutil.copytree('/repo/src', d + '/src')
        os.symlink('/repo/third-party', d + '/third-party')
        fs = {}
        for e in edits:
            f = e[2] if len(e) > 2 else file
            p = d + '/src/' + f
            s = fs.get(p) or open(p).read()
            if s.count(e[0]) < 1:
                return name, kind, 'EDIT-FAILED %r' % e[0][:60]
            fs[p] = s.replace(e[0], e[1]) if len(e) > 3 else s.replace(e[0], e[1], 1)
        for p, s in fs.items():
            open(p, 'w').write(s)
        if os.environ.get('COMPILE', '1') == '1':
            for p in fs:
                if p.endswith('.cpp') and 'SynonymEngine' not in p:
                    r = subprocess.run(['g++', '-std=gnu++14' if p.endswith('PathHeap.cpp') else '-std=gnu++17', '-fsyntax-only', '-w', '-DNDEBUG', '-I/opt/vp/compat/include', '-I/repo/third-party/spdlog/include', '-I/repo/third-party/CLI11/include',
                                    '-I' + d + '/src', '-I' + HERE + '/stubs', '-I/repo/third-party', '-I/opt/vp/compat/openfst/include', '-isystem', '/usr/include/jsoncpp', p], capture_output=True, text=True)
                    if r.returncode:
                        return name, kind, 'COMPILE-FAILED ' + r.stderr[:500]
        out = []
        for pid in props.split():
            env = dict(os.environ, FSTALIGN_REPO=d, FSTALIGN_EVIDENCE=d + '/ev')
            r = subprocess.run(['python3', HERE + '/engine/check.py', pid], capture_output=True, text=True, env=env)
            ok = {'same': 0, 'bug': 1}[kind]
            lines = r.stdout.strip().split('\n')
            if r.returncode == ok:
                w = [l for l in lines if 'differs' in l or 'rule' in l][:1]
                out.append('%s ok %s' % (pid, w[0][:120] if w else ''))
            else:
                open('/tmp/variant.%s.%s.txt' % (re.sub(r'\W+', '_', name), pid), 'w').write(r.stdout + r.stderr)
                out.append('%s WRONG(%d) %s' % (pid, r.returncode, lines[0][:160]))
        return name, kind, ' | '.join(out)
    finally:
        shutil.rmtree(d)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    vs = [v for v in g['V'] if re.search(pat, v[0])]
    bad = 0
    with ThreadPoolExecutor(int(os.environ.get("JOBS","4"))) as ex:
        for name, kind, r in ex.map(run, vs):
            if 'WRONG' in r or 'FAILED' in r:
                bad += 1
            print('%-4s %-34s %s' % (kind, name, r[:300]))
    print('%d wrong of %d' % (bad, len(vs)))


main()

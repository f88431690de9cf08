#!/usr/bin/env python3
"""mkseed.py FILE [id...]: builds seeded/<id>/ from the table S of FILE and confirms each in scratch copies.
S = [dict(id, prop, edits=[(file, old, new)], demo=<C++ source or {'sh': ...}>, needs, breaks, srcs=[extra repo sources])]"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# builds the demonstration against /repo's current build and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=gnu++17 -w -O1 @F@ -I"$D" -I"$R/src" -I/opt/vp/compat/include -I"$R/third-party/spdlog/include" -I"$R/third-party/CLI11/include" -I"$R/third-party" \\
  -I/opt/vp/compat/openfst/include -isystem /usr/include/jsoncpp "$D/demo.cpp" @S@ "$R/_build/libfstaligner-common.a" \\
  -L/opt/vp/compat/openfst/lib -Wl,-rpath,/opt/vp/compat/openfst/lib -lfst -licuuc -licui18n -licuio -ljsoncpp -lfmt -lpthread -ldl -o "$W/demo" || exit 2
cd "$W" && timeout 200 ./demo > out.txt 2>&1
rc=$?
tail -c 2000 out.txt
exit $rc
'''


def sh(c, cwd, timeout=900):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def one(s):
    d = V + '/seeded/' + s['id']
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed.')
    try:
        r = w + '/repo'
        sh('cp -a /repo ' + r, '/')
        for f, a, b in s['edits']:
            t = open(r + '/' + f).read()
            if t.count(a) != 1:
                return s['id'], 'edit matches %d times: %s' % (t.count(a), a)
            open(r + '/' + f, 'w').write(t.replace(a, b))
        p = sh('git diff', r).stdout
        open(d + '/patch.diff', 'w').write(p)
        cli = isinstance(s['demo'], dict)
        if not cli:
            open(d + '/demo.cpp', 'w').write(s['demo'])
        for n, c in s.get('files', {}).items():
            os.makedirs(os.path.dirname(d + '/' + n), exist_ok=True)
            open(d + '/' + n, 'w').write(c)
        text = SH if not cli else SH.replace('"$D/demo.cpp"', '"$R/src/main.cpp" "$R/src/SynonymEngine.cpp"').replace('./demo > out.txt', 'bash ./demo.body "$W/demo" > out.txt').replace(
            'cd "$W" &&', "cat > \"$W/demo.body\" <<'END'\n" + 'F=$1; fail() { echo "FAILED: $*"; exit 1; }\n' + s['demo'].get('sh', '') + 'END\ncd "$W" &&')
        open(d + '/demo.sh', 'w').write(text.replace('@S@', ' '.join('"$R/%s"' % x for x in s.get('srcs', []))).replace('@F@', s.get('flags', '')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        # the copy is shown as /repo in a private mount namespace
        def inns(cmd, repo):
            return sh('unshare -Urm bash -c %s' % repr('mount --bind %s /repo && cd /repo && %s' % (repo, cmd)), w)
        b = inns('bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json' % w, r)
        if b.returncode:
            return s['id'], 'build/test failed: ' + (b.stdout + b.stderr)[-1500:]
        o = json.load(open(w + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))
        if o['failed'] or len(o['passed']) < 16:
            return s['id'], 'tests fail: %s' % o['failed']
        bad = inns('bash %s/demo.sh' % d, r)
        u = w + '/clean'
        sh('cp -a /repo ' + u, '/')
        b2 = inns('bash /opt/vp/build.sh', u)
        good = inns('bash %s/demo.sh' % d, u)
        res = 'ok' if good.returncode == 0 and bad.returncode not in (0, 2) else 'NOT CONFIRMED clean=%d bug=%d\n%s\n---\n%s' % (good.returncode, bad.returncode, (good.stdout + good.stderr)[-1500:], (bad.stdout + bad.stderr)[-1500:])
        return s['id'], res + '  ' + str(o)[:0]
    finally:
        shutil.rmtree(w, ignore_errors=True)


g = {}
exec(open(sys.argv[1]).read(), g)
S = [s for s in g['S'] if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
with ThreadPoolExecutor(4) as ex:
    for i, r in ex.map(one, S):
        print(i, r)

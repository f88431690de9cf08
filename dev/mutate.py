#!/usr/bin/env python3
"""Development aid (no registered check uses it): a mutation sweep over /repo/src.  Each mutant is a one-token change of a
function body or a default member initialiser; the checks whose evidence names the changed function are run against it.
mutate.py OUT.jsonl [file-pattern] [line-from line-to] ; env JOBS, SAMPLE=k (every k-th mutant), SEEDOFF"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('FSTALIGN_DUMPCACHE', '/tmp/dumpcache')
os.makedirs(os.environ['FSTALIGN_DUMPCACHE'], exist_ok=True)
sys.path.insert(0, HERE + '/engine')
import ir
SKIP = re.compile(r'logger|console|cout|cerr|^\s*//|#include|#define|^\s*using |printf\(|LOG|assert')


def mutants(line):
    out = []

    def sub(rx, rep, tag):
        for m in re.finditer(rx, line):
            r = m.expand(rep) if isinstance(rep, str) else rep(m)
            out.append((tag, line[:m.start()] + r + line[m.end():]))
    code = line
    sub(r'==', '!=', 'rel'), sub(r'!=', '==', 'rel')
    sub(r'(?<![<\w>])<(?=\s)(?!<)', '<=', 'rel'), sub(r'(?<=\s)>(?=\s)', '>=', 'rel'), sub(r'<=', '<', 'rel'), sub(r'(?<![-])>=', '>', 'rel')
    sub(r'&&', '||', 'log'), sub(r'\|\|', '&&', 'log')
    sub(r'(?<=[\s(])!(?=[\w(])', '', 'not')
    sub(r'\+\+', '--', 'inc'), sub(r'(?<=\w)--(?=[;) ])', '++', 'inc'), sub(r'\+=', '-=', 'inc'), sub(r'-=', '+=', 'inc')
    sub(r' \+ ', ' - ', 'arith'), sub(r' - ', ' + ', 'arith'), sub(r' \* ', ' + ', 'arith'), sub(r' / ', ' * ', 'arith')
    sub(r'(?<![\w."])(\d+)(?![\w."])', lambda m: str(int(m.group(1)) + 1), 'const')
    sub(r'\btrue\b', 'false', 'bool'), sub(r'\bfalse\b', 'true', 'bool')
    sub(r'"((?:[^"\\]|\\.)*)"', lambda m: '"' + m.group(1) + 'Q"', 'str')
    sub(r"'(\w)'", lambda m: "'Q'", 'chr')
    sub(r'\bif \((?!.*\{[^}]*$)(.*)\)', r'if (!(\1))', 'neg'), sub(r'\bif \((.*)\) \{$', r'if (!(\1)) {', 'neg')
    sub(r'\bcontinue;', ';', 'del'), sub(r'\bbreak;', ';', 'del'), sub(r'\bbreak;', 'continue;', 'swap'), sub(r'\bcontinue;', 'break;', 'swap')
    sub(r'(\w+)\((\w[\w.>\-]*), (\w[\w.>\-]*)\)', r'\1(\3, \2)', 'args')
    sub(r'\bauto &(?=\w+ [:=])', 'auto ', 'ref'), sub(r'\bmin\b', 'max', 'minmax'), sub(r'\bmax\b', 'min', 'minmax')
    sub(r'\bilabel\b', 'olabel', 'lab'), sub(r'\bolabel\b', 'ilabel', 'lab'), sub(r'insertions', 'deletions', 'lab'), sub(r'deletions', 'insertions', 'lab')
    if re.match(r'^\s+[\w.:\->\[\]()*]+(\s*[-+]?=\s|\.|->|\(|\+\+|--).*;\s*$', code) and not re.match(r'^\s*(return|break|continue|delete|throw|else)\b', code) \
            and not re.match(r'^\s*(const |auto |int |float |double |bool |string |std::|vector|map|set|pair|size_t|shared_ptr|long )', code):
        out.append(('del', re.match(r'^\s*', line).group(0) + ';'))
    return [(t, n) for t, n in out if n != line]


def main():
    outf = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    lo, hi = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (0, 10 ** 9)
    prog = ir.load_repo()
    prog = prog[0] if isinstance(prog, tuple) else prog
    cov, perfile, cost = {}, {}, {}
    for f in glob.glob(HERE + '/evidence/C*.json'):
        e = json.load(open(f))
        if e['property'] in ('C16', 'C17', 'C21', 'C25'):  # whole-program rules
            continue
        for q in e['coverage']['functions']:
            cov.setdefault(q.split('(')[0], set()).add(e['property'])
    fns = {}
    for k, f in prog.fns.items():
        if '/src/' in str(f.file) and f.body is not None:
            b = os.path.basename(str(f.file))
            fns.setdefault(b, []).append((f.line, f.q))
            for p in cov.get(f.q, ()):
                perfile.setdefault(b, set()).add(p)
    for b in fns:
        fns[b].sort()
    jobs = []
    for p in sorted(glob.glob('/repo/src/*.cpp') + glob.glob('/repo/src/*.h')):
        b = os.path.basename(p)
        if b in ('logging.cpp', 'logging.h', 'json_logging.h', 'version.h') or not re.search(pat, b):
            continue
        text = open(p).read().split('\n')
        comment = False
        for n, line in enumerate(text, 1):
            if '/*' in line:
                comment = True
            if comment:
                comment = '*/' not in line
                continue
            if n < lo or n > hi or SKIP.search(line):
                continue
            own = [q for l, q in fns.get(b, []) if l <= n]
            props = cov.get(own[-1], set()) if own else set()
            if b.endswith('.h') or not own:
                props = props | perfile.get(b, set()) | perfile.get(b.replace('.h', '.cpp'), set())
            for t, m in mutants(line):
                jobs.append((b, n, t, line, m, own[-1] if own else '', sorted(props)))
    k, off = int(os.environ.get('SAMPLE', '1')), int(os.environ.get('SEEDOFF', '0'))
    jobs = jobs[off::k]
    done = set()
    if os.path.exists(outf):
        done = {tuple(json.loads(l)['key']) for l in open(outf)}
    print(len(jobs), 'mutants,', len(done), 'done', flush=True)
    out = open(outf, 'a')

    def run(j):
        b, n, t, line, m, fn, props = j
        key = [b, n, m.strip()]
        if tuple(key) in done:
            return
        d = tempfile.mkdtemp(prefix='mut')
        try:
            os.mkdir(d + '/src')
            for f in glob.glob('/repo/src/*'):
                shutil.copy(f, d + '/src/')
            os.symlink('/repo/third-party', d + '/third-party')
            text = open(d + '/src/' + b).read().split('\n')
            text[n - 1] = m
            open(d + '/src/' + b, 'w').write('\n'.join(text))
            src = b if b.endswith('.cpp') else {'utilities.h': 'wer.cpp', 'wer.h': 'wer.cpp'}.get(b, b.replace('.h', '.cpp'))
            res, hit = 'survived', ''
            if os.path.exists(d + '/src/' + src):
                r = subprocess.run(['g++', '-std=gnu++14' if src == 'PathHeap.cpp' else '-std=gnu++17', '-fsyntax-only', '-w', '-DNDEBUG', '-I/opt/vp/compat/include', '-I/repo/third-party/spdlog/include',
                                    '-I/repo/third-party/CLI11/include', '-I' + d + '/src', '-I' + HERE + '/stubs', '-I/repo/third-party', '-I/opt/vp/compat/openfst/include', '-isystem', '/usr/include/jsoncpp', d + '/src/' + src], capture_output=True, text=True)
                if r.returncode:
                    res = 'nocompile'
            und = []
            if res == 'survived':
                if not props:
                    res = 'uncovered'
                for pid in props:
                    try:
                        r = subprocess.run(['python3', HERE + '/engine/check.py', pid], capture_output=True, text=True, timeout=900, env=dict(os.environ, FSTALIGN_REPO=d, FSTALIGN_EVIDENCE=d + '/ev'))
                        rc = r.returncode
                    except subprocess.TimeoutExpired:
                        rc = 99
                    if rc == 1:
                        res, hit = 'caught', pid
                        break
                    if rc:
                        und.append('%s:%d:%s' % (pid, rc, (r.stdout + r.stderr).strip().split('\n')[-1][:120]))
                if res == 'survived' and und:
                    res = 'undecided'
            out.write(json.dumps({'key': key, 'kind': t, 'line': line.strip(), 'fn': fn, 'props': props, 'res': res, 'hit': hit, 'und': und}) + '\n')
            out.flush()
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        list(ex.map(run, jobs))


main()

#!/usr/bin/env python3
"""Development aid (no registered check uses it): a sweep of mechanical edits that keep the behaviour.  Each is applied alone to a copy of
/repo/src; every check whose evidence names the changed function has to stay quiet.
refactor.py OUT.jsonl [file-pattern [kind-pattern]] ; env JOBS, SAMPLE=k (every k-th), SEEDOFF"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('FSTALIGN_DUMPCACHE', '/tmp/dumpcache')
os.makedirs(os.environ['FSTALIGN_DUMPCACHE'], exist_ok=True)
sys.path.insert(0, HERE + '/engine')
import ir
SKIP = re.compile(r'logger|console|cout|cerr|^\s*//|#include|#define|^\s*using |printf\(|LOG|assert')
OPD = r'[A-Za-z_][\w.:]*(?:->\w+|\[[\w.]+\]|\(\)|\.\w+)*'
NUM = r'-?\d+'
PRE, POST = r'(?:(?<=[(])|(?<=&& )|(?<=\|\| )|(?<=; )|(?<=return ))', r'(?=\)| &&| \|\||;| \?)'


def close(text, i):
    """index just behind the bracket that closes the one at i"""
    pairs, d, q = {'(': ')', '{': '}', '[': ']'}, 0, None
    while i < len(text):
        c = text[i]
        if q:
            if c == '\\':
                i += 1
            elif c == q:
                q = None
        elif c in '"\'':
            q = c
        elif text.startswith('//', i):
            i = text.index('\n', i)
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return None


def edits(text):
    """(kind, position, old length, new text)"""
    out = []

    def sub(kind, rx, rep, flags=re.M):
        for m in re.finditer(rx, text, flags):
            line = text[text.rfind('\n', 0, m.start()) + 1:text.find('\n', m.start())]
            if SKIP.search(line):
                continue
            r = rep(m) if callable(rep) else m.expand(rep)
            if r is not None:
                out.append((kind, m.start(), m.end() - m.start(), r))
    sub('preinc', r'(?<=[;(])\s?(\w[\w.\->]*)\+\+(?=[;)])', r'++\1')
    sub('plus1', r'^(\s+)(\w[\w.\->]*)(\+\+);', r'\1\2 += 1;')
    sub('addexp', r'^(\s+)(\w[\w.\->\[\]]*) ([-+])= ([^;\n]+);', r'\1\2 = \2 \3 (\4);')
    sub('eqswap', PRE + r'(%s) (==|!=) (%s|%s|"[^"]*")' % (OPD, OPD, NUM) + POST, r'\3 \2 \1')
    sub('neq', PRE + r'(%s) != (%s|%s|"[^"]*")' % (OPD, OPD, NUM) + POST, r'!(\1 == \2)')
    sub('lt', PRE + r'(%s) < (%s|%s)' % (OPD, OPD, NUM) + POST, r'\2 > \1')
    sub('ge', PRE + r'(%s) >= (%s|%s)' % (OPD, OPD, NUM) + POST, r'\2 <= \1')
    sub('emplace', r'\.push_back\(', '.emplace_back(')
    sub('empty', r'(?<=[ (!])(%s)\.empty\(\)' % OPD, r'(\1.size() == 0)')
    sub('empty0', r'(?<=[ (])(%s)\.size\(\) (==|>|!=) 0\b' % OPD, lambda m: ('' if m.group(2) == '==' else '!') + m.group(1) + '.empty()')
    sub('count', r'(%s)\.find\((%s)\) (==|!=) \1\.end\(\)' % (OPD, OPD), lambda m: '%s.count(%s) %s 0' % (m.group(1), m.group(2), m.group(3)))
    sub('declsplit', r'^(\s+)((?:std::)?(?:int|bool|float|double|string|size_t|StateId)) (\w+) = ([^;\n]+);', r'\1\2 \3;\n\1\3 = \4;')
    sub('retvar', r'^(\s+)return ([^;\n{]+);', lambda m: None if re.match(r'(\w+|\d+|"[^"]*")$', m.group(2)) else '%s{\n%s  const auto outcome_ = %s;\n%s  return outcome_;\n%s}' % (m.group(1), m.group(1)[1:] if 0 else m.group(1).lstrip('\n'), m.group(2), m.group(1).lstrip('\n'), m.group(1).lstrip('\n')))
    for m in re.finditer(r'^( +)(\} else )?if \(', text, re.M):
        e = close(text, m.end() - 1)
        if not e or not text.startswith(' {', e):
            continue
        c = text[m.end():e - 1]
        b = close(text, e + 1)
        if not b or '//' in c:
            continue
        els = text.startswith(' else', b)
        body = text[e + 1:b]
        if not m.group(2):
            out.append(('condvar', m.start(), e - m.start(), '%sconst bool holds_ = (%s);\n%sif (holds_)' % (m.group(1), c, m.group(1))))
            if not els:
                out.append(('notelse', m.start(), b - m.start(), '%sif (!(%s)) {\n%s} else %s' % (m.group(1), c, m.group(1), body)))
                t = re.split(r' && ', c)
                if len(t) == 2 and '||' not in c and all(x.count('(') == x.count(')') for x in t):
                    out.append(('nest', m.start(), b - m.start(), '%sif (%s) {\n%s  if (%s) %s\n%s}' % (m.group(1), t[0], m.group(1), t[1], body, m.group(1))))
        if els and text.startswith(' else {', b):
            b2 = close(text, b + 6)
            out.append(('invert', m.end() - 4, b2 - m.end() + 4, 'if (!(%s)) %s else %s' % (c, text[b + 6:b2], body)))
        if els and text.startswith(' else if (', b):
            # the whole chain behind the first else goes into a block
            p = b
            while p and text.startswith(' else', p):
                q = text.index('{', close(text, text.index('(', p)) if text.startswith(' else if', p) else p)
                p = close(text, q)
            out.append(('elseblock', b, p - b, ' else {\n%s  %s\n%s}' % (m.group(1), text[b + 6:p], m.group(1))))
    for m in re.finditer(r'^( +)for \(((?:const )?[\w:<>, ]+?) ?(&?) ?(\w+) : ([\w.\->]+)\) \{', text, re.M):
        e = close(text, m.end() - 1)
        ty, ref, x, c = m.group(2), m.group(3), m.group(4), m.group(5)
        ind = m.group(1)
        out.append(('iter', m.start(), m.end() - m.start(), '%sfor (auto it_ = std::begin(%s); it_ != std::end(%s); ++it_) {\n%s  %s %s%s = *it_;' % (ind, c, c, ind, ty, ref, x)))
        out.append(('index', m.start(), m.end() - m.start(), '%sfor (size_t at_ = 0; at_ < %s.size(); ++at_) {\n%s  %s %s%s = %s[at_];' % (ind, c, ind, ty, ref, x, c)))
        body = text[m.end():e - 1]
        if not re.search(r'\b(return|break|continue)\b', body):
            out.append(('lambda', m.start(), e - m.start(), '%sconst auto each_ = [&](%s %s%s) {%s};\n%sfor (%s %s%s : %s) each_(%s);' % (ind, ty, ref, x, body, ind, ty, ref, x, c, x)))
    for m in re.finditer(r'^( +)for \(([^;:()]*); ([^;]*); ([^;\n]*)\) \{', text, re.M):
        e = close(text, m.end() - 1)
        body = text[m.end():e - 1]
        if 'continue' in body or m.group(4).count('(') != m.group(4).count(')'):
            continue
        ind = m.group(1)
        out.append(('while', m.start(), e - m.start(), '%s{\n%s%s;\n%swhile (%s) {%s  %s;\n%s}\n%s}' % (ind, ind, m.group(2), ind, m.group(3) or 'true', body, m.group(4), ind, ind)))
    for m in re.finditer(r'^( +)while \(', text, re.M):
        e = close(text, m.end() - 1)
        if e and text.startswith(' {', e):
            c = text[m.end():e - 1]
            if '=' not in re.sub(r'[=!<>]=', '', c):
                out.append(('forever', m.start(), e + 2 - m.start(), '%swhile (true) {\n%s  if (!(%s)) break;' % (m.group(1), m.group(1), c)))
                out.append(('forloop', m.start(), e - m.start(), '%sfor (; %s;)' % (m.group(1), c)))
    # neighbours without a common name
    st = re.compile(r'^( +)([\w.\->:<>\[\] ]+ ?=? ?[^;\n(){}]*(?:\([^;\n(){}]*\))?[^;\n(){}]*;)\n\1(?! )([\w.\->:<>\[\] ]+ ?=? ?[^;\n(){}]*(?:\([^;\n(){}]*\))?[^;\n(){}]*;)$', re.M)
    kw = {'int', 'auto', 'const', 'std', 'string', 'bool', 'float', 'double', 'vector', 'size_t', 'map', 'true', 'false', 'push_back', 'size', 'first', 'second', 'begin', 'end'}
    for m in st.finditer(text):
        a, b = m.group(2), m.group(3)
        if re.search(r'\b(return|break|continue|throw|delete|if|for|else|case|using|typedef)\b|<<|>>', a + b) or SKIP.search(a + b) or not re.search(r'=|\.|->|\(', a) or not re.search(r'=|\.|->|\(', b):
            continue
        ia, ib = [set(re.findall(r'[A-Za-z_]\w*', re.sub(r'"[^"]*"', '', x))) - kw for x in (a, b)]
        if ia & ib:
            continue
        if re.search(r'\w\(', a) and re.search(r'\w\(', b):
            continue
        out.append(('swap', m.start(2), m.end(3) - m.start(2), b + '\n' + m.group(1) + a))
    return out


def main():
    outf = sys.argv[1]
    pat = sys.argv[2] if len(sys.argv) > 2 else ''
    kpat = sys.argv[3] if len(sys.argv) > 3 else ''
    prog = ir.load_repo()
    cov = {}
    for f in glob.glob(HERE + '/evidence/C*.json'):
        e = json.load(open(f))
        for q in e['coverage']['functions']:
            cov.setdefault(q.split('(')[0], set()).add(e['property'])
    avoid = set()
    for f in glob.glob('/tmp/ref[0-9]*.jsonl'):
        for l in open(f):
            x = json.loads(l)
            if x['res'] != 'quiet':
                avoid.add(tuple(x['key']))
    fns, perfile = {}, {}
    for f in prog.fns.values():
        if '/src/' in str(f.file) and f.body is not None:
            b = os.path.basename(str(f.file))
            fns.setdefault(b, []).append((f.line, f.q))
            perfile.setdefault(b, set()).update(cov.get(f.q, ()))
    jobs = []
    for p in sorted(glob.glob('/repo/src/*.cpp') + glob.glob('/repo/src/*.h')):
        b = os.path.basename(p)
        if b in ('logging.cpp', 'logging.h', 'json_logging.h', 'version.h') or not re.search(pat, b):
            continue
        text = open(p).read()
        for kind, pos, n, new in edits(text):
            if not re.search(kpat, kind):
                continue
            line = text.count('\n', 0, pos) + 1
            own = [q for l, q in sorted(fns.get(b, [])) if l <= line]
            props = set(cov.get(own[-1], ())) if own else set()
            if b.endswith('.h'):
                props |= perfile.get(b, set())
            if len(jobs) % 4:
                props -= {'C16', 'C17', 'C25'}  # the whole-program rules, for every fourth
            if props:
                jobs.append((b, line, kind, pos, n, new, own[-1] if own else '', sorted(props)))
    if os.environ.get('MIX'):
        # many edits at once: per file random sets that do not overlap
        import random
        rnd = random.Random(int(os.environ.get('SEEDOFF', '0')))
        mixed = []
        for b in sorted({j[0] for j in jobs}):
            js = [j for j in jobs if j[0] == b and (j[0], j[1], j[2], j[5]) not in avoid]
            for _ in range(int(os.environ['MIX'])):
                rnd.shuffle(js)
                pick, used = [], []
                for j in js[:200]:
                    if len(pick) < max(4, len(js) // 12) and all(j[3] + j[4] < s or j[3] > e for s, e in used):
                        pick.append(j)
                        used.append((j[3], j[3] + j[4]))
                if pick:
                    ps = set()
                    for j in pick:
                        ps |= cov.get(j[6], set()) | set(j[7])
                    mixed.append((b, 0, ' '.join(sorted(j[2] for j in pick)), None, None, sorted((j[3], j[4], j[5]) for j in pick), ' '.join(sorted({j[6] for j in pick})), sorted(ps)))
        jobs = mixed
    k, off = int(os.environ.get('SAMPLE', '1')), int(os.environ.get('SEEDOFF', '0'))
    jobs = jobs[off::k]
    done = set()
    if os.path.exists(outf):
        done = {tuple(json.loads(l)['key']) for l in open(outf)}
    print(len(jobs), 'edits', flush=True)
    out = open(outf, 'a')

    def run(j):
        b, line, kind, pos, n, new, fn, props = j
        key = [b, line, kind, new if isinstance(new, str) else json.dumps(new)]
        if tuple(key) in done:
            return
        d = tempfile.mkdtemp(prefix='refac')
        try:
            os.mkdir(d + '/src')
            for f in glob.glob('/repo/src/*'):
                shutil.copy(f, d + '/src/')
            os.symlink('/repo/third-party', d + '/third-party')
            text = open(d + '/src/' + b).read()
            if pos is None:
                t2 = text
                for p_, n_, w_ in reversed(new):
                    t2 = t2[:p_] + w_ + t2[p_ + n_:]
                pos, n = 0, 0
            else:
                t2 = text[:pos] + new + text[pos + n:]
            open(d + '/src/' + b, 'w').write(t2)
            src = b if b.endswith('.cpp') else {'utilities.h': 'wer.cpp', 'wer.h': 'wer.cpp'}.get(b, b.replace('.h', '.cpp'))
            r = subprocess.run(['g++', '-std=gnu++14' if src == 'PathHeap.cpp' else '-std=gnu++17', '-fsyntax-only', '-w', '-DNDEBUG', '-I/opt/vp/compat/include', '-I/repo/third-party/spdlog/include',
                                '-I/repo/third-party/CLI11/include', '-I' + d + '/src', '-I' + HERE + '/stubs', '-I/repo/third-party', '-I/opt/vp/compat/openfst/include', '-isystem', '/usr/include/jsoncpp', d + '/src/' + src], capture_output=True, text=True)
            if r.returncode:
                out.write(json.dumps({'key': key, 'fn': fn, 'old': text[pos:pos + n], 'res': 'nocompile'}) + '\n')
                return
            bad = []
            for pid in props:
                try:
                    r = subprocess.run(['python3', HERE + '/engine/check.py', pid], capture_output=True, text=True, timeout=900, env=dict(os.environ, FSTALIGN_REPO=d, FSTALIGN_EVIDENCE=d + '/ev'))
                    if r.returncode:
                        bad.append('%s:%d:%s' % (pid, r.returncode, r.stdout.strip().split('\n')[0][:200]))
                except subprocess.TimeoutExpired:
                    bad.append(pid + ':timeout')
            out.write(json.dumps({'key': key, 'fn': fn, 'old': text[pos:pos + n], 'res': 'bad' if bad else 'quiet', 'bad': bad, 'props': props}) + '\n')
            out.flush()
            if bad:
                print(b, line, kind, fn, bad, flush=True)
        finally:
            shutil.rmtree(d)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        list(ex.map(run, jobs))


if __name__ == '__main__':
    main()

"""Front end driver: dumps every translation unit of /repo/src with the libTooling
tool and indexes functions, records and globals."""
import glob
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FSTALIGN_REPO', '/repo')

FLAGS = ['-x', 'c++', '-std=gnu++17', '-O0', '-DNDEBUG', '-w', '-fno-access-control',
         '-I' + VERIF + '/stubs', '-I/opt/vp/compat/include',
         '-I' + REPO + '/third-party/spdlog/include', '-I' + REPO + '/third-party/CLI11/include',
         '-I' + REPO + '/src', '-I' + REPO + '/third-party', '-I/opt/vp/compat/openfst/include',
         '-isystem', '/usr/include/jsoncpp']


class FrontEndError(Exception):
    pass


def tool():
    p = VERIF + '/tool/build/astdump'
    r = subprocess.run(['bash', VERIF + '/tool/build.sh'], capture_output=True, text=True)
    if r.returncode or not os.path.exists(p):
        raise FrontEndError('cannot build the front end: ' + r.stderr[-2000:])
    return p


class Fn:
    def __init__(self, d):
        self.d = d
        self.key = d['key']
        self.q = d['q']
        self.name = d['n']
        self.params = d.get('p', [])
        self.cls = d.get('cls')
        self.body = d.get('body')
        self.file = d.get('file')
        self.line = d.get('l')

    def __repr__(self):
        return self.key


class Program:
    def __init__(self):
        self.fns = {}
        self.recs = {}
        self.globs = {}
        self.units = []

    def byq(self, q):
        return [f for f in self.fns.values() if f.q == q]


def dump(root, f):
    t = tool_path[0]
    if os.environ.get('FSTALIGN_DUMPCACHE'):  # set by the development aids only: many trees that share most of their files
        return f, cached(t, root, f)
    r = subprocess.run([t, root, f, '--'] + FLAGS, capture_output=True, text=True)
    return f, r


def cached(t, root, f):
    import hashlib
    h = hashlib.sha256(open(t, 'rb').read())
    h.update(repr([x.replace(REPO, '@R@') for x in FLAGS + [root, f]]).encode())
    for x in [f] + sorted(glob.glob(REPO + '/src/*.h')) + sorted(glob.glob(VERIF + '/specs/*.h')):
        h.update(open(x, 'rb').read())
    c = os.path.join(os.environ['FSTALIGN_DUMPCACHE'], h.hexdigest())
    if os.path.exists(c):
        rc, out, err = json.load(open(c))
        return subprocess.CompletedProcess([], rc, out.replace('@R@', REPO), err)
    r = subprocess.run([t, root, f, '--'] + FLAGS, capture_output=True, text=True)
    with open(c + '.%d' % os.getpid(), 'w') as o:
        json.dump([r.returncode, r.stdout.replace(REPO, '@R@'), r.stderr], o)
    os.rename(c + '.%d' % os.getpid(), c)
    return r


tool_path = [None]


def load(prog, root, files):
    tool_path[0] = tool()
    with ThreadPoolExecutor(8) as ex:
        for f, r in ex.map(lambda f: dump(root, f), files):
            ended = False
            out = r.stdout
            if '(anonymous namespace)::' in out:
                # a name local to one file is known by its plain name, unless two files use it for different things
                flat = out.replace('(anonymous namespace)::', '')
                mine = {json.loads(l)['key'] for l in out.split('\n') if '"kind":"fn"' in l and '"key":"(anonymous namespace)::' in l}
                if not any(x.replace('(anonymous namespace)::', '') in prog.fns for x in mine):
                    out = flat
            for line in out.split('\n'):
                if not line.strip():
                    continue
                d = json.loads(line)
                k = d['kind']
                if k == 'fn':
                    if d.get('body') is not None or d['key'] not in prog.fns:
                        if d['key'] in prog.fns and prog.fns[d['key']].body is not None:
                            continue
                        if d['n'] == 'main' and d.get('body') is not None and d['body']['k'] == 'block':
                            # falling off the end of main returns 0
                            d['body']['s'].append({'k': 'return', 'e': {'k': 'int', 'v': 0}, 'l': d.get('l')})
                        prog.fns[d['key']] = Fn(d)
                elif k == 'rec':
                    prog.recs.setdefault(d['q'], d)
                elif k == 'var':
                    if d['q'] not in prog.globs or d.get('init') is not None:
                        prog.globs[d['q']] = d
                elif k == 'end':
                    ended = True
            if r.returncode != 0 or not ended:
                raise FrontEndError('%s does not parse:\n%s' % (f, r.stderr[-3000:]))
            prog.units.append(f)


def walk(n):
    st = [n]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            yield n
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


def link(prog):
    """calls of the reference models to repository functions they declare themselves: meant is the function of that name
    and number of parameters, whatever its parameters' constness and reference kinds now are"""
    byname = {}
    for f in prog.fns.values():
        if f.body is not None and str(f.file).startswith(REPO + '/src'):
            byname.setdefault((f.q, len(f.params)), []).append(f)
    for g in list(prog.fns.values()):
        if g.body is None or not str(g.file).startswith(VERIF + '/specs'):
            continue
        for e in walk(g.d):
            if e.get('k') != 'call' or not e.get('fn') or e.get('m'):
                continue
            f = prog.fns.get(e['fn'])
            if f is not None and f.body is not None:
                continue
            c = byname.get((e['q'], len(e.get('pw', []))), [])
            if len(c) == 1:
                e['fn'] = c[0].key
                e['pw'] = [1 if p['t'].endswith('&') and not p['t'].endswith('&&') and not p['t'].startswith('const ') else
                           3 if p['t'].endswith('&') else 2 if p['t'].endswith('*') and not p['t'].startswith('const ') else 0 for p in c[0].params]


RENAMED = {}


def outline(prog):
    """names and types of the declarations of the repository"""
    o = {'fns': {}, 'recs': {}, 'globs': {}}
    for f in prog.fns.values():
        if f.body is not None and f.file and f.file.startswith(REPO + '/src'):
            o['fns'][f.key] = [f.q, f.cls or '', f.d.get('rt', ''), [x['t'] for x in f.params], os.path.basename(f.file), f.line]
    for r in prog.recs.values():
        if r.get('file', '').startswith(REPO + '/src'):
            o['recs'][r['q']] = [[x['n'], x['t']] for x in r['f']]
    for g in prog.globs.values():
        if g.get('file', '').startswith(REPO + '/src'):
            o['globs'][g['q']] = [g.get('t', '')]
    return o


def renames(now, base):
    """declarations known to the reference models that only changed their name: new name -> known name.
    A name counts as changed when the known one is gone and as many new ones have its type and place."""
    def short(q):
        return q.split('::')[-1]
    known = {short(v[0]) for v in base['fns'].values()} | {x[0] for v in base['recs'].values() for x in v} | {short(q) for q in list(base['recs']) + list(base['globs'])}
    m = {}

    def pair(gone, new, sig):
        for a in gone:
            xs = [b for b in new if sig(b) == sig(a)]
            ys = [b for b in gone if sig(b) == sig(a)]
            if len(xs) == len(ys):
                # several of one type: in the order of their declarations
                yield a, xs[ys.index(a)]
    recs = dict(now['recs'])
    gone = [q for q in base['recs'] if q not in recs]
    new = [q for q in recs if q not in base['recs']]
    both = dict(base['recs'], **{q: recs[q] for q in new})
    for a, b in pair(gone, new, lambda q: tuple(map(tuple, both[q]))):
        m[short(b)] = short(a)
        recs[a] = recs[b]
    for q, fs in base['recs'].items():
        ns = recs.get(q)
        if ns is None:
            continue
        have, had = {x[0] for x in ns}, {x[0] for x in fs}
        g = [(x[0], x[1], i) for i, x in enumerate(fs) if x[0] not in have]
        n = [(x[0], x[1], i) for i, x in enumerate(ns) if x[0] not in had]
        for sig in (lambda x: x[1:], lambda x: x[1]) if len(ns) == len(fs) else (lambda x: x[1],):
            for a, b in pair([x for x in g if x[0] not in m.values()], [x for x in n if x[0] not in m], sig):
                m[b[0]] = a[0]
    nowq, baseq = {v[0] for v in now['fns'].values()}, {v[0] for v in base['fns'].values()}
    g = [v for v in base['fns'].values() if v[0] not in nowq]
    n = [v for v in now['fns'].values() if v[0] not in baseq]
    for a, b in pair(sorted(g, key=lambda v: v[4:]), sorted(n, key=lambda v: v[4:]), lambda v: (v[1], v[2], tuple(v[3]))):
        m[short(b[0])] = short(a[0])
    g = [q for q in base['globs'] if q not in now['globs']]
    n = [q for q in now['globs'] if q not in base['globs']]
    t = dict(base['globs'], **{q: now['globs'][q] for q in n})
    for a, b in pair(g, n, lambda q: t[q]):
        m[short(b)] = short(a)
    return {b: a for b, a in m.items() if b not in known and b.isidentifier() and a.isidentifier()}


# members nothing but log messages reads
LOGONLY = {'dbg_count', 'numInsert', 'whereTo', 'pruningIncludeInsInThreshold', 'pruningErrorOffset'}


def fieldinits(prog):
    """default member initialisers of the records of the repository"""
    return {r['q']: {f['n']: f.get('init') for f in r['f'] if f['n'] not in LOGONLY} for r in prog.recs.values() if r.get('file', '').startswith(REPO + '/src')}


def pin(prog):
    """what the reference models take as default member initialisers"""
    for q, fs in json.load(open(VERIF + '/specs/fields.json')).items():
        for f in prog.recs.get(q, {'f': []})['f']:
            if f['n'] in fs:
                f['pin'] = fs[f['n']]
    return prog


def load_repo():
    prog = Program()
    files = sorted(glob.glob(REPO + '/src/*.cpp'))
    if not files:
        raise FrontEndError('no sources under %s/src' % REPO)
    load(prog, REPO, files)
    m = renames(outline(prog), json.load(open(VERIF + '/specs/outline.json')))
    if m:
        # read the sources again with the names the reference models use
        extra = ['-D%s=%s' % x for x in sorted(m.items())]
        FLAGS.extend(extra)
        try:
            prog2 = Program()
            load(prog2, REPO, files)
            RENAMED.update(m)
            return pin(prog2)
        except FrontEndError:
            del FLAGS[-len(extra):]
    return pin(prog)

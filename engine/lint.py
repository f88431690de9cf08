"""Rules over the type-checked syntax trees of everything the program can reach from main: where its result may come
from (C16) and which files it touches (C17)."""
import os
import re

import ir

SCALAR = re.compile(r'^(?:const )?(?:(?:un)?signed )?(?:int|long|long long|short|char|float|double|bool|unsigned|size_t)(?: int| long)?$|.*\*$|^(?:precision_t|recall_t)$')
CLOCKS = re.compile(r'^(std::|::)?(rand|srand|rand_r|random|srandom|drand48|lrand48|mrand48|time|clock|gettimeofday|clock_gettime|timespec_get|getpid|getppid|gethostname|'
                    r'getrandom|getentropy|arc4random\w*|tmpnam|mkstemp|mktemp|getenv|secure_getenv|random_shuffle|getlogin|getuid|times|getrusage)$'
                    r'|^std::random_device|^std::chrono::.*::now$|^std::this_thread::|^std::thread\b|^std::jthread\b|^std::async|^pthread_|^std::hash<[^>]*\*>')
FILEOPS = re.compile(r'^(std::|::)?(remove|rename|unlink|rmdir|mkdir|system|popen|execl|execv\w*|execlp|fork|truncate|ftruncate|chmod|chown|link|symlink|creat|chdir|freopen|utime|utimes)$'
                     r'|^std::(?:experimental::)?filesystem::(?:__cxx11::)?(?:remove|remove_all|rename|copy|copy_file|create_director\w*|resize_file|permissions|create_\w*link|current_path|last_write_time)$'
                     r'|^boost::filesystem::(?!exists|path)')


def walk(n):
    st = [n]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            yield n
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


def strip(e):
    """the value an expression denotes, without casts, copies and moves"""
    while isinstance(e, dict):
        if e.get('k') == 'cast':
            e = e['e']
        elif e.get('k') == 'ctor' and (e.get('copy') or e.get('move')) and e.get('a'):
            e = e['a'][0]
        elif e.get('k') == 'call' and e.get('q') in ('std::move', 'std::forward', 'std::ref', 'std::cref') and e.get('a'):
            e = e['a'][0]
        else:
            return e
    return e


def made(n):
    """the class of the object a make_shared or make_unique call creates"""
    if n.get('k') == 'call' and n.get('q') in ('std::make_shared', 'std::make_unique'):
        m = re.match(r'std::(?:shared|unique)_ptr<(.*?)(?:, std::default_delete<.*)?>$', n.get('t', ''))
        return m.group(1) if m else None
    return None


def logging(n):
    if n.get('k') not in ('call', 'ctor'):
        return False
    c = '%s %s' % (n.get('q', ''), n.get('clst', ''))
    return 'spdlog::' in c or n.get('q', '').startswith('logger::')


class Graph:
    """what main can reach: calls (virtual ones to every override), constructors, destructors of repository classes, functions named as values"""

    def __init__(self, prog, root='main'):
        self.prog = prog
        self.fns = {k: f for k, f in prog.fns.items() if f.body is not None and f.file and f.file.startswith(ir.REPO + '/src')}
        self.over = {}
        for f in self.fns.values():
            if f.cls:
                self.over.setdefault((f.name, len(f.params)), []).append(f)
        self.dtors = [f for f in self.fns.values() if f.cls and f.name.startswith('~')]
        self.reach = {}
        self.calls = {}
        work = [f for f in self.fns.values() if f.q == root]
        if not work:
            raise ir.FrontEndError('no %s' % root)
        work += self.dtors + [f for f in self.fns.values() if f.name.startswith('operator')]  # library code calls comparators and operators
        while work:
            f = work.pop()
            if f.key in self.reach:
                continue
            self.reach[f.key] = f
            for n in walk([f.d.get('body'), f.d.get('inits')]):
                for g in self.targets(n):
                    self.calls.setdefault(g.key, []).append((f, n))
                    work.append(g)

    def targets(self, n):
        k = n.get('k')
        if k in ('call', 'ctor') or k == 'ref' and n.get('fn'):
            out = []
            g = self.fns.get(n.get('fn'))
            if g is not None:
                out.append(g)
            if n.get('virt'):
                name = n['q'].split('::')[-1]
                out += [x for x in self.over.get((name, len(n.get('pw', []))), []) if x is not g]
            # make_shared<T>(...), make_unique<T>(...), emplace: constructors of T
            t = made(n)
            if t:
                out += [x for x in self.fns.values() if x.cls == t and x.d.get('ctor') and len(x.params) == len(n.get('a', []))]
            return out
        return []


def where(f, n):
    return '%s:%s' % (os.path.relpath(f.file, ir.REPO), n.get('l', f.line))


class Rules:
    def __init__(self, c, name):
        self.c = c
        self.g = Graph(c.prog)
        for k in self.g.reach:
            c.fnset.add(k)

    def obl(self, f, n, ok, site, what=None, detail=''):
        self.c.obls.append({'function': f.q, 'file': os.path.relpath(f.file, ir.REPO), 'line': n.get('l', f.line), 'observables': 1, 'loops': 0, 'site': site, 'ok': ok})
        if not ok:
            self.c.violation(what, where(f, n), detail)

    # ---------------------------------------------------------------- C16
    def sources(self):
        """no clock, random source, process or environment value reaches anything but the log"""
        self.c.rules.add('no value of a clock, random source, thread, process or environment variable is used outside the log (forward slice over locals and returns)')
        src = set()
        again = True
        found = {}
        while again:
            again = False
            for f in self.g.reach.values():
                r = self.slice(f, src)
                if r is None:
                    continue
                found[f.key] = r
                if r[1] and f.key not in src:
                    src.add(f.key)
                    again = True
        for f in self.g.reach.values():
            bad = found.get(f.key, ([], False))[0]
            self.obl(f, bad[0] if bad else {}, not bad, 'hidden sources',
                     '%s uses a value that is not determined by its inputs' % f.q, ', '.join(sorted({str(b.get('q') or b.get('n')) for b in bad})))

    def slice(self, f, src):
        def origin(n):
            return n.get('k') in ('call', 'ctor') and (CLOCKS.search(n.get('q', '')) or CLOCKS.search(n.get('clst', '') + '::') or n.get('fn') in src)
        body = [f.d.get('body'), f.d.get('inits')]
        if not any(origin(n) for n in walk(body)):
            return None
        taint = set()

        def dirty(n):
            st = [n]
            while st:
                x = st.pop()
                if isinstance(x, dict):
                    if logging(x):
                        continue
                    if origin(x) or x.get('k') == 'ref' and x.get('id') in taint and x.get('vk') in ('local', 'param'):
                        return x
                    st.extend(x.values())
                elif isinstance(x, list):
                    st.extend(x)
            return None
        size = -1
        while size != len(taint):
            size = len(taint)
            for n in walk(body):
                if n.get('k') == 'decl':
                    for v in n['v']:
                        if v.get('init') is not None and dirty(v['init']):
                            taint.add(v['id'])
                a = strip(n.get('a')) if n.get('k') == 'asg' else None
                if a and a.get('k') == 'ref' and a.get('vk') == 'local' and dirty(n['b']):
                    taint.add(a['id'])
        bad, ret = [], False

        def stmt(s):
            nonlocal ret
            if isinstance(s, list):
                for x in s:
                    stmt(x)
                return
            if not isinstance(s, dict):
                return
            k = s.get('k')
            if k == 'decl':
                return
            if k == 'expr':
                e = s['e']
                if logging(e):
                    return
                if e.get('k') == 'asg':
                    a = strip(e['a'])
                    if a.get('k') == 'ref' and a.get('vk') == 'local':
                        return
                d = dirty(e)
                if d:
                    bad.append(d)
                return
            if k == 'return':
                if s.get('e') is not None and dirty(s['e']):
                    if f.q == 'main':
                        bad.append(dirty(s['e']))
                    ret = True
                return
            for kk, v in s.items():
                if kk in ('c', 'e', 'r', 'inc'):
                    d = dirty(v)
                    if d:
                        bad.append(d)
                elif isinstance(v, (dict, list)):
                    stmt(v)
        stmt(f.d.get('body'))
        for i in f.d.get('inits') or []:
            d = dirty(i)
            if d:
                bad.append(d)
        return bad, ret

    def statics(self):
        """no variable that outlives a call changes what a later call computes"""
        self.c.rules.add('no variable that outlives a call is changed, except the loggers and the JSON report; static locals are not initialised from arguments')
        free = ('spdlog::', 'jsonLogger::JsonLogger')
        for f in self.g.reach.values():
            stat = {}
            for n in walk(f.d.get('body')):
                if n.get('k') == 'decl':
                    for v in n['v']:
                        if v.get('static'):
                            stat[v['id']] = (v, n)
            if f.q.startswith('logger::'):
                continue
            for v, n in stat.values():
                if any(x in v['t'] for x in free):
                    self.obl(f, n, True, 'static ' + v['n'])
                    continue
                dep = [x for x in walk(v.get('init')) if x.get('k') == 'this' or x.get('k') == 'ref' and x.get('vk') in ('local', 'param') and x.get('id') not in stat
                       and not self.inlambda(v.get('init'), x)]
                wr = self.writes(f, lambda r: r.get('k') == 'ref' and r.get('id') == v['id'] and r.get('vk') == 'local')
                self.obl(f, n, not dep and not wr, 'static ' + v['n'], 'static variable %s of %s carries a value from one call to the next' % (v['n'], f.q),
                         'initialised from %s' % dep[0].get('n', 'this') if dep else 'changed at line %s' % wr[0].get('l') if wr else '')
        for q, gl in sorted(self.c.prog.globs.items()):
            if not str(gl.get('file', '')).startswith(ir.REPO + '/src') or any(x in gl.get('t', '') for x in free):
                continue
            bad = None
            if not gl.get('const'):
                for f in self.g.reach.values():
                    wr = [] if f.q.startswith('logger::') else self.writes(f, lambda r: r.get('k') == 'ref' and r.get('q') == q)
                    if wr:
                        bad = (f, wr[0])
                        break
            f = bad[0] if bad else next(iter(self.g.reach.values()))
            self.obl(f, bad[1] if bad else {'l': gl.get('l')}, bad is None, 'global ' + q, 'global variable %s is changed during a run' % q, 'by %s' % (bad[0].q if bad else ''))

    @staticmethod
    def inlambda(root, x):
        for n in walk(root):
            if n.get('k') == 'lambda':
                if any(y is x for y in walk(n.get('body'))):
                    own = {p['id'] for p in n.get('p', [])} | {v['id'] for d in walk(n['body']) if d.get('k') == 'decl' for v in d['v']} | {d['v']['id'] for d in walk(n['body']) if d.get('k') == 'rfor' and isinstance(d.get('v'), dict) and 'id' in d['v']}
                    return x.get('id') in own
        return False

    @staticmethod
    def root(e):
        e = strip(e)
        while isinstance(e, dict):
            k = e.get('k')
            if k == 'mem':
                e = strip(e['b'])
            elif k == 'idx':
                e = strip(e['a'])
            elif k == 'un' and e.get('op') in ('*', '&'):
                e = strip(e['e'])
            elif k == 'call' and (e.get('op') in ('[]', '*', '->') or e.get('lv')) and e.get('m') and e.get('a'):
                e = strip(e['a'][0])
            else:
                return e
        return {}

    def writes(self, f, pred):
        out = []
        for n in walk([f.d.get('body'), f.d.get('inits')]):
            k = n.get('k')
            if k == 'asg' and pred(self.root(n['a'])):
                out.append(n)
            elif k == 'un' and n.get('op') in ('++', '--') and pred(self.root(n['e'])):
                out.append(n)
            elif k in ('call', 'ctor') and not logging(n):
                a = n.get('a', [])
                pw = n.get('pw', [])
                off = 0
                if k == 'call' and n.get('m') and not n.get('static'):
                    off = 1
                    if a and not n.get('const') and pred(self.root(a[0])) and n.get('q', '').split('::')[-1] not in ('begin', 'end', 'rbegin', 'rend', 'find', 'at', 'operator[]', 'front', 'back', 'data', 'c_str', 'operator*', 'operator->'):
                        out.append(n)
                    if a and n.get('q', '').endswith('operator[]') and 'map<' in n.get('clst', '') and pred(self.root(a[0])):
                        out.append(n)
                for i, w in enumerate(pw):
                    if w in (1, 2) and i + off < len(a) and pred(self.root(a[i + off])):
                        out.append(n)
        return out

    def order(self):
        """no container is ordered by addresses"""
        self.c.rules.add('no ordered container or sort compares pointers')

        def first(t):
            d, i = 0, t.index('<') + 1
            args, cur = [], ''
            for ch in t[i:]:
                if ch == '<' or ch == '(':
                    d += 1
                if ch == '>' or ch == ')':
                    if d == 0:
                        break
                    d -= 1
                if ch == ',' and d == 0:
                    args.append(cur.strip())
                    cur = ''
                else:
                    cur += ch
            return args + [cur.strip()]

        def pointer(t):
            return t.endswith('*') or re.match(r'(const )?std::(shared_ptr|unique_ptr|weak_ptr)<', t)

        def address(e):
            e = strip(e)
            return e.get('k') == 'un' and e.get('op') == '&' or e.get('k') == 'call' and re.match(r'std::(__)?(shared|unique)_ptr.*::get$', e.get('q', '')) or e.get('k') == 'this'

        def bad(t):
            for m in re.finditer(r'std::(?:multi)?(set|map|priority_queue)<', t):
                try:
                    a = first(t[m.start():])
                except ValueError:
                    continue
                if pointer(a[0]) and (len(a) <= (2 if m.group(1) != 'set' else 1) or any('std::less<' in x for x in a[1:])):
                    return True
            return False
        seen = 0
        for f in self.g.reach.values():
            hit = None
            for n in walk([f.d.get('body'), f.d.get('inits')]):
                if n.get('k') == 'decl':
                    for v in n['v']:
                        if bad(v.get('t', '')):
                            hit = n
                elif n.get('k') == 'call' and n.get('q') in ('std::sort', 'std::stable_sort', 'std::partial_sort', 'std::nth_element', 'std::max_element', 'std::min_element') and len(n['a']) == 2:
                    m = re.search(r'__normal_iterator<([^,]*)\*', n.get('fn', ''))
                    if m and pointer(m.group(1).strip()):
                        hit = n
                elif n.get('k') == 'bin' and n.get('op') in ('<', '>', '<=', '>=') and any(address(x) for x in (n['a'], n['b'])):
                    hit = n
                elif n.get('k') == 'call' and (n.get('op') in ('<', '>', '<=', '>=') or n.get('q', '').endswith('::owner_before')) and any(
                        re.search(r'std::(shared|unique|weak)_ptr<', str(x.get('t') or x.get('ty') or x.get('clst'))) or address(x) for x in n['a'] if isinstance(x, dict)) and n.get('q', '').startswith('std::'):
                    hit = n
                elif n.get('k') == 'cast' and n.get('ck') == 'bit' and str(n.get('from', '')).endswith('*') and not n['t'].endswith('*') and not n['t'].endswith('&'):
                    hit = n
            self.obl(f, hit or {}, hit is None, 'order', '%s orders values by their addresses' % f.q, '')
        for q, r in self.c.prog.recs.items():
            for x in r.get('f', []):
                if bad(x['t']):
                    f = next(iter(self.g.reach.values()))
                    self.obl(f, {}, False, 'order', 'member %s of %s is ordered by addresses' % (x['n'], q), x['t'])

    def initialised(self):
        """every scalar local and member has a value before it is read"""
        self.c.rules.add('definite assignment: every scalar local, member of a local record and member of a constructed object has a value before it is read')
        self.fieldreads = {}
        sets = set()
        for f in self.g.fns.values():
            for i in f.d.get('inits') or []:
                if i.get('f') and i.get('e') is not None:
                    sets.add((f.cls, i['f']))
            for n in walk(f.body):
                if n.get('k') == 'asg' and n.get('op') == '=' and strip(n['a']).get('k') == 'mem':
                    a = strip(n['a'])
                    sets.add((a.get('own'), a['f']))
                elif n.get('k') in ('call', 'ctor'):
                    off = 1 if n.get('m') and not n.get('static') else 0
                    for j, w in enumerate(n.get('pw', [])):
                        x = strip(n['a'][j + off]) if j + off < len(n.get('a', [])) else {}
                        if w in (1, 2) and x.get('k') == 'mem':
                            sets.add((x.get('own'), x['f']))
        for f in self.g.reach.values():
            lhs = {id(n['a']) for n in walk([f.d.get('body'), f.d.get('inits')]) if n.get('k') == 'asg' and n.get('op') == '='}
            for n in walk([f.d.get('body'), f.d.get('inits')]):
                if n.get('k') == 'mem' and id(n) not in lhs:
                    self.fieldreads.setdefault((n.get('own'), n['f']), []).append((f, n))
        for f in self.g.reach.values():
            d = Definite(self, f)
            d.run()
            if f.d.get('ctor') and f.cls and not d.bad:
                for x in nofields(self, f.cls):
                    if (f.cls, x) not in sets and not (f.d.get('copy') or f.d.get('move')):
                        d.bad.append(('member %s (never assigned; read by %s)' % (x, self.fieldreads[(f.cls, x)][0][0].q), {'l': f.line}))
            self.obl(f, d.bad[0][1] if d.bad else {}, not d.bad, 'definite assignment', '%s reads %s before it has a value' % (f.q, d.bad[0][0] if d.bad else ''), '')


def nofields(rules, t):
    """scalar members of a record that default-initialisation leaves without a value (with their read sites in reach)"""
    r = rules.c.prog.recs.get(t)
    if r is None:
        return []
    return [x['n'] for x in r['f'] if 'init' not in x and SCALAR.match(x['t']) and rules.fieldreads.get((t, x['n']))]


class Definite:
    """definite assignment over the structured syntax tree; a state is the set of variables without a value, None after a jump"""

    def __init__(self, rules, f):
        self.rules, self.f = rules, f
        self.bad = []
        self.names = {}
        self.guards = []
        self.bodies = 0
        self.loops = []
        self.assigns = {}
        self.given = set()
        self.arrays = set()

    def run(self):
        f = self.f
        st = frozenset()
        if f.d.get('ctor') and f.cls:
            r = self.rules.c.prog.recs.get(f.cls)
            mine = set()
            if r is not None:
                mine = {('this', x) for x in nofields(self.rules, f.cls)}
            for i in f.d.get('inits') or []:
                st = self.expr(i.get('e'), st)
                if i.get('f'):
                    mine.discard(('this', i['f']))
                if not i.get('f') and i.get('base') == f.cls:
                    mine = set()
            st = st | mine
            for k in mine:
                self.names[k] = 'member ' + k[1]
        # correlated assignments: condition variables set in the block that sets a variable
        for n in walk(f.body):
            if n.get('k') == 'block':
                ids = set()
                for s in n['s']:
                    if s.get('k') == 'expr' and s['e'].get('k') == 'asg':
                        a = strip(s['e']['a'])
                        if a.get('k') == 'ref':
                            ids.add(a.get('id'))
                for i in ids:
                    self.assigns.setdefault(i, set()).update(ids)
        self.stmt(f.body, st)

    def use(self, key, n, st):
        if st is not None and key in st and key not in self.given:
            g = set()
            for c in self.guards:
                g |= {x.get('id') for x in walk(c) if x.get('k') == 'ref'}
            if g & (self.assigns.get(key, set()) - {key}):
                return st  # guarded by a flag that is set together with it
            self.bad.append((self.names.get(key, str(key)), n))
            return st - {key}
        return st

    def lval(self, e):
        e = strip(e)
        if e.get('k') == 'ref' and e.get('vk') == 'local':
            return e['id']
        if e.get('k') == 'mem':
            b = strip(e['b'])
            if b.get('k') == 'this':
                return ('this', e['f'])
            if b.get('k') == 'ref' and b.get('vk') == 'local':
                return (b['id'], e['f'])
        if e.get('k') == 'idx':
            b = strip(e['a'])
            if b.get('k') == 'ref' and b.get('vk') == 'local':
                return b['id']
        return None

    def gives(self, st, key):
        return st if st is None else st - {key}

    def expr(self, e, st, write=False):
        if st is None or e is None:
            return st
        if isinstance(e, list):
            for x in e:
                st = self.expr(x, st)
            return st
        if not isinstance(e, dict):
            return st
        k = e.get('k')
        if k == 'asg':
            st = self.expr(e['b'], st)
            key = self.lval(e['a'])
            if e.get('op') != '=':
                st = self.expr(e['a'], st)
            if key is not None:
                if strip(e['a']).get('k') == 'idx':
                    st = self.expr(strip(e['a'])['b'], st)
                    self.given.add(key)
                return self.gives(st, key)
            return self.expr(e['a'], st)
        if k == 'ref':
            if e.get('vk') in ('local',):
                st = self.use(e['id'], e, st)
                if st:
                    whole = [x for x in st if isinstance(x, tuple) and x[0] == e['id']]
                    for x in whole:
                        st = self.use(x, e, st)
            return st
        if k == 'mem':
            b = strip(e['b'])
            key = self.lval(e)
            if key is not None:
                st = self.use(key, e, st)
                if b.get('k') in ('this', 'ref'):
                    return st
            return self.expr(e['b'], st)
        if k == 'un' and e.get('op') == '&':
            key = self.lval(e['e'])
            if key is not None:
                return self.clear(st, key)
            return self.expr(e['e'], st)
        if k == 'bin' and e.get('op') in ('&&', '||'):
            st = self.expr(e['a'], st)
            self.expr(e['b'], st)
            return st
        if k == 'cond':
            st = self.expr(e['c'], st)
            a, b = self.expr(e['a'], st), self.expr(e['b'], st)
            return self.join(a, b)
        if k in ('call', 'ctor'):
            a, pw = e.get('a', []), e.get('pw', [])
            off = 1 if k == 'call' and e.get('m') and not e.get('static') else 0
            outs = []
            for i, x in enumerate(a):
                w = 0
                if i >= off and i - off < len(pw):
                    w = pw[i - off]
                key = self.lval(x)
                if key is not None and (w in (1, 2) or (i == 0 and off)):
                    outs.append((key, i))
                    b = strip(x)
                    continue
                if strip(x).get('k') == 'this':
                    continue
                y = strip(x)
                if y.get('k') == 'ref' and y.get('id') in self.arrays:
                    self.given.add(y['id'])
                    continue
                st = self.expr(x, st)
            g = self.rules.g.fns.get(e.get('fn'))
            for key, i in outs:
                if key in self.arrays:
                    self.given.add(key)
                st = self.clear(st, key, g, i - off)
            if off and a and strip(a[0]).get('k') == 'this' and st:
                # a member function of this object may set its members
                if g is not None:
                    for n in walk(g.body):
                        if n.get('k') == 'asg' and n.get('op') == '=':
                            b = strip(n['a'])
                            if b.get('k') == 'mem' and strip(b['b']).get('k') == 'this':
                                st = self.gives(st, ('this', b['f']))
            return st
        if k == 'lambda':
            caps = {x.get('id') for x in walk(e.get('body')) if x.get('k') == 'ref'}
            return frozenset(x for x in st if x not in caps and not (isinstance(x, tuple) and x[0] in caps))
        for kk in sorted(e):
            if isinstance(e[kk], (dict, list)):
                st = self.expr(e[kk], st)
        return st

    def clear(self, st, key, g=None, i=None):
        if st is None:
            return st
        if g is not None and (i < 0 or i < len(g.params)):
            # a known function gives values only to the members it assigns (or passes on)
            pid = None if i < 0 else g.params[i]['id']

            def own(b):
                b = strip(b)
                return b.get('k') == 'this' if pid is None else b.get('k') == 'ref' and b.get('id') == pid
            sets, out = set(), False
            for n in walk(g.body):
                if n.get('k') == 'asg' and n.get('op') == '=':
                    a = strip(n['a'])
                    if a.get('k') == 'mem' and own(a['b']):
                        sets.add(a['f'])
                    elif own(a):
                        out = True
                elif n.get('k') in ('call', 'ctor') and any(own(x) for x in n.get('a', [])) and not n.get('const'):
                    out = True
            if not out:
                return frozenset(x for x in st if x != key and not (isinstance(x, tuple) and x[0] == key and x[1] in sets))
        return frozenset(x for x in st if x != key and not (isinstance(x, tuple) and x[0] == key))

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, s, st):
        if s is None:
            return st
        if isinstance(s, list):
            for x in s:
                st = self.stmt(x, st)
            return st
        k = s.get('k')
        if st is None and k not in ('case', 'default', 'block'):
            return None
        if k == 'block':
            return self.stmt(s['s'], st)
        if k == 'decl':
            for v in s['v']:
                i = v.get('init')
                if i is None:
                    if not v.get('static') and (SCALAR.match(v['t']) or re.match(r'^(int|float|double|bool|char|long|size_t|unsigned.*)\[', v['t'])) and st is not None:
                        st = st | {v['id']}
                        self.names[v['id']] = v['n']
                        if v['t'].endswith(']'):
                            self.arrays.add(v['id'])
                else:
                    st = self.expr(i, st)
                    if i.get('k') == 'ctor' and i.get('dflt') and not i.get('zero') and not i.get('list') and st is not None:
                        t = i.get('clst')
                        g = self.rules.g.fns.get(i.get('fn'))
                        if g is None:
                            for x in nofields(self.rules, t):
                                st = st | {(v['id'], x)}
                                self.names[(v['id'], x)] = '%s.%s' % (v['n'], x)
            return st
        if k == 'expr':
            return self.expr(s['e'], st)
        if k == 'return':
            st = self.expr(s.get('e'), st)
            return None
        if k == 'throw':
            self.expr(s.get('e'), st)
            return None
        if k in ('break', 'continue'):
            if self.loops and k == 'break':
                self.loops[-1].append(st)
            return None
        if k == 'if':
            st = self.stmt(s.get('init'), st) if isinstance(s.get('init'), dict) else st
            st = self.expr(s['c'], st) if s['c'].get('k') != 'decl' else self.stmt(s['c'], st)
            self.guards.append(s['c'])
            a = self.stmt(s.get('a'), st)
            b = self.stmt(s.get('b'), st)
            self.guards.pop()
            return self.join(a, b)
        if k in ('while', 'for', 'rfor', 'do'):
            if k == 'for':
                st = self.stmt(s.get('init'), st)
            if k == 'rfor':
                st = self.expr(s.get('r'), st)
            if s.get('c') is not None and k != 'do':
                st = self.expr(s['c'], st)
            self.loops.append([])
            if s.get('c') is not None:
                self.guards.append(s['c'])
            out = self.stmt(s.get('s'), st)
            if s.get('c') is not None:
                self.guards.pop()
            if k == 'for':
                self.expr(s.get('inc'), out)
            br = self.loops.pop()
            c = s.get('c')
            forever = c is None and k == 'for' or isinstance(c, dict) and strip(c).get('k') == 'bool' and strip(c).get('v') is True
            if k == 'do':
                st = self.expr(c, out)
            if forever and k != 'rfor':
                st = None
            for b in br:
                st = self.join(st, b)
            return st
        if k == 'switch':
            st = self.expr(s['c'], st)
            self.loops.append([])
            self.sw = getattr(self, 'sw', [])
            self.sw.append(st)
            out = self.stmt(s['s'], None)
            self.sw.pop()
            br = self.loops.pop()
            hasdef = any(n.get('k') == 'default' for n in walk(s['s']))
            if not hasdef:
                out = self.join(out, st)
            for b in br:
                out = self.join(out, b)
            return out
        if k in ('case', 'default'):
            return self.stmt(s.get('s'), self.join(st, self.sw[-1]))
        if k == 'try':
            out = self.stmt(s['s'], st)
            for h in s.get('h', []):
                out = self.join(out, self.stmt(h.get('s'), st))
            return out
        return self.expr([v for kk, v in sorted(s.items()) if isinstance(v, (dict, list))], st)


WRITES = {'--output-nlp', '--output-sbs', '--log', '--json-log'}
READS = {'--ref', '-r', '--hyp', '--ref-json', '--syn', '-s', '--symbols', '--wer-sidecar'}


class Provenance:
    """where the value of a string expression comes from: command line options, literals, other sources.
    Flow-insensitive over locals, parameters (all call sites in reach) and members (all assignments)."""

    def __init__(self, g):
        self.g = g
        self.memo = {}
        self.options = {}
        self.sets = {}
        for f in g.reach.values():
            for n in walk(f.body):
                if n.get('k') == 'call' and n.get('q') in ('CLI::App::add_option', 'CLI::App::add_flag') and len(n['a']) > 2:
                    names = [x['v'] for x in walk(n['a'][1]) if x.get('k') == 'str']
                    v = strip(n['a'][2])
                    key = self.key(f, v)
                    if names and key:
                        self.options.setdefault(key, set()).add(names[0].split(',')[-1].strip())
        self.lambdas, lcalls = {}, {}
        for f in g.fns.values():
            for n in walk([f.body, f.d.get('inits')]):
                if n.get('k') == 'lambda':
                    self.lambdas[n['fn']] = n
                elif n.get('k') == 'call' and str(n.get('fn', '')).startswith('lambda@'):
                    lcalls.setdefault(n['fn'], []).append((f, n['a'][-len(n['pw']):] if n.get('pw') else []))
        self.lparams = {}
        for fn, lam in self.lambdas.items():
            for v in [lam] + lam.get('inst', []):
                for i, q in enumerate(v.get('p', [])):
                    for cf, a in lcalls.get(v.get('fn', fn), []):
                        if i < len(a):
                            self.lparams.setdefault(q['id'], []).append((cf, a[i]))
        for f in g.fns.values():
            for i in f.d.get('inits') or []:
                if i.get('f') and i.get('e') is not None:
                    self.sets.setdefault(('mem', f.cls, i['f']), []).append((f, i['e']))
            for n in walk(f.body):
                k = n.get('k')
                if k == 'decl':
                    for v in n['v']:
                        if v.get('init') is not None:
                            self.sets.setdefault(('loc', f.key, v['id']), []).append((f, v['init']))
                elif k == 'rfor' and isinstance(n.get('v'), dict) and 'id' in n['v']:
                    self.sets.setdefault(('loc', f.key, n['v']['id']), []).append((f, n['r']))
                elif k == 'asg':
                    key = self.key(f, strip(n['a']))
                    if key:
                        self.sets.setdefault(key, []).append((f, n['b'] if n.get('op') == '=' else {'k': 'other', 'n': n.get('op')}))
                elif k == 'call' and n.get('m') and n.get('a') and (n.get('op') in ('=', '+=') or n.get('q', '').split('::')[-1] in ('append', 'push_back', 'assign', 'insert', 'replace', 'erase', 'swap')):
                    key = self.key(f, strip(n['a'][0]))
                    if key:
                        self.sets.setdefault(key, []).append((f, n['a'][1] if n.get('op') == '=' or n['q'].endswith('::assign') and len(n['a']) == 2 else {'k': 'other', 'n': n['q'].split('::')[-1]}))
        for r in g.prog.recs.values():
            for x in r.get('f', []):
                if x.get('init') is not None:
                    self.sets.setdefault(('mem', r['q'], x['n']), []).append((None, x['init']))

    @staticmethod
    def key(f, e):
        if e.get('k') == 'ref' and e.get('vk') in ('local', 'param'):
            return ('loc', f.key, e['id'])
        if e.get('k') == 'mem':
            return ('mem', e.get('own'), e['f'])
        return None

    def of(self, f, e, depth=0):
        e = strip(e)
        k = e.get('k')
        if depth > 40:
            return {'?'}
        if k == 'str':
            return {'""' if e['v'] == '' else '"%s"' % e['v']}
        if k == 'ctor':
            if e.get('dflt') or not [x for x in e.get('a', []) if 'allocator' not in str(x.get('clst', ''))]:
                return {'""'}
            args = [x for x in e['a'] if 'allocator' not in str(x.get('clst', ''))]
            if len(args) == 1:
                return self.of(f, args[0], depth + 1)
            return {'a new string'}
        if k == 'call':
            name = e.get('q', '').split('::')[-1]
            if e.get('m') and name in ('c_str', 'data', 'str', 'string', 'native', 'get', 'value') and e.get('a'):
                return self.of(f, e['a'][0], depth + 1)
            lam = self.lambdas.get(e.get('fn'))
            if lam is not None:
                out = set()
                for n in walk(lam['body']):
                    if n.get('k') == 'return' and n.get('e') is not None:
                        out |= self.of(f, n['e'], depth + 1)
                return out
            g = self.g.fns.get(e.get('fn'))
            if g is not None:
                k2 = ('ret', g.key)
                if k2 in self.memo:
                    return self.memo[k2]
                self.memo[k2] = set()
                out = set()
                for n in walk(g.body):
                    if n.get('k') == 'return' and n.get('e') is not None:
                        out |= self.of(g, n['e'], depth + 1)
                self.memo[k2] = out
                return out
            return {name + '()'}
        if k == 'cond':
            return self.of(f, e['a'], depth + 1) | self.of(f, e['b'], depth + 1)
        if k in ('ref', 'mem'):
            key = self.key(f, e)
            if key is None:
                gl = self.g.prog.globs.get(e.get('q'))
                if gl is not None and gl.get('init') is not None:
                    return self.of(f, gl['init'], depth + 1)
                return {'?'}
            if key in self.memo:
                return self.memo[key]
            self.memo[key] = set()
            out = set(self.options.get(key, set()))
            if key[0] == 'loc' and e.get('vk') == 'param':
                i = [j for j, p in enumerate(f.params) if p['id'] == e['id']]
                sites = self.g.calls.get(f.key, [])
                for cf, n in sites:
                    off = 1 if n.get('k') == 'call' and n.get('m') and not n.get('static') else 0
                    a = n.get('a', [])
                    if n.get('k') == 'ref':
                        out.add('an indirect call')
                    elif made(n):
                        if i and i[0] < len(a):
                            out |= self.of(cf, a[i[0]], depth + 1)
                    elif i and i[0] + off < len(a):
                        out |= self.of(cf, a[i[0] + off], depth + 1)
                if not i:
                    for cf, x in self.lparams.get(e['id'], []):
                        out |= self.of(cf, x, depth + 1)
                    if e['id'] not in self.lparams:
                        out.add('?')  # parameter of a function object
            for sf, x in self.sets.get(key, []):
                if isinstance(x, dict) and x.get('k') == 'other':
                    out.add('an edited string (%s)' % x['n'])
                else:
                    out |= self.of(sf or f, x, depth + 1)
            self.memo[key] = out
            return out
        if k == 'init' and len(e.get('a', [])) == 1:
            return self.of(f, e['a'][0], depth + 1)
        return {'?'}


def files(rules):
    c, g = rules.c, rules.g
    c.rules.add('every file opened for writing is one an output option names, opened so that it holds this run only (provenance of the path through locals, parameters and members)')
    c.rules.add('every file opened for reading is one an input option names')
    c.rules.add('no call removes, renames, links or changes files or starts other programs')
    p = Provenance(g)
    seen = set()
    for f in g.reach.values():
        bad = None
        for n in walk([f.d.get('body'), f.d.get('inits')]):
            if n.get('k') not in ('call', 'ctor'):
                continue
            q, t, a = n.get('q', ''), n.get('clst', ''), n.get('a', [])
            if FILEOPS.search(q) and not (q == 'std::remove' and len(a) == 3):
                bad = bad or n
                continue
            kind = path = None
            name = q.split('::')[-1]
            stream = re.search(r'std::basic_(o|i|)(?:fstream|filebuf)<', t)
            if stream:
                if n['k'] == 'ctor' and a and not n.get('copy') and not n.get('move'):
                    path = a[0]
                elif n['k'] == 'call' and name == 'open' and len(a) > 1:
                    path = a[1]
                if path is not None:
                    modes = {x.get('n') for x in walk(a) if x.get('k') == 'ref' and str(x.get('q', '')).startswith('std::ios')} | {x.get('n') for x in walk(a) if x.get('k') == 'ref' and x.get('n') in ('app', 'ate', 'trunc')}
                    kind = {'o': 'w', 'i': 'r', '': 'w'}[stream.group(1)]
                    if kind == 'w' and modes & {'app', 'ate', 'in'} and not ('trunc' in modes and 'app' not in modes):
                        rules.obl(f, n, False, 'mode', '%s opens an output file without emptying it' % f.q, 'mode %s' % '|'.join(sorted(modes)))
                        continue
                    if kind == 'r' and modes & {'out', 'app', 'trunc'}:
                        kind = 'w'
            elif q in ('fopen', 'std::fopen', 'open', 'open64', 'fopen64'):
                path = a[0]
                m = {x['v'] for x in walk(a[1:]) if x.get('k') == 'str'}
                kind = 'r' if m and all(x in ('r', 'rb') for x in m) else 'w'
            elif t.startswith('io::CSVReader<') and n['k'] == 'ctor' and a:
                path, kind = a[0], 'r'
            elif 'fst::' in q and name in ('Read', 'ReadText', 'ReadFst', 'Write', 'WriteText', 'WriteFst', 'FstReadFile') and n['k'] == 'call':
                off = 1 if n.get('m') and not n.get('static') else 0
                if len(a) > off and 'stream' not in n.get('fn', '').split('(')[1].split(',')[0]:
                    path, kind = a[off], 'w' if name.startswith('Write') else 'r'
            elif a and re.match(r'spdlog::sinks::\w*file', made(n) or ''):
                path, kind = a[0], 'w'
            elif re.match(r'spdlog::(basic|rotating|daily)_logger', q) and len(a) > 1:
                path, kind = a[1], 'w'
            elif a and re.match(r'std::basic_[io]?fstream<|io::CSVReader<', made(n) or ''):
                path, kind = a[0], 'r' if re.match(r'std::basic_i|io::', made(n)) else 'w'
            elif t.startswith('spdlog::sinks::') and 'file_sink' in t and n['k'] == 'ctor' and a:
                path, kind = a[0], 'w'
            if path is None:
                continue
            src = p.of(f, path)
            ok = src - {'""'} <= (WRITES if kind == 'w' else READS)
            names = {x for x in src if x.startswith('-')}
            seen |= {(kind, x) for x in names}
            rules.obl(f, n, ok, 'opens ' + '/'.join(sorted(names)), '%s %s a file no %s option names' % (f.q, 'writes' if kind == 'w' else 'reads', 'output' if kind == 'w' else 'input'),
                      'path comes from ' + ', '.join(sorted(src)))
        rules.obl(f, bad or {}, bad is None, 'no file operation', '%s calls %s' % (f.q, bad.get('q') if bad else ''), '')
    for kind, want in (('w', WRITES), ('r', {'--ref', '--hyp', '--ref-json', '--syn', '--symbols', '--wer-sidecar'})):
        for x in sorted(want):
            f = [f for f in g.fns.values() if f.q == 'main'][0]
            rules.obl(f, {}, (kind, x) in seen, 'option ' + x, 'no file is %s for %s' % ('written' if kind == 'w' else 'read', x), '')


# ------------------------------------------------------------------------ C21
STREAM = re.compile(r'^(?:const )?std::basic_(i|o|)fstream<')
NULLABLE = re.compile(r'^fst::.*::(Read|ReadText)$')
NORETURN = re.compile(r'^(std::)?(exit|abort|terminate|quick_exit|_exit|_Exit)$')
ASKS = ('is_open', 'good', 'operator bool', 'fail', 'operator!')
QUIET = ASKS + ('open', 'close', 'exceptions', 'clear', 'rdstate', 'imbue', 'get', 'reset', 'release', 'flush', 'eof', 'setstate')


class Opened:
    """typestate of every file opened and of every pointer that is null when reading fails: a file is tested before it is used,
    and the branch on which the test fails does not leave the function as if nothing happened.
    A state maps a resource to a set of: U opened and not tested, T tested, F known to have failed; None is unreachable."""

    def __init__(self, rules):
        self.rules, self.g = rules, rules.g
        self.lambdas = {}
        for f in self.g.fns.values():
            for n in walk([f.body, f.d.get('inits')]):
                if n.get('k') == 'lambda':
                    self.lambdas[n['fn']] = (f, n)
                    for v in n.get('inst', []):
                        self.lambdas[v['fn']] = (f, dict(n, p=v['p'], body=v['body']))
        self.memo = {}
        self.sites = {}
        self.found = {}
        self.stack = []

    # -- one function
    def analyse(self, key, params, body, f, entry, ret, ismain=False):
        """-> (state of the parameters at normal exit or None, how failure is returned)"""
        mk = (key, tuple(sorted((i, tuple(sorted(s))) for i, s in entry.items())))
        if mk in self.memo:
            return self.memo[mk]
        self.memo[mk] = ({i: frozenset({'T'}) for i in entry}, None, frozenset())  # recursion
        saved = self.__dict__.get('cur')
        self.cur = {'f': f, 'ret': ret, 'main': ismain, 'exits': [], 'kind': None, 'loops': [], 'tests': {}, 'params': {p['id'] for p in params}, 'rets': frozenset()}
        st = {params[i]['id']: s for i, s in entry.items()}
        out = self.stmt(body, st)
        if out is not None:
            self.leave(out, None, {'l': f.d.get('el', f.line)})
        ex = None
        for s in self.cur['exits']:
            ex = self.join(ex, s)
        r = (None if ex is None else {i: ex.get(params[i]['id'], frozenset({'T'})) for i in entry}, self.cur['kind'], self.cur['rets'])
        self.cur = saved
        self.memo[mk] = r
        return r

    def bad(self, res, n, what):
        f = self.cur['f']
        self.found.setdefault((f.key, res), (f, n, what))

    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = dict(a)
        for k, v in b.items():
            out[k] = out.get(k, frozenset()) | v
        return out

    def leave(self, st, e, n):
        cur = self.cur
        e = strip(e) if e is not None else None
        failed = [k for k, v in st.items() if 'F' in v]
        loose = [k for k, v in st.items() if 'U' in v and k not in cur['params']]
        if e is not None and e.get('k') == 'ref' and e.get('id') in st and e.get('vk') == 'local':
            # the stream (or pointer) itself goes to the caller, who has to test it
            cur['rets'] = cur['rets'] | st[e['id']]
            failed = [k for k in failed if k != e['id']]
            loose = [k for k in loose if k != e['id']]
        if failed:
            t = cur['ret'].replace('const ', '')
            if e is not None and e.get('k') == 'null' or e is not None and e.get('k') == 'ctor' and not e.get('a') and re.match(r'std::(unique|shared)_ptr|std::optional', str(e.get('clst', ''))) \
                    or e is not None and e.get('k') == 'ctor' and len(e.get('a', [])) == 1 and strip(e['a'][0]).get('k') in ('null',) or e is not None and 'nullopt' in str(e.get('n', '')) + str(e.get('q', '')):
                cur['kind'] = 'null'
            elif t == 'bool' and e is not None and e.get('k') == 'bool':
                cur['kind'] = 'false' if e.get('v') is False else 'true'
            elif t == 'int' and e is not None and not (e.get('k') == 'int' and e.get('v') == 0):
                pass
            else:
                self.bad(failed[0], n, 'goes on after the file could not be opened or read')
        for k in loose:
            self.bad(k, n, 'never looks whether the file could be opened')
        cur['exits'].append({k: (v - {'F'}) for k, v in st.items()})

    # -- statements
    def stmt(self, s, st):
        if s is None:
            return st
        if isinstance(s, list):
            for x in s:
                st = self.stmt(x, st)
            return st
        k = s.get('k')
        if st is None and k not in ('case', 'default', 'block', 'label'):
            return None
        if k == 'block':
            return self.stmt(s['s'], st)
        if k == 'decl':
            for v in s['v']:
                if st is None:
                    return None
                st = self.declare(v, st)
            return st
        if k == 'expr':
            return self.expr(s['e'], st, True)
        if k == 'return':
            e = s.get('e')
            if e is not None and self.cur['ret'].replace('const ', '') == 'bool' and strip(e).get('k') != 'bool':
                t, f = self.cond(e, st)
                if t is not None and t == f:
                    self.leave(t, None if not any('F' in v for v in t.values()) else e, s)
                    return None
                if t is not None:
                    self.leave(t, {'k': 'bool', 'v': True}, s)
                if f is not None:
                    self.leave(f, {'k': 'bool', 'v': False}, s)
                return None
            x = strip(e) if e is not None else None
            if x is not None and not (x.get('k') == 'ref' and x.get('id') in st):
                st = self.expr(e, st, self.cur['ret'] not in ('void',))
            if st is not None:
                self.leave(st, e, s)
            return None
        if k == 'throw':
            return None
        if k in ('break', 'continue'):
            if self.cur['loops']:
                self.cur['loops'][-1].append(st)
            return None
        if k == 'if':
            if isinstance(s.get('init'), (dict, list)):
                st = self.stmt(s['init'], st)
            c = s['c']
            if c.get('k') == 'decl':
                st = self.stmt(c, st)
                v = c['v'][-1]
                t, f = self.split(v['id'], st)
            else:
                t, f = self.cond(c, st)
            return self.join(self.stmt(s.get('a'), t), self.stmt(s.get('b'), f))
        if k in ('while', 'for', 'rfor', 'do'):
            if k == 'for':
                st = self.stmt(s.get('init'), st)
            if k == 'rfor':
                st = self.expr(s.get('r'), st, True)
            c = s.get('c')
            forever = k == 'for' and c is None or isinstance(c, dict) and strip(c).get('k') == 'bool' and strip(c).get('v') is True
            res = None
            for _ in range(3):
                if st is None:
                    return None
                t, f = (st, None if forever else st) if c is None or k == 'do' else self.cond(c, st)
                self.cur['loops'].append([])
                out = self.stmt(s.get('s'), t)
                br = self.cur['loops'].pop()
                if k == 'for':
                    out = self.expr(s.get('inc'), out, True) if out is not None else None
                if k == 'do' and c is not None:
                    out, f = self.cond(c, out) if out is not None else (None, None)
                res = f if not forever else None
                for b in br:
                    res = self.join(res, b)
                new = self.join(st, out)
                if new == st:
                    break
                st = new
            return res
        if k == 'switch':
            st = self.expr(s['c'], st, True)
            self.cur['loops'].append([])
            sw = self.cur.setdefault('sw', [])
            sw.append(st)
            out = self.stmt(s['s'], None)
            sw.pop()
            if not any(n.get('k') == 'default' for n in walk(s['s'])):
                out = self.join(out, st)
            for b in self.cur['loops'].pop():
                out = self.join(out, b)
            return out
        if k in ('case', 'default'):
            return self.stmt(s.get('s'), self.join(st, self.cur['sw'][-1]))
        if k == 'try':
            out = self.stmt(s['s'], st)
            for h in s.get('h', []):
                out = self.join(out, self.stmt(h.get('s'), st))
            return out
        return self.expr([v for kk, v in sorted(s.items()) if isinstance(v, (dict, list))], st, True)

    def declare(self, v, st):
        i = v.get('init')
        if i is None:
            return st
        x = strip(i)
        t = v.get('t', '')
        if t.replace('const ', '') == 'bool' and self.tests(x, st):
            self.cur['tests'][v['id']] = x
            w = self.test(x, st)
            if w and w[0] == 'result':
                st = dict(st)
                st[w[1]] = frozenset({'U'})
            return st
        if STREAM.match(t):
            if x.get('k') == 'ctor' and x.get('a') and not x.get('copy') and not x.get('move'):
                st = self.expr(x['a'], st, False)
                return self.open(v['id'], v, st, x)
            st2 = self.source(x, st)
            if st2 is not None:
                return {**st2[0], v['id']: st2[1]}
            return self.expr(i, st, False)
        r = self.source(x, st)
        if r is not None:
            st, s = r
            return None if st is None else {**st, v['id']: s}
        return self.expr(i, st, True)

    def open(self, key, n, st, at):
        if st is None:
            return None
        f = self.cur['f']
        self.sites[(f.key, key)] = (f, at)
        st = dict(st)
        st[key] = frozenset({'U'})
        return st

    def callee(self, n):
        fn = n.get('fn')
        if fn in self.lambdas:
            f, lam = self.lambdas[fn]
            return fn, lam.get('p', []), lam['body'], f, lam.get('rt') or n.get('t', '')
        g = self.g.fns.get(fn)
        if g is None:
            return None
        return g.key, g.params, g.body, g, g.d.get('rt', '')

    def source(self, x, st):
        """a value that is null (or a stream that is not open) when a file could not be read -> (state, status)"""
        k = x.get('k')
        if k == 'cond':
            t, f = self.cond(x['c'], st)
            res, out, hit = None, frozenset(), False
            for b, s in ((strip(x['a']), t), (strip(x['b']), f)):
                if s is None:
                    continue
                if b.get('k') == 'null':
                    s = {kk: (v - {'F'} | {'T'} if 'F' in v else v) for kk, v in s.items()}
                    out = out | {'U'}
                    hit = True
                else:
                    r = self.source(b, s)
                    if r is not None:
                        s, o = r
                        out, hit = out | o, True
                    else:
                        s = self.expr(b, s, False)
                res = self.join(res, s)
            return (res, out) if hit else None
        if k == 'ctor' and len(x.get('a', [])) == 1 and re.match(r'std::(unique|shared)_ptr<', str(x.get('clst', ''))):
            return self.source(strip(x['a'][0]), st)
        if k != 'call':
            return None
        if NULLABLE.match(x.get('q', '')) and x.get('t', '').endswith('*'):
            st = self.expr(x.get('a'), st, False)
            if st is not None:
                self.sites[(self.cur['f'].key, id(x))] = (self.cur['f'], x)
            return st, frozenset({'U'})
        c = self.callee(x)
        if c is not None and (STREAM.match(c[4]) or c[4].endswith('*') or re.match(r'std::(unique_ptr|shared_ptr|optional)<', c[4])):
            st, kind, rets = self.call(x, c, st)
            if kind == 'null':
                return st, frozenset({'U'})
            if rets:
                return st, rets
            return st, frozenset({'T'})
        return None

    def call(self, n, c, st):
        """a call of a repository function: streams it gets keep their state in there"""
        key, params, body, f, ret = c
        a = n.get('a', [])
        off = max(0, len(a) - len(n.get('pw', a)))
        if key in self.lambdas and key not in self.stack:
            # its body sees the resources of the function around it
            inner = dict(st)
            for i, x in enumerate(a[off:]):
                y = strip(x)
                if y.get('k') == 'ref' and y.get('id') in st and i < len(params):
                    inner[params[i]['id']] = st[y['id']]
            saved = self.cur
            self.cur = {'f': f, 'ret': ret, 'main': False, 'exits': [], 'kind': None, 'loops': [], 'tests': {}, 'params': set(inner), 'rets': frozenset()}
            self.stack.append(key)
            out = self.stmt(body, inner)
            if out is not None:
                self.leave(out, None, n)
            self.stack.pop()
            ex = None
            for z in self.cur['exits']:
                ex = self.join(ex, z)
            kind, rets = self.cur['kind'], self.cur['rets']
            self.cur = saved
            if ex is not None:
                for i, x in enumerate(a[off:]):
                    y = strip(x)
                    if y.get('k') == 'ref' and y.get('id') in st and i < len(params):
                        ex[y['id']] = ex.pop(params[i]['id']) or frozenset({'T'})
                ex = {z: v or frozenset({'T'}) for z, v in ex.items()}
            return ex, kind, rets
        entry, ids = {}, {}
        for i, x in enumerate(a[off:]):
            y = strip(x)
            if y.get('k') == 'un' and y.get('op') == '&':
                y = strip(y['e'])
            if y.get('k') == 'ref' and y.get('id') in st and i < len(params):
                entry[i] = st[y['id']]
                ids[i] = y['id']
            else:
                st = self.expr(x, st, False)
                if st is None:
                    return None, None, frozenset()
        if len(self.stack) > 30 or key in self.stack:
            return st, None, frozenset()
        self.stack.append(key)
        out, kind, rets = self.analyse(key, params, body, f, entry, ret)
        self.stack.pop()
        if out is None:
            return None, kind, rets
        st = dict(st)
        for i, k in ids.items():
            st[k] = out.get(i, frozenset({'T'})) or frozenset({'T'})
        return st, kind, rets

    # -- expressions
    def subject(self, e, st):
        """the resource whose state a tested expression shows"""
        e = strip(e)
        if e.get('k') == 'ref' and e.get('id') in st:
            return e['id']
        if e.get('k') == 'call' and e.get('a') and (e.get('q', '') in ('std::getline', 'std::ws') or e.get('op') in ('>>', '<<') or e.get('q', '').split('::')[-1] in ('read', 'get', 'getline', 'peek', 'write', 'put')):
            return self.subject(e['a'][0], st)
        return None

    def tests(self, e, st):
        """a condition made of tests"""
        e = strip(e)
        if e.get('k') == 'bin' and e.get('op') in ('&&', '||'):
            return self.tests(e['a'], st) and self.tests(e['b'], st)
        if e.get('k') == 'un' and e.get('op') == '!':
            return self.tests(e['e'], st)
        return self.test(e, st) is not None

    def test(self, e, st):
        """-> (kind, resource, value of the expression that means it is fine)"""
        e = strip(e)
        k = e.get('k')
        if k == 'un' and e.get('op') == '!':
            w = self.test(e['e'], st)
            return w and (w[0], w[1], not w[2])
        if k == 'call':
            name = e.get('q', '').split('::')[-1]
            if e.get('m') and name in ASKS and e.get('a'):
                r = self.subject(e['a'][0], st)
                if r is not None:
                    return 'state', r, name in ('is_open', 'good', 'operator bool')
            if e.get('op') in ('==', '!=') and len(e.get('a', [])) == 2:
                return self.nulltest(e['a'], e['op'], st)
            if e.get('q') == 'Json::parseFromStream' and len(e['a']) > 1:
                y = strip(e['a'][1])
                if y.get('k') == 'ref' and (y.get('id') in st or STREAM.match(y.get('t', ''))):
                    return 'result', id(e), True
            c = self.callee(e)
            if c is not None and c[4].replace('const ', '') == 'bool':
                s2, kind, _ = self.call(e, c, st)
                if kind in ('false', 'true'):
                    return 'helper', id(e), kind == 'false'
        if k == 'bin' and e.get('op') in ('==', '!='):
            return self.nulltest([e['a'], e['b']], e['op'], st)
        if k == 'ref' and e.get('id') in st:
            return 'state', e['id'], True
        if k == 'ref' and e.get('id') in self.cur['tests']:
            return self.test(self.cur['tests'][e['id']], st)
        if k in ('call',) and self.subject(e, st) is not None and STREAM.match(e.get('t', '')) is None and 'stream' in e.get('t', ''):
            return 'state', self.subject(e, st), True
        return None

    def nulltest(self, a, op, st):
        for x, y in ((a[0], a[1]), (a[1], a[0])):
            x, y = strip(x), strip(y)
            if y.get('k') == 'null':
                if x.get('k') == 'call' and x.get('q', '').endswith('::get') and x.get('a'):
                    x = strip(x['a'][0])
                if x.get('k') == 'ref' and x.get('id') in st:
                    return 'state', x['id'], op == '!='
        return None

    def split(self, r, st):
        s = st.get(r)
        if s is None:
            return st, st
        return ({**st, r: (s - {'U', 'F'}) | ({'T'} if 'U' in s else set())} if s - {'F'} else None,
                {**st, r: (s - {'U'}) | ({'F'} if 'U' in s else set())})

    def cond(self, e, st):
        if st is None:
            return None, None
        x = strip(e)
        k = x.get('k')
        if k == 'un' and x.get('op') == '!':
            t, f = self.cond(x['e'], st)
            return f, t
        if k == 'bin' and x.get('op') == '&&':
            t, f = self.cond(x['a'], st)
            t2, f2 = self.cond(x['b'], t)
            return t2, self.join(f, f2)
        if k == 'bin' and x.get('op') == '||':
            t, f = self.cond(x['a'], st)
            t2, f2 = self.cond(x['b'], f)
            return self.join(t, t2), f2
        if k == 'bool':
            return (st, None) if x.get('v') else (None, st)
        if k == 'bin' and x.get('op') in ('==', '!='):
            for y, z in ((x['a'], x['b']), (x['b'], x['a'])):
                c = [b for b in walk(z) if b.get('k') not in ('cast',)]
                if len(c) == 1 and c[0].get('k') == 'bool':
                    t, f = self.cond(y, st)
                    return (t, f) if c[0].get('v') is (x['op'] == '==') else (f, t)
        if k == 'call' and x.get('m') and x.get('q', '').endswith('::operator!') and x.get('a') and self.test(x, st) is None:
            t, f = self.cond(x['a'][0], st)
            return f, t
        if k == 'ref' and x.get('id') in self.cur['tests'] and x.get('id') not in st:
            return self.cond(self.cur['tests'][x['id']], st)
        w = self.test(x, st)
        if w is None:
            st = self.expr(e, st, False)
            return st, st
        kind, r, fine = w
        if kind in ('result', 'helper'):
            # the arguments are read by the call itself; its result says whether that went well
            src = x if k == 'call' else self.cur['tests'].get(x.get('id'), x)
            st = dict(st)
            if kind == 'result':
                y = strip(src['a'][1])
                self.sites[(self.cur['f'].key, id(src))] = (self.cur['f'], src)
                if y.get('id') in st:
                    st[y['id']] = frozenset({'T'})
            else:
                s2, _, _ = self.call(src, self.callee(src), st)
                if s2 is None:
                    return None, None
                st = s2
            ok, no = {**st, r: frozenset({'T'})}, {**st, r: frozenset({'F'})}
            return (ok, no) if fine else (no, ok)
        if k == 'call' and x.get('a'):
            a0 = strip(x['a'][0])
            if a0.get('k') == 'call' and a0.get('a'):
                st = self.expr(a0['a'][1:], st, False)
        t, f = self.split(r, st)
        return (t, f) if fine else (f, t)

    def expr(self, e, st, dropped):
        """uses; dropped: nothing looks at the value of this expression"""
        if st is None or e is None:
            return st
        if isinstance(e, list):
            for x in e:
                st = self.expr(x, st, dropped)
            return st
        if not isinstance(e, dict):
            return st
        k = e.get('k')
        if k == 'lambda':
            return st
        if k == 'throw':
            return None
        if k == 'cond':
            t, f = self.cond(e['c'], st)
            return self.join(self.expr(e['a'], t, False), self.expr(e['b'], f, False))
        if k == 'bin' and e.get('op') in ('&&', '||'):
            t, f = self.cond(e, st)
            return self.join(t, f)
        if k == 'asg':
            a = strip(e['a'])
            if a.get('k') == 'ref':
                if e.get('op') == '=' and a.get('t', '').replace('const ', '') == 'bool' and self.tests(strip(e['b']), st):
                    self.cur['tests'][a['id']] = strip(e['b'])
                    return st
                r = self.source(strip(e['b']), st) if e.get('op') == '=' else None
                if r is not None:
                    return None if r[0] is None else {**r[0], a['id']: r[1]}
        if k == 'ref':
            s = st.get(e.get('id'))
            if s is not None and e.get('vk') in ('local', 'param') and s & {'U', 'F'}:
                self.bad(e['id'], e, 'uses %s without looking whether the file could be opened or read' % e.get('n'))
                return {**st, e['id']: frozenset({'T'})}
            return st
        if k == 'ctor' and STREAM.match(str(e.get('clst', ''))) and e.get('a') and not e.get('copy') and not e.get('move'):
            self.sites[(self.cur['f'].key, id(e))] = (self.cur['f'], e)
            self.bad(id(e), e, 'never looks whether the file could be opened')
            return self.expr(e['a'], st, False)
        if k == 'call':
            name = e.get('q', '').split('::')[-1]
            a = e.get('a', [])
            if NORETURN.match(e.get('q', '')):
                v = strip(a[0]) if a else {}
                if v.get('k') == 'int' and v.get('v') == 0:
                    self.leave(st, v, e)
                return None
            if e.get('op') == '=' and len(a) == 2:
                y = strip(a[0])
                r = self.source(strip(a[1]), st)
                x = strip(a[1])
                if y.get('k') == 'ref' and r is not None:
                    return None if r[0] is None else {**r[0], y['id']: r[1]}
                if y.get('k') == 'ref' and STREAM.match(y.get('t', '')) and x.get('k') == 'ctor' and x.get('a'):
                    return self.open(y['id'], e, self.expr(x['a'], st, False), e)
            if e.get('m') and a:
                o = strip(a[0])
                if o.get('k') == 'ref' and re.search(r'fstream<', o.get('t', '')) and name == 'open' and len(a) > 1:
                    st = self.expr(a[1:], st, False)
                    if st is not None and 'T!' in st.get(('x', o['id']), ()):
                        return {**st, o['id']: frozenset({'T'})}
                    return self.open(o['id'], e, st, e)
                if o.get('k') == 'ref' and re.search(r'fstream<', o.get('t', '')) and name == 'exceptions' and len(a) > 1:
                    return {**st, ('x', o['id']): frozenset({'T!'}), o['id']: frozenset({'T'})}
                if o.get('k') == 'ref' and o.get('id') in st and name in QUIET:
                    return self.expr(a[1:], st, False)
            if NULLABLE.match(e.get('q', '')) and e.get('t', '').endswith('*'):
                self.sites[(self.cur['f'].key, id(e))] = (self.cur['f'], e)
                self.bad(id(e), e, 'uses what was read without looking whether it could be read')
                return self.expr(a, st, False)
            w = self.test(e, st) if e.get('t') == 'bool' else None
            if w is not None and w[0] in ('result', 'helper'):
                self.sites[(self.cur['f'].key, id(e))] = (self.cur['f'], e)
                self.bad(id(e), e, 'does not look whether the file could be read')
                return st
            c = self.callee(e)
            if c is not None:
                st, kind, rets = self.call(e, c, st)
                return st
            return self.expr(a, st, False)
        for kk, v in e.items():
            if isinstance(v, (dict, list)):
                st = self.expr(v, st, False)
        return st


def opened(rules):
    c, g = rules.c, rules.g
    c.rules.add('typestate: every file opened is tested before it is used; every pointer that is null when reading fails is tested before it is followed; every JSON parse result is tested')
    c.rules.add('the branch on which a file could not be opened or read leaves by an exception or with a failure status')
    c.rules.add('no handler turns an exception of reading or writing a file into success')
    o = Opened(rules)
    for f in sorted(g.reach.values(), key=lambda f: f.q != 'main'):
        o.cur = None
        o.analyse(f.key, f.params, f.body, f, {}, f.d.get('rt', ''), f.q == 'main')
    done = set()
    for (fk, res), (f, n) in sorted(o.sites.items(), key=lambda x: (x[1][0].file, x[1][1].get('l', 0))):
        hit = o.found.get((fk, res))
        done.add((fk, res))
        rules.obl(f, n, hit is None, 'file access', '%s %s' % (f.q, hit[2] if hit else ''), '')
    for (fk, res), (f, n, what) in o.found.items():
        if (fk, res) not in done:
            rules.obl(f, n, False, 'file access', '%s %s' % (f.q, what), '')
    # readers that report by exceptions, and handlers
    readers = {f.key for f in g.reach.values() if f.key in {k for k, _ in o.sites} or any(n.get('k') == 'ctor' and str(n.get('clst', '')).startswith('io::CSVReader<') for n in walk(f.body))}
    again = True
    while again:
        again = False
        for k, sites in g.calls.items():
            if k in readers:
                for f, n in sites:
                    if f.key not in readers:
                        readers.add(f.key)
                        again = True
    for f in g.reach.values():
        for n in walk([f.body, f.d.get('inits')]):
            if n.get('k') == 'ctor' and str(n.get('clst', '')).startswith('io::CSVReader<') and n.get('a') and not n.get('copy') and not n.get('move'):
                rules.obl(f, n, True, 'file access')  # throws when the file cannot be opened
            if n.get('k') != 'try':
                continue
            inside = any(x.get('fn') in readers or x.get('k') == 'ctor' and (str(x.get('clst', '')).startswith('io::CSVReader<') or STREAM.match(str(x.get('clst', '')))) or x.get('virt') and any(y.key in readers for y in g.targets(x))
                         for x in walk(n['s']))
            for h in n.get('h', []):
                t = h.get('t') or '...'
                wide = t == '...' or re.search(r'std::(exception|runtime_error|ios_base::failure|system_error)\b|io::error::', t)
                if not (inside and wide):
                    continue
                o.cur = {'f': f, 'ret': f.d.get('rt', ''), 'main': f.q == 'main', 'exits': [], 'kind': None, 'loops': [], 'tests': {}, 'params': set(), 'rets': frozenset()}
                o.found.clear()
                out = o.stmt(h.get('s'), {'caught': frozenset({'F'})})
                rules.obl(f, h.get('s') or n, out is None and not o.found and not o.cur['kind'], 'handler', '%s turns an exception of reading or writing a file into success' % f.q, 'catch (%s)' % t)

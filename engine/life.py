"""C25: what references, iterators and pointers refer to, and which pointers and search results may be null, over every function
main can reach.  Abstract state of a program point: for each reference-like variable the places it may refer into (or why it refers
to nothing any more), for each pointer-like place whether it may be null, and the memberships known to hold."""
import copy
import re

from lint import Graph, strip, walk, logging, made, NORETURN, ir

MAXP = 160
ITER = re.compile(r'iterator|_Node_const_iterator|reverse_iterator')
SMART = re.compile(r'^(?:const )?std::(?:__)?(?:shared|unique)_ptr(?:_access)?<')
NODE = re.compile(r'^(?:const )?std::(?:multi)?(?:map|set)<')
HASH = re.compile(r'^(?:const )?std::unordered_(?:multi)?(?:map|set)<')
LIST = re.compile(r'^(?:const )?std::(?:list|forward_list)<')
VEC = re.compile(r'^(?:const )?std::(?:vector|deque|basic_string)<')
FST = re.compile(r'^(?:const )?fst::(?:VectorFst|MutableFst|EditFst)<')
OWNER = re.compile(r'^(?:const )?std::(?:unique_ptr)<')
VIEW = re.compile(r'^(?:const )?std::basic_string_view<')
ARCIT = re.compile(r'^fst::(?:Mutable)?ArcIterator<')
ANY = re.compile(r'%s' % '|'.join(x.pattern for x in (NODE, HASH, LIST, VEC)))
VGROW = {'push_back', 'emplace_back', 'insert', 'emplace', 'resize', 'assign', 'clear', 'erase', 'pop_back', 'operator=', 'operator+=', 'append', 'shrink_to_fit',
         'push_front', 'emplace_front', 'pop_front', 'swap', 'reserve', 'replace'}
NDROP = {'clear', 'operator=', 'swap', 'extract', 'merge', 'pop_back', 'pop_front', 'remove', 'remove_if', 'unique', 'assign', 'resize', 'splice'}
FMUT = {'AddArc', 'AddState', 'AddStates', 'DeleteArcs', 'DeleteStates', 'SetArcs', 'ReserveArcs', 'operator=', 'EmplaceArc', 'SetFinal', 'SetStart'}
FARC = {'AddArc', 'DeleteArcs', 'DeleteStates', 'ReserveArcs', 'operator=', 'EmplaceArc'}
INTO = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'find', 'lower_bound', 'upper_bound', 'insert', 'emplace', 'erase', 'front', 'back', 'at',
        'operator[]', 'data', 'c_str', 'operator*', 'operator->', 'top', 'value', 'get', 'base', 'equal_range', 'insert_or_assign'}
SEARCH = re.compile(r'^std::(find|find_if|find_if_not|lower_bound|upper_bound|search|adjacent_find|find_first_of|find_end|max_element|min_element|partition_point)$')


def name(n):
    return n.get('q', '').split('::')[-1]


def unq(t):
    return re.sub(r'\bconst\b', '', t or '').strip().rstrip('&').strip()


def pointer(t):
    t = unq(t)
    return t.endswith('*') or bool(SMART.match(t))


class Life:
    def __init__(self, rules):
        self.rules, self.g = rules, rules.g
        self.memo = {}
        self.truth = {}
        self.holds = {}
        self.answers = {}
        self.sites = {}
        self.found = {}
        self.stack = []
        self.maynull = set()
        self.newnull = set()
        self.rsum = {}
        self.lams = {}
        for f in self.g.reach.values():
            for n in walk([f.body, f.d.get('inits')]):
                if n.get('k') == 'lambda':
                    self.lams[n['fn']] = (f, n)
                    for v in n.get('inst', []):
                        self.lams[v['fn']] = (f, dict(n, p=v['p'], body=v['body']))
        self.whole = self.wholes()
        self.mods = self.effects()

    # ------------------------------------------------------------ effects of a function on containers of its parameters and object
    def effects(self):
        m = {k: set() for k in self.g.reach}
        again = True
        while again:
            again = False
            for f in self.g.reach.values():
                ids = {p['id']: i for i, p in enumerate(f.params) if p.get('ref') or p['t'].endswith('*')}
                out = set(m[f.key])

                def rel(p):
                    if p is None:
                        return None
                    if p == 'this' or p.startswith('this.') or p.startswith('this->'):
                        return p
                    x = re.match(r'v(\d+)(.*)$', p)
                    if x and int(x.group(1)) in ids:
                        return 'p%d%s' % (ids[int(x.group(1))], x.group(2))
                    return None
                for n in walk([f.body, f.d.get('inits')]):
                    if n.get('k') != 'call' or logging(n):
                        continue
                    for pl, op, ct, arg in self.opof(n):
                        r = rel(self.syn(pl))
                        if r:
                            out.add((r, op, ct))
                    for h in self.g.targets(n):
                        for r, op, ct in m.get(h.key, ()):
                            a = n.get('a', [])
                            off = 1 if n.get('m') else 0
                            if r.startswith('this'):
                                if not n.get('m') or not a:
                                    continue
                                b, t = self.objplace(a[0], n), r[4:]
                            else:
                                x = re.match(r'p(\d+)(.*)$', r)
                                i = int(x.group(1)) + off
                                if i >= len(a):
                                    continue
                                b, t = self.syn(a[i]), x.group(2)
                            if b is None or len(b) + len(t) > MAXP:
                                continue
                            r2 = rel(b + t)
                            if r2:
                                out.add((r2, op, ct))
                if out != m[f.key]:
                    m[f.key] = out
                    again = True
        return m

    def objplace(self, o, n):
        p = self.syn(o)
        if p is None:
            return None
        return p if p == 'this' else (p + '->' if unq(strip(o).get('t', '')).endswith('*') else p)

    def syn(self, e):
        """place of an expression by its syntax alone"""
        return self.place(e, {})

    # ------------------------------------------------------------ places
    def place(self, e, st):
        e = strip(e)
        k = e.get('k')
        p = None
        if k == 'this':
            return 'this'
        if k == 'ref':
            if e.get('vk') in ('local', 'param'):
                h = st.get(('h', 'v%s' % e['id']))
                if h is not None and self.isref(e['id'], st) and len(h) == 1:
                    t = next(iter(h))
                    if not t.startswith('!'):
                        return t
                return 'v%s' % e['id']
            return 'g:' + str(e.get('q') or e.get('n'))
        if k == 'mem':
            b = self.place(e['b'], st)
            if b is None:
                return None
            bt = unq(strip(e['b']).get('t', ''))
            if b == 'this' and strip(e['b']).get('k') == 'this':
                p = 'this.' + e['f']
            elif bt.endswith('*'):
                p = self.deref(b, st) + '.' + e['f']
            else:
                p = b + '.' + e['f']
        elif k == 'idx':
            b = self.place(e['a'], st)
            p = b and b + '[]'
        elif k == 'un' and e.get('op') == '*':
            b = self.place(e['e'], st)
            p = b and ('this' if b == 'this' else self.deref(b, st))
        elif k == 'un' and e.get('op') == '&':
            return None
        elif k == 'cast':
            return self.place(e['e'], st)
        elif k == 'call' and e.get('m') and e.get('a'):
            n = name(e)
            b = self.place(e['a'][0], st)
            if b is None:
                if n in ('operator*', 'operator->') and st and ITER.search(unq(e.get('clst', '')) or unq(strip(e['a'][0]).get('t', ''))):
                    ts = self.targets(e['a'][0], st)
                    if ts and len(ts) == 1 and not next(iter(ts)).startswith('!'):
                        return next(iter(ts))
                return None
            ot = unq(e.get('clst', '')) or unq(strip(e['a'][0]).get('t', ''))
            if n in ('operator[]', 'at', 'front', 'back', 'top') and (ANY.match(ot) or ot.startswith('std::array')):
                p = b + '[]'
            elif n in ('operator*', 'operator->'):
                if ITER.search(ot):
                    h = st.get(('h', b))
                    ts = [t for t in h if not t.startswith('!')] if h else []
                    p = ts[0] if len(ts) == 1 and len(h) == 1 else (b + '*')
                else:
                    p = b + '->'
                if n == 'operator->' and p:
                    p = p
            elif n == 'operator[]' or e.get('lv') and n == 'Value' and ARCIT.match(ot):
                if ARCIT.match(ot):
                    h = st.get(('h', b))
                    p = next(iter(h)) if h and len(h) == 1 else b + '[]'
                else:
                    p = b + '[]'
        if p is not None and len(p) > MAXP:
            return None
        return p

    def deref(self, b, st):
        h = st.get(('h', b))
        if h and len(h) == 1:
            t = next(iter(h))
            if not t.startswith('!'):
                return t
        # the -> of an operator-> call is already part of the place
        return b if b.endswith('->') else b + '->'

    def isref(self, i, st):
        return ('r', i) in st

    @staticmethod
    def txt(e):
        e = strip(e)
        if not isinstance(e, dict):
            return repr(e)
        k = e.get('k')
        if k == 'ref':
            return 'v%s' % e['id'] if e.get('vk') in ('local', 'param') else str(e.get('q') or e.get('n'))
        return '(%s %s %s)' % (k, ' '.join(str(e.get(x)) for x in ('op', 'f', 'q', 'v', 'n') if x in e),
                               ' '.join(Life.txt(v) for kk, v in sorted(e.items()) if isinstance(v, dict)) + ' '.join(Life.txt(x) for kk, v in sorted(e.items()) if isinstance(v, list) for x in v if isinstance(x, dict)))

    # ------------------------------------------------------------ operations that end the life of what is inside a container
    def opof(self, n):
        """-> [(container expression, 'all' | 'iter' | 'one' | 'arcs', type, argument)]"""
        out = []
        a = n.get('a', [])
        q = n.get('q', '')
        if n.get('k') == 'call' and n.get('m') and a:
            m, ct = name(n), unq(n.get('clst', '')) or unq(strip(a[0]).get('t', ''))
            if VEC.match(ct) and m in VGROW:
                out.append((a[0], m, ct, a[1] if len(a) > 1 else None))
            elif (NODE.match(ct) or HASH.match(ct) or LIST.match(ct)) and (m in NDROP or m == 'erase'):
                out.append((a[0], m, ct, a[1] if len(a) > 1 else None))
            elif HASH.match(ct) and m in ('insert', 'emplace', 'operator[]', 'try_emplace', 'rehash', 'reserve', 'insert_or_assign'):
                out.append((a[0], m, ct, None))
            elif FST.match(ct) and m in FARC or ct.startswith('fst::') and m in FARC:
                out.append((a[0], m, ct, None))
            elif SMART.match(ct) and m in ('reset', 'operator=') and OWNER.match(ct):
                out.append((a[0], m, ct, None))
        elif n.get('k') == 'call' and a:
            if q == 'std::getline' and len(a) > 1:
                out.append((a[1], 'operator=', unq(strip(a[1]).get('t', '')), None))
            elif q.startswith('fst::'):
                for x in a:
                    y = strip(x)
                    if y.get('k') == 'un' and y.get('op') == '&' and FST.match(unq(strip(y['e']).get('t', ''))):
                        out.append((y['e'], 'operator=', unq(strip(y['e']).get('t', '')), None))
        return out

    def invalidate(self, st, p, op, ct, arg, n):
        if p is None:
            return st
        st = dict(st)
        pre = p + ('->' if SMART.match(ct) else '[]')
        erased = None
        if op == 'erase' and arg is not None and not VEC.match(ct):
            y = strip(arg)
            if y.get('k') == 'ref' and ITER.search(unq(y.get('t', ''))):
                erased = 'v%s' % y['id']
            elif ITER.search(unq(y.get('t', ''))):
                erased = ''  # an iterator that no variable holds any more
        why = '!%s at line %s' % (op.replace('operator=', 'assignment').replace('operator', ''), n.get('l', '?'))
        for key, v in list(st.items()):
            if key[0] == 'h':
                hit = {t for t in v if t.startswith(pre)}
                if not hit or ('reserved', p) in st and op in ('push_back', 'emplace_back'):
                    continue
                isit = key[1] in st.get(('iters',), ())
                if HASH.match(ct) and op in ('insert', 'emplace', 'operator[]', 'try_emplace', 'rehash', 'reserve', 'insert_or_assign') and not isit:
                    continue
                if FST.match(ct) or ct.startswith('fst::'):
                    if key[1] not in st.get(('arcs',), ()):
                        continue
                if erased is not None:
                    # only the erased element: the iterator itself and what was reached through it
                    if key[1] != erased and not (st.get(('via', key[1])) == erased and erased) and not (erased == '' and not isit):
                        continue
                if op in ('pop_back', 'pop_front') and not (key[1] in st.get(('lasts',), ())) and not isit:
                    continue
                if op == 'reserve' and VEC.match(ct) and not hit:
                    continue
                st[key] = frozenset((v - hit) | {why})
            elif key[0] == 'c' and op in ('erase', 'clear', 'pop_back', 'pop_front', 'operator=') and any(t.startswith(pre) for t in v):
                left = frozenset(t for t in v if not t.startswith(pre))
                if left:
                    st[key] = left
                else:
                    del st[key]
            elif key[0] == 'f' and key[1][0] == p and op in ('erase', 'clear', 'operator=', 'swap', 'extract', 'pop_back', 'pop_front', 'assign', 'resize'):
                del st[key]
        return st

    # ------------------------------------------------------------ reports
    def site(self, n, what):
        f = self.cur['f']
        self.sites.setdefault((f.key, n.get('l'), what), (f, n))

    def bad(self, n, what, text):
        f = self.cur['f']
        self.site(n, what)
        self.found.setdefault((f.key, n.get('l'), what), text)

    # ------------------------------------------------------------ joins
    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if k[0] == 'f':
                if x and y:
                    out[k] = x
            elif k[0] == 'alias':
                if x == y:
                    out[k] = x
            elif k[0] in ('reserved', 'via'):
                if x == y:
                    out[k] = x
                elif k[0] == 'reserved' and x and y:
                    out[k] = x
            elif x is None or y is None:
                out[k] = x if y is None else y
            elif isinstance(x, frozenset):
                out[k] = x | y
            else:
                out[k] = x
        return out

    # ------------------------------------------------------------ nullness
    def status(self, e, st):
        """may the value be null, or one past the last element?"""
        e0 = e
        while isinstance(e, dict) and e.get('k') == 'cast' and e.get('ck') != 'dyn':
            e = e['e']
        if isinstance(e, dict) and e.get('k') == 'cast' and e.get('ck') == 'dyn':
            return frozenset('N') if unq(e.get('t', '')).endswith('*') else frozenset('T')
        e = strip(e)
        k = e.get('k')
        if k == 'null':
            return frozenset('N')
        if k == 'int' and e.get('v') == 0:
            return frozenset('N')
        if k == 'un' and e.get('op') == '&' or k == 'new' or k == 'this':
            return frozenset('T')
        if k == 'cond':
            t, f = self.cond(e['c'], dict(st), quiet=True)
            out = frozenset()
            if t is not None:
                out |= self.status(e['a'], t)
            if f is not None:
                out |= self.status(e['b'], f)
            return out or frozenset('T')
        if k == 'ctor':
            a = e.get('a', [])
            if SMART.match(unq(e.get('clst', e.get('t', '')))) or SMART.match(unq(e.get('t', ''))):
                if not a:
                    return frozenset('N')
                return self.status(a[0], st)
            return frozenset('T') if not (len(a) == 1) else self.status(a[0], st) if pointer(e.get('t')) or ITER.search(unq(e.get('t', ''))) else frozenset('T')
        if k in ('ref', 'mem', 'idx'):
            p = self.place(e, st)
            if p is not None and ('n', p) in st:
                return st[('n', p)]
            if k == 'mem' and pointer(e.get('t')) and (e.get('own'), e['f']) in self.maynull:
                return frozenset('N')
            return frozenset('T')
        if k == 'call':
            q, a = e.get('q', ''), e.get('a', [])
            if e.get('m') and a and name(e) == 'get' and SMART.match(unq(e.get('clst', ''))):
                return self.status(a[0], st)
            if e.get('m') and a and name(e) in ('operator*', 'operator->', 'operator[]', 'at', 'front', 'back'):
                p = self.place(e, st)
                if p is not None and ('n', p) in st:
                    return st[('n', p)]
                return frozenset('T')
            if e.get('m') and a and name(e) in ('find', 'lower_bound', 'upper_bound') and ITER.search(unq(e.get('t', ''))):
                p = self.place(a[0], st)
                if len(a) > 1 and ('f', (p, self.txt(a[1]))) in st:
                    return frozenset('T')
                return frozenset('N')
            if SEARCH.match(q):
                if q in ('std::max_element', 'std::min_element'):
                    return frozenset('T')
                return frozenset('N')
            if re.match(r'fst::(SymbolTable|\w*Fst\w*)(<.*>)?::Read\w*$', q):
                return frozenset('N')
            if q in ('std::getenv', 'getenv', '::getenv') or re.match(r'std::(dynamic_pointer_cast)', q):
                return frozenset('N')
            if q == 'std::move' and a:
                return self.status(a[0], st)
            s = self.callsum(e)
            if s is not None:
                return s[0]
        return frozenset('T')

    def callsum(self, e):
        """what calls of a repository function may return -> (null status, places of the object and parameters it refers into, copies of)"""
        ts = self.g.targets(e) if e.get('k') == 'call' else []
        if e.get('fn') in self.lams:
            return None
        ts = [t for t in ts if t.key in self.g.reach]
        rt = unq(e.get('t', ''))
        if not ts or not (pointer(rt) or ITER.search(rt) or e.get('lv') or VIEW.match(rt)):
            return None
        out = frozenset()
        pl = frozenset()
        for t in ts:
            s = self.rsum.get(t.key)
            if s is None:
                if t.key in self.stack:
                    continue
                self.analyse(t, {}, summary=True)
                s = self.rsum.get(t.key, (frozenset('T'), frozenset()))
            out |= s[0]
            pl |= s[1]
        return out or frozenset('T'), pl

    def follow(self, b, st, n, how):
        """b is dereferenced"""
        if st is None:
            return st
        bt = unq(strip(b).get('t', ''))
        s = self.status(b, st)
        what = 'follows ' + self.label(b)
        tracked = strip(b).get('k') == 'call' or self.place(b, st) is not None and ('n', self.place(b, st)) in st or 'N' in s
        if tracked and strip(b).get('k') != 'this':
            self.site(n, what)
        if 'N' in s:
            self.bad(n, what, 'follows %s, which may be %s' % (self.label(b), 'past the last element' if ITER.search(bt) else 'null'))
            p = self.place(b, st)
            if p is not None:
                st = {**st, ('n', p): frozenset('T')}
        return st

    @staticmethod
    def label(e):
        e = strip(e)
        k = e.get('k')
        if k == 'ref':
            return str(e.get('n'))
        if k == 'mem':
            b = strip(e['b'])
            return e['f'] if b.get('k') == 'this' else Life.label(b) + '.' + e['f']
        if k == 'call':
            a = e.get('a', [])
            if name(e) in ('operator->', 'operator*') and a:
                return Life.label(a[0])
            return 'the result of ' + (e.get('q', '').split('::')[-1] or 'a call')
        if k == 'cast':
            return 'the result of a checked cast'
        return 'a value'

    # ------------------------------------------------------------ conditions
    def tested(self, e, st):
        """-> (keys to set, value of e that means the place is not null) or None"""
        e = strip(e)
        k = e.get('k')
        if k == 'ref' and e.get('id') in self.cur['tests']:
            return self.tested(self.cur['tests'][e['id']], st)
        if k in ('ref', 'mem') and pointer(e.get('t')):
            return [('n', self.place(e, st))], True
        if k == 'call' and e.get('m') and e.get('a') and name(e) == 'operator bool' and SMART.match(unq(e.get('clst', ''))):
            return [('n', self.place(e['a'][0], st))], True
        if k == 'call' and e.get('m') and e.get('a') and name(e) == 'get' and SMART.match(unq(e.get('clst', ''))):
            return [('n', self.place(e['a'][0], st))], True
        if k == 'call' and e.get('m') and len(e.get('a', [])) > 1 and name(e) in ('count', 'contains') and ANY.match(unq(e.get('clst', ''))):
            return [('f', (self.place(e['a'][0], st), self.txt(e['a'][1])))], True
        ab = None
        if k == 'bin' and e.get('op') in ('==', '!=', '>', '>=', '<', '<='):
            ab = e['a'], e['b']
        elif k == 'call' and e.get('op') in ('==', '!=') and len(e.get('a', [])) == 2:
            ab = e['a']
        if ab is None:
            return None
        op = e['op']
        for x, y in (ab, ab[::-1]):
            x, y = strip(x), strip(y)
            if y.get('k') == 'null' or y.get('k') == 'int' and y.get('v') == 0 and (pointer(x.get('t'))):
                if op not in ('==', '!='):
                    continue
                if x.get('k') == 'call' and name(x) == 'get' and x.get('a'):
                    x = strip(x['a'][0])
                if pointer(x.get('t')):
                    return [('n', self.place(x, st))], op == '!='
            if y.get('k') == 'call' and (name(y) in ('end', 'cend') or y.get('q') in ('std::end', 'std::cend')) and op in ('==', '!='):
                if x.get('k') == 'call' and name(x) == 'find' and x.get('m') and len(x.get('a', [])) > 1:
                    return [('f', (self.place(x['a'][0], st), self.txt(x['a'][1])))], op == '!='
                p = self.place(x, st)
                if p is not None:
                    out = [('n', p)]
                    src = st.get(('src', p))
                    if src:
                        out += [('f', f) for f in src]
                    return out, op == '!='
            # an iterator compared with a variable that holds the end
            if op in ('==', '!=') and ITER.search(unq(x.get('t', ''))) and ITER.search(unq(y.get('t', ''))):
                px, py = self.place(x, st), self.place(y, st)
                if py is not None and px is not None and ('end', py) in st:
                    return [('n', px)], op == '!='
            if x.get('k') == 'call' and x.get('m') and name(x) == 'count' and len(x.get('a', [])) > 1 and y.get('k') == 'int':
                v = y.get('v')
                left = strip(ab[0]) is x or strip(ab[0]).get('l') == x.get('l') and strip(ab[0]).get('k') == 'call'
                f = [('f', (self.place(x['a'][0], st), self.txt(x['a'][1])))]
                if (op, v) in (('!=', 0), ('>', 0), ('>=', 1), ('==', 1)) and left:
                    return f, True
                if (op, v) in (('==', 0), ('<', 1), ('<=', 0), ('!=', 1)) and left:
                    return f, False
                if (op, v) in (('!=', 0), ('<', 0)) and not left:
                    return f, True
                if (op, v) == ('==', 0) and not left:
                    return f, False
        return None

    def known(self, keys, st):
        st = dict(st)
        for k in keys:
            if k[1] is None:
                continue
            if k[0] == 'n':
                for p in self.same(k[1], st):
                    st[('n', p)] = frozenset('T')
            elif k[1][0] is not None:
                st[k] = True
                for kk, f in list(st.items()):
                    if kk[0] == 'src' and k[1] in f:
                        st[('n', kk[1])] = frozenset('T')
        return st

    def unknown(self, keys, st):
        """the test says it is null"""
        st = dict(st)
        for k in keys:
            if k[0] == 'n' and k[1] is not None:
                for p in self.same(k[1], st):
                    st[('n', p)] = frozenset('N')
        return st

    @staticmethod
    def same(p, st):
        out = {p}
        for k, v in st.items():
            if k[0] == 'alias' and (k[1] in out or v in out):
                out |= {k[1], v}
        return out

    def cond(self, e, st, quiet=False):
        if st is None:
            return None, None
        x = strip(e)
        k = x.get('k')
        if k == 'un' and x.get('op') == '!':
            t, f = self.cond(x['e'], st, quiet)
            return f, t
        if k == 'call' and x.get('m') and name(x) == 'operator!' and x.get('a'):
            t, f = self.cond(x['a'][0], st, quiet)
            return f, t
        if k == 'bin' and x.get('op') == '&&':
            t, f = self.cond(x['a'], st, quiet)
            t2, f2 = self.cond(x['b'], t, quiet)
            return t2, self.join(f, f2)
        if k == 'bin' and x.get('op') == '||':
            t, f = self.cond(x['a'], st, quiet)
            t2, f2 = self.cond(x['b'], f, quiet)
            return self.join(t, t2), f2
        if k == 'bool':
            return (st, None) if x.get('v') else (None, st)
        if k == 'bin' and x.get('op') in ('==', '!='):
            for y, z in ((x['a'], x['b']), (x['b'], x['a'])):
                c = strip(z)
                if c.get('k') == 'bool':
                    t, f = self.cond(y, st, quiet)
                    return (t, f) if c.get('v') is (x['op'] == '==') else (f, t)
        if k == 'ref' and x.get('id') in self.cur['tests']:
            y = strip(self.cur['tests'][x['id']])
            if y.get('k') != 'ref':
                return self.cond(y, st, True)
        if k == 'call' and x.get('t') == 'bool' and x.get('fn') not in self.lams:
            y = self.expand(x)
            if y is not None:
                if not quiet:
                    st = self.expr(x, st)
                return self.cond(y, st, True)
        w = self.tested(x, st)
        if not quiet:
            st = self.expr(x, st, test=True)
        if w is None and st is not None and k == 'call' and x.get('t') == 'bool' and id(x) in self.answers:
            return self.answered(x, st)
        if w is None or st is None:
            return st, st
        keys, sense = w
        y, z = self.known(keys, st), self.unknown(keys, st)
        return (y, z) if sense else (z, y)

    def answered(self, x, st):
        """what the answer of a function says about its object and arguments"""
        t, mk, ren = self.answers[id(x)]
        a = x.get('a', [])
        off = 1 if x.get('m') else 0
        out = []
        for ts in self.truth.get(mk, (None, None)):
            if ts is None:
                out.append(None if mk in self.truth else st)
                continue
            keys = []
            ids = {'v%s' % p['id']: a[i + off] for i, p in enumerate(t.params) if i + off < len(a)}
            for k, v in ts.items():
                pl = k[1][0] if k[0] == 'f' else k[1]
                for c, p in ren:
                    if pl == p or pl.startswith((p + '.', p + '->', p + '[')):
                        q = c + pl[len(p):]
                        break
                else:
                    if k[0] == 'n' and pl in ids and self.place(ids[pl], st) is not None:
                        q = self.place(ids[pl], st)
                    else:
                        continue
                if k[0] == 'n':
                    if v == frozenset('T'):
                        keys.append(('n', q))
                    continue
                tx = k[1][1]
                vs = set(re.findall(r'\bv\d+\b', tx))
                if vs <= set(ids):
                    for y in vs:
                        tx = re.sub(r'\b%s\b' % y, lambda m: self.txt(ids[y]), tx)
                    keys.append(('f', (q, tx)))
            out.append(self.known(keys, st))
        return tuple(out) if len(out) == 2 else (st, st)

    def expand(self, x):
        """a helper that returns one expression, written out with the arguments of the call"""
        g = self.g.fns.get(x.get('fn'))
        if g is None or x.get('virt') or g.body is None:
            return None
        b = [s for s in g.body.get('s', []) if s.get('k') != 'nop']
        if len(b) != 1 or b[0].get('k') != 'return' or b[0].get('e') is None:
            return None
        a = x.get('a', [])
        off = 1 if x.get('m') else 0
        mp = {p['id']: a[i + off] for i, p in enumerate(g.params) if i + off < len(a)}

        def sub(n):
            if isinstance(n, list):
                return [sub(y) for y in n]
            if not isinstance(n, dict):
                return n
            if n.get('k') == 'ref' and n.get('vk') == 'param' and n.get('id') in mp:
                return mp[n['id']]
            if n.get('k') == 'this' and off:
                o = a[0]
                return o if unq(strip(o).get('t', '')).endswith('*') else {'k': 'un', 'op': '&', 'e': o, 't': unq(strip(o).get('t', '')) + ' *', 'l': x.get('l')}
            return {kk: sub(v) for kk, v in n.items()}
        if off and strip(a[0]).get('k') != 'this' and any(n.get('k') == 'this' for n in walk(b[0]['e'])):
            return None
        return sub(b[0]['e'])

    # ------------------------------------------------------------ what a value refers into
    def targets(self, e, st):
        """-> frozenset of places, or None when not known"""
        if isinstance(e, dict) and e.get('k') == 'cast':
            return self.targets(e['e'], st)
        e = strip(e)
        k = e.get('k')
        if k == 'null':
            return frozenset()
        if k == 'cond':
            a, b = self.targets(e['a'], st), self.targets(e['b'], st)
            return None if a is None and b is None else (a or frozenset()) | (b or frozenset())
        if k == 'un' and e.get('op') == '&':
            p = self.place(e['e'], st)
            return None if p is None else frozenset({p})
        if k in ('ref', 'mem'):
            p = self.place(e, st)
            h = st.get(('h', p)) if p is not None else None
            if h is not None:
                return h
            return None
        if k == 'ctor':
            a = e.get('a', [])
            if ARCIT.match(unq(e.get('clst', ''))) and a:
                y = strip(a[0])
                if y.get('k') == 'un' and y.get('op') == '&':
                    y = y['e']
                p = self.place(y, st)
                return None if p is None else frozenset({p + '[]'})
            if len(a) >= 1 and (ITER.search(unq(e.get('clst', ''))) or VIEW.match(unq(e.get('t', '')))):
                y = strip(a[0])
                if VIEW.match(unq(e.get('t', ''))) and not VIEW.match(unq(y.get('t', ''))) and unq(y.get('t', '')).startswith('std::basic_string<'):
                    return self.inside(y, st)
                return self.targets(a[0], st)
            return None
        if k == 'un' and e.get('op') in ('++', '--'):
            return self.targets(e['e'], st)
        if k == 'bin' and e.get('op') in ('+', '-') and unq(e.get('t', '')).endswith('*'):
            return self.targets(e['a'], st)
        if k == 'asg':
            return self.targets(e['b'], st)
        if k == 'call':
            a, n, q = e.get('a', []), name(e), e.get('q', '')
            if e.get('m') and a:
                ot = unq(e.get('clst', '')) or unq(strip(a[0]).get('t', ''))
                if n == 'get' and SMART.match(ot):
                    return self.behind(a[0], st)
                if ITER.search(ot) and n in ('operator++', 'operator--', 'operator+', 'operator-', 'base', 'operator+=', 'operator-='):
                    return self.targets(a[0], st)
                if n == 'operator basic_string_view':
                    return self.inside(a[0], st)
                if e.get('lv') and unq(e.get('t', '')).endswith('*'):
                    return None   # the value of an element
                if (ANY.match(ot) or VIEW.match(ot)) and n in INTO and (ITER.search(unq(e.get('t', ''))) or unq(e.get('t', '')).endswith('*')):
                    if VIEW.match(ot):
                        return self.targets(a[0], st)
                    return self.inside(a[0], st)
            if not e.get('m') and a and (SEARCH.match(q) or q in ('std::next', 'std::prev', 'std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::remove_if', 'std::remove', 'std::unique')):
                if q.split('::')[-1] in ('begin', 'end', 'cbegin', 'cend'):
                    return self.inside(a[0], st)
                return self.targets(a[0], st)
            if not e.get('m') and e.get('op') in ('+', '-') and a and ITER.search(unq(e.get('t', ''))):
                return self.targets(a[0], st)
            s = self.callsum(e)
            if s is not None and s[1]:
                out = set()
                off = 1 if e.get('m') else 0
                for r in s[1]:
                    if r.startswith('!'):
                        out.add(r)
                        continue
                    if r.startswith('this'):
                        b = self.objof(a[0], st) if a and e.get('m') else None
                        if b is not None:
                            out.add(b + r[4:])
                    elif r[0] == 'p':
                        x = re.match(r'p(\d+)(.*)$', r)
                        i = int(x.group(1)) + off
                        b = self.place(a[i], st) if i < len(a) else None
                        if b is not None:
                            out.add(b + x.group(2))
                return frozenset(out) if out else None
        return None

    def objof(self, o, st):
        p = self.place(o, st)
        if p is None or p == 'this':
            return p
        return self.deref(p, st) if unq(strip(o).get('t', '')).endswith('*') else p

    def temporary(self, e):
        """is the value an object that ends with the full expression?"""
        e = strip(e)
        k = e.get('k')
        if k == 'call':
            if e.get('lv') or unq(e.get('t', '')).endswith('*'):
                return False
            return True
        if k == 'ctor':
            return True
        if k == 'bin' or k == 'str':
            return False
        if k == 'mem':
            return not unq(strip(e['b']).get('t', '')).endswith('*') and self.temporary(e['b'])
        return False

    def inside(self, e, st):
        if self.temporary(e):
            return frozenset({'!the end of a temporary at line %s' % strip(e).get('l', '?')})
        p = self.place(e, st)
        return None if p is None else frozenset({p + '[]'})

    def behind(self, e, st):
        """what a smart pointer points to"""
        y = strip(e)
        t = unq(y.get('t', ''))
        p = self.place(y, st)
        if p is not None:
            c = st.get(('c', p))
            if c:
                return frozenset(x + '->' for x in c)
            if 'unique_ptr' in t:
                return frozenset({p + '->'})
            return None if p.startswith('v') and '.' not in p and '[' not in p else frozenset({p + '->'})
        if y.get('k') == 'call':
            if 'unique_ptr' in t and self.temporary(y):
                return frozenset({'!the end of a temporary at line %s' % y.get('l', '?')})
            s = self.callsum(y)
            if s is not None and s[1]:
                r = self.targets(y, st)
                return None if r is None else frozenset(x if x.startswith('!') else x + '->' for x in r)
            if self.loneowner(y):
                return frozenset({'!the end of a temporary at line %s' % y.get('l', '?')})
        return None

    def loneowner(self, y):
        """a shared pointer made or handed out by this repository that nothing seen here keeps"""
        y = strip(y)
        t = unq(y.get('t', ''))
        if 'shared_ptr' not in t or 'spdlog' in t or y.get('lv') or y.get('k') != 'call' or y.get('fn') in self.lams:
            return False
        if y.get('q') == 'std::make_shared':
            return True
        s = self.callsum(y)
        return s is not None and not s[1]

    # ------------------------------------------------------------ binding a variable
    def bind(self, p, e, t, st, n, ref=False, vid=None):
        """p (a place) gets the value e"""
        if st is None or p is None:
            return st
        st = dict(st)
        tt = unq(t)
        for k in [k for k in st if k[0] == 'alias' and (k[1] == p or st[k] == p) or k[0] in ('via', 'src', 'end') and k[1] == p or k[0] == 'f' and re.search(r'\b%s\b' % re.escape(p), str(k[1]))]:
            del st[k]
        for k in ('iters', 'arcs', 'lasts'):
            if p in st.get((k,), ()):
                st[(k,)] = st[(k,)] - {p}
        x = strip(e) if e is not None else {}
        if pointer(tt) or ITER.search(tt):
            s = self.status(e, st) if e is not None else frozenset('N' if SMART.match(tt) else 'T')
            st[('n', p)] = s
            self.noteNull(p, n, s)
            src = x
            y = strip(x['a'][0]) if x.get('k') == 'call' and x.get('m') and name(x) == 'get' and x.get('a') and SMART.match(unq(x.get('clst', ''))) else x
            if y.get('k') in ('ref', 'mem'):
                z = self.place(y, st)
                if z is not None and z != p:
                    st[('alias', p)] = z
            if src.get('k') == 'call' and src.get('m') and name(src) == 'find' and len(src.get('a', [])) > 1 and ITER.search(tt):
                pl = self.place(src['a'][0], st)
                if pl is not None:
                    st[('src', p)] = frozenset({(pl, self.txt(src['a'][1]))})
            if src.get('k') == 'call' and name(src) in ('end', 'cend'):
                st[('end', p)] = True
        if ref or unq(t).endswith('*') or ITER.search(tt) or VIEW.match(tt) or ARCIT.match(tt):
            if ref:
                if self.temporary(e) and not self.extended(e):
                    h = frozenset({'!the end of a temporary at line %s' % x.get('l', '?')})
                else:
                    if x.get('k') == 'call' and x.get('m') and name(x) in INTO and x.get('a') and not self.place(x, st):
                        h = None
                        if self.temporary(x['a'][0]) and x.get('lv') and (ANY.match(unq(x.get('clst', ''))) or 'unique_ptr' in x.get('clst', '') or self.loneowner(x['a'][0])):
                            h = frozenset({'!the end of a temporary at line %s' % x.get('l', '?')})
                    else:
                        q = self.place(e, st)
                        h = None if q is None else frozenset({q})
                    if h is None:
                        h = self.targets(e, st)
                if vid is not None:
                    st[('r', vid)] = True
                for z in walk(x):
                    if z.get('k') == 'call' and name(z) in ('operator*', 'operator->') and z.get('a') and strip(z['a'][0]).get('k') == 'ref' and ITER.search(unq(strip(z['a'][0]).get('t', ''))):
                        st[('via', p)] = 'v%s' % strip(z['a'][0])['id']
            else:
                h = self.targets(e, st) if e is not None else None
                if ITER.search(tt):
                    st[('iters',)] = st.get(('iters',), frozenset()) | {p}
            y = strip(x['e']) if x.get('k') == 'un' and x.get('op') == '&' else x
            if y.get('k') == 'call' and name(y) in ('back', 'front'):
                st[('lasts',)] = st.get(('lasts',), frozenset()) | {p}
            if ARCIT.match(tt) or h and any(('h', z) in st and False for z in h):
                st[('arcs',)] = st.get(('arcs',), frozenset()) | {p}
            if y.get('k') == 'call' and name(y) == 'Value' and y.get('a') and ARCIT.match(unq(strip(y['a'][0]).get('t', ''))):
                st[('arcs',)] = st.get(('arcs',), frozenset()) | {p}
                h = self.targets(y['a'][0], st)
            if h is None:
                st.pop(('h', p), None)
            else:
                st[('h', p)] = h
                if h:
                    self.site(n, 'holds ' + p)
                for t1 in h:
                    if t1.startswith('!the end of a temporary'):
                        pass
        elif SMART.match(tt):
            c = None
            q = self.place(e, st) if e is not None else None
            if q is not None and 'shared_ptr' in tt:
                c = st.get(('c', q)) or (frozenset({q}) if not re.match(r'v\d+$', q) else None)
            elif x.get('k') == 'call':
                r = self.targets(x, st)
                c = r
            if c:
                st[('c', p)] = c
            else:
                st.pop(('c', p), None)
        # what the object held before is gone
        for k in [k for k in st if k[0] in ('n', 'h', 'c') and k[1] != p and (k[1].startswith(p + '.') or k[1].startswith(p + '->') or k[1].startswith(p + '['))]:
            del st[k]
        return st

    def noteNull(self, p, n, s):
        if 'N' in s and n.get('field'):
            self.newnull.add(n['field'])

    def extended(self, e):
        """a reference bound to a temporary keeps it alive"""
        e = strip(e)
        if e.get('k') == 'mem':
            return self.extended(e['b'])
        return e.get('k') in ('call', 'ctor')

    # ------------------------------------------------------------ statements
    def stmt(self, s, st):
        if s is None:
            return st
        if isinstance(s, list):
            for x in s:
                st = self.stmt(x, st)
            return st
        k = s.get('k')
        if st is None and k not in ('case', 'default', 'block', 'label'):
            return None
        if k == 'block':
            st = self.stmt(s['s'], st)
            return self.ended([v['id'] for d in s['s'] if d.get('k') == 'decl' for v in d['v'] if not v.get('static') and not v.get('ref')], st, s, s.get('el') or s.get('l'))
        if k == 'decl':
            for v in s['v']:
                if st is None:
                    return None
                st = self.declare(v, st)
            return st
        if k == 'expr':
            return self.expr(s['e'], st)
        if k == 'return':
            e = s.get('e')
            if e is not None and self.cur['f'].d.get('rt') == 'bool' and not self.cur.get('lambda'):
                t, f = self.cond(e, st)
                self.cur['truth'] = [self.join(self.cur['truth'][0], t), self.join(self.cur['truth'][1], f)]
                st = self.join(t, f)
            else:
                st = self.expr(e, st) if e is not None else st
            if st is not None:
                self.leave(e, st, s)
            return None
        if k == 'throw':
            self.expr(s.get('e'), st)
            return None
        if k in ('break', 'continue'):
            if self.cur['loops']:
                self.cur['loops'][-1][k].append(st)
            return None
        if k == 'if':
            if isinstance(s.get('init'), (dict, list)):
                st = self.stmt(s['init'], st)
            c = s['c']
            if c.get('k') == 'decl':
                st = self.stmt(c, st)
                v = c['v'][-1]
                p = 'v%s' % v['id']
                t, f = self.known([('n', p)], st), self.unknown([('n', p)], st)
            else:
                t, f = self.cond(c, st)
            return self.join(self.stmt(s.get('a'), t), self.stmt(s.get('b'), f))
        if k in ('while', 'for', 'rfor', 'do'):
            return self.loop(s, st)
        if k == 'switch':
            st = self.expr(s['c'], st)
            self.cur['loops'].append({'break': [], 'continue': []})
            self.cur['sw'].append(st)
            out = self.stmt(s['s'], None)
            self.cur['sw'].pop()
            if not any(n.get('k') == 'default' for n in walk(s['s'])):
                out = self.join(out, st)
            l = self.cur['loops'].pop()
            for b in l['break']:
                out = self.join(out, b)
            if l['continue'] and self.cur['loops']:
                self.cur['loops'][-1]['continue'] += l['continue']
            return out
        if k in ('case', 'default'):
            return self.stmt(s.get('s'), self.join(st, self.cur['sw'][-1]))
        if k == 'try':
            out = self.stmt(s['s'], st)
            for h in s.get('h', []):
                out = self.join(out, self.stmt(h.get('s'), st))
            return out
        return self.expr([v for kk, v in sorted(s.items()) if isinstance(v, (dict, list))], st)

    def loop(self, s, st):
        k = s['k']
        if k == 'for':
            st = self.stmt(s.get('init'), st)
        hid = None
        if k == 'rfor':
            st = self.expr(s.get('r'), st)
            if st is None:
                return None
            r = strip(s.get('r') or {})
            rt = unq(s.get('rt') or r.get('t', ''))
            if ANY.match(rt) or ANY.match(unq(r.get('t', ''))):
                p = self.place(r, st)
                if p is not None:
                    hid = '#%s' % id(s)
                    st = {**st, ('h', hid): frozenset({p + '[]'}), ('iters',): st.get(('iters',), frozenset()) | {hid}}
                    self.site(s, 'loops over ' + self.label(r))
                elif self.danglingrange(r):
                    self.bad(s, 'loops over ' + self.label(r), 'loops over a part of a temporary that has ended')
        c = s.get('c')
        forever = k == 'for' and c is None or isinstance(c, dict) and strip(c).get('k') == 'bool' and strip(c).get('v') is True
        res = None
        for rnd in range(6):
            if st is None:
                return None
            if hid:
                dead = [t for t in st.get(('h', hid), ()) if t.startswith('!')]
                if dead:
                    self.bad(s, 'loops over ' + self.label(s['r']), 'goes on looping over %s after its %s' % (self.label(s['r']), dead[0][1:]))
                    st = {**st, ('h', hid): frozenset(t for t in st[('h', hid)] if not t.startswith('!'))}
            t, f = (st, None if forever else st) if c is None or k == 'do' else self.cond(c, st)
            if k == 'rfor' and t is not None:
                v = s['v']
                p = 'v%s' % v['id']
                t = {kk: vv for kk, vv in t.items() if not (kk[0] in ('n', 'c', 'h', 'via') and (kk[1] == p or kk[1].startswith(p + '.') or kk[1].startswith(p + '->')))}
                if hid:
                    base = next((x for x in st[('h', hid)] if not x.startswith('!')), None)
                    if base and v.get('ref'):
                        t[('h', p)] = frozenset({base})
                        t[('r', v['id'])] = True
                    elif base and SMART.match(unq(v.get('t', ''))):
                        t[('c', p)] = frozenset({base})
                if pointer(v.get('t')):
                    t[('n', p)] = frozenset('T')
            self.cur['loops'].append({'break': [], 'continue': []})
            out = self.stmt(s.get('s'), t)
            l = self.cur['loops'].pop()
            for b in l['continue']:
                out = self.join(out, b)
            if k == 'rfor' and not s['v'].get('ref'):
                out = self.ended([s['v']['id']], out, s, s.get('l'))
                l['break'] = [self.ended([s['v']['id']], b, s, s.get('l')) for b in l['break']]
            if k == 'for':
                out = self.expr(s.get('inc'), out) if out is not None else None
            if k == 'do' and c is not None:
                out, f = self.cond(c, out) if out is not None else (None, None)
            res = f if not forever else None
            for b in l['break']:
                res = self.join(res, b)
            new = self.join(st, out)
            if new == st:
                break
            st = new
        if hid and res is not None:
            res = {kk: vv for kk, vv in res.items() if kk != ('h', hid)}
        if k == 'for' and isinstance(s.get('init'), dict) and s['init'].get('k') == 'decl':
            res = self.ended([v['id'] for v in s['init']['v'] if not v.get('ref')], res, s, s.get('l'))
        return res

    def danglingrange(self, r):
        """for (x : f().member()): the temporary f() has ended before the loop starts"""
        if r.get('k') == 'call' and r.get('m') and r.get('lv') and r.get('a') and self.temporary(r['a'][0]) and name(r) in INTO:
            return True
        return False

    def ended(self, ids, st, n, line):
        """locals go out of scope"""
        if st is None or not ids:
            return st
        st = dict(st)
        names = ['v%s' % i for i in ids]
        for k, v in list(st.items()):
            if k[0] == 'h' and k[1] not in names:
                hit = {t for t in v if any(t == p or t.startswith(p + '.') or t.startswith(p + '[') or (t.startswith(p + '->') and p in self.cur['owners']) for p in names)}
                if hit:
                    if not (k[1].startswith('v') or k[1].startswith('#')):
                        self.bad(dict(n, l=line), 'keeps ' + k[1], 'leaves %s referring to a local that has ended' % k[1])
                    st[k] = frozenset((v - hit) | {'!the end of its scope at line %s' % line})
        for k in list(st):
            if k[0] in ('n', 'h', 'c', 'via', 'src', 'end', 'alias') and any(k[1] == p or str(k[1]).startswith(p + '.') or str(k[1]).startswith(p + '->') for p in names):
                del st[k]
        return st

    def declare(self, v, st):
        i = v.get('init')
        p = 'v%s' % v['id']
        if OWNER.match(unq(v.get('t', ''))):
            self.cur['owners'].add(p)
        x = strip(i) if i is not None else {}
        if x.get('k') == 'ctor' and x.get('repo') and not v.get('ref') and unq(x.get('cls', '')) == unq(v.get('t', '')):
            st = self.args(x, st)
            st = self.repo(x, st, p) if st is not None else None
            if st is None:
                return None
            return st
        if i is not None:
            st = self.expr(i, st, bound=True)
            if st is None:
                return None
        if unq(v.get('t', '')) == 'bool' and i is not None and v['id'] not in self.cur['assigned']:
            self.cur['tests'][v['id']] = i
        if i is None and not (pointer(v.get('t')) and SMART.match(unq(v['t']))):
            return {k: x for k, x in st.items() if k[1:] and k[1] != p or not k[1:]}
        if v.get('static'):
            return st
        return self.bind(p, i, v.get('t', ''), st, {'l': v.get('l')}, bool(v.get('ref')), v['id'])

    def leave(self, e, st, s):
        cur = self.cur
        f = cur['f']
        if e is not None and not cur.get('lambda'):
            rt = f.d.get('rt', '')
            t = unq(rt)
            isref = rt.strip().endswith('&')
            if pointer(t) or ITER.search(t):
                cur['ret'] |= self.status(e, st)
            if isref or t.endswith('*') or ITER.search(t) or VIEW.match(t):
                if isref:
                    q = self.place(e, st)
                    h = frozenset({q}) if q is not None else self.targets(e, st)
                    if self.temporary(e):
                        h = frozenset({'!'})
                else:
                    h = self.targets(e, st)
                    if h is None and VIEW.match(t) and self.temporary(e):
                        h = frozenset({'!'})
                what = 'returns a reference or pointer'
                self.site(s, what)
                for x in h or ():
                    m = re.match(r'v(\d+)(.*)$', x)
                    local = m and int(m.group(1)) not in cur['refparams'] and int(m.group(1)) not in cur['statics'] and not m.group(2).startswith('->') and not m.group(2).startswith('*')
                    if x.startswith('!') or local:
                        self.bad(s, what, 'returns a reference or pointer to something that ends with the call')
                    elif x.startswith('this'):
                        cur['rplaces'].add(x)
                    elif m and int(m.group(1)) in cur['pidx']:
                        cur['rplaces'].add('p%d%s' % (cur['pidx'][int(m.group(1))], m.group(2)))
            elif SMART.match(t):
                q = self.place(e, st)
                c = st.get(('c', q)) if q is not None else None
                if q is not None and not c and (q.startswith('this.') or '[' in q):
                    c = {q}
                for x in c or ():
                    m = re.match(r'v(\d+)(.*)$', x)
                    if x.startswith('this'):
                        cur['rplaces'].add(x)
                    elif m and int(m.group(1)) in cur['pidx']:
                        cur['rplaces'].add('p%d%s' % (cur['pidx'][int(m.group(1))], m.group(2)))
        if not cur.get('lambda'):
            st = dict(st)
            for k, v in list(st.items()):
                if k[0] == 'h' and k[1].startswith('this.'):
                    for x in v:
                        m = re.match(r'v(\d+)(.*)$', x)
                        if m and int(m.group(1)) in cur['locals'] and not m.group(2).startswith('->') and not m.group(2).startswith('*'):
                            self.bad(s, 'keeps ' + k[1], 'leaves %s referring to a local that has ended' % k[1])
        cur['exits'].append(st)

    # ------------------------------------------------------------ expressions
    def use(self, e, st):
        """e mentions a variable that refers to something"""
        p = 'v%s' % e['id'] if e.get('k') == 'ref' else self.place(e, st)
        h = st.get(('h', p)) if p is not None else None
        if p is not None and e.get('k') == 'ref':
            for k, v in list(st.items()):
                if k[0] == 'h' and k[1].startswith(p + '.') and any(t.startswith('!') for t in v):
                    dead = sorted(t for t in v if t.startswith('!'))
                    self.bad(e, 'uses ' + self.label(e), 'uses %s, whose %s refers to something after %s' % (self.label(e), k[1][len(p) + 1:], dead[0][1:]))
                    st = {**st, k: frozenset(t for t in v if not t.startswith('!'))}
        if h:
            dead = sorted(t for t in h if t.startswith('!'))
            if dead:
                self.bad(e, 'uses ' + self.label(e), 'uses %s after %s' % (self.label(e), dead[0][1:]))
                return {**st, ('h', p): frozenset(t for t in h if not t.startswith('!'))}
        return st

    def expr(self, e, st, test=False, bound=False):
        if st is None or e is None:
            return st
        if isinstance(e, list):
            for x in e:
                st = self.expr(x, st)
            return st
        if not isinstance(e, dict):
            return st
        k = e.get('k')
        if k == 'lambda':
            return self.lam(e, st)
        if k == 'throw':
            self.expr(e.get('e'), st)
            return None
        if k == 'ref':
            return self.use(e, st) if e.get('vk') in ('local', 'param') else st
        if k == 'cond':
            t, f = self.cond(e['c'], st)
            return self.join(self.expr(e['a'], t), self.expr(e['b'], f))
        if k == 'bin' and e.get('op') in ('&&', '||'):
            t, f = self.cond(e, st)
            return self.join(t, f)
        if k == 'un' and e.get('op') == '!' or k == 'bin' and e.get('op') in ('==', '!=') and self.tested(e, st) is not None:
            pass
        if k == 'mem':
            st = self.expr(e['b'], st)
            if unq(strip(e['b']).get('t', '')).endswith('*') and strip(e['b']).get('k') != 'this' and not (strip(e['b']).get('k') == 'call' and name(strip(e['b'])) == 'operator->'):
                st = self.follow(e['b'], st, e, '->')
            if st is not None and unq(e.get('t', '')).endswith('*'):
                st = self.use(e, st)
            return st
        if k == 'un' and e.get('op') == '*':
            st = self.expr(e['e'], st)
            return self.follow(e['e'], st, e, '*')
        if k == 'un' and e.get('op') == '&' and strip(e['e']).get('k') in ('ref',):
            return self.expr(e['e'], st)
        if k == 'asg':
            a = strip(e['a'])
            st = self.expr(e['b'], st, bound=True)
            if st is None:
                return None
            if e.get('op') == '=' and a.get('k') in ('ref', 'mem', 'un', 'idx') and not (a.get('k') == 'ref' and ('r', a.get('id')) in st):
                if a.get('k') == 'mem':
                    st = self.expr(a['b'], st)
                    if st is not None and unq(strip(a['b']).get('t', '')).endswith('*') and strip(a['b']).get('k') != 'this':
                        st = self.follow(a['b'], st, a, '->')
                elif a.get('k') == 'un':
                    st = self.expr(a, st)
                elif a.get('k') == 'idx':
                    st = self.expr([a['a'], a.get('b') or a.get('i')], st)
                if st is None:
                    return None
                p = self.place(a, st)
                if pointer(a.get('t')) or ITER.search(unq(a.get('t', ''))):
                    n = {'l': e.get('l')}
                    if a.get('k') == 'mem':
                        n['field'] = (a.get('own'), a['f'])
                    return self.bind(p, e['b'], a.get('t', ''), st, n)
                return self.killfacts(p, st)
            return self.expr(e['a'], st)
        if k == 'ctor':
            st = self.args(e, st)
            if st is None:
                return None
            if e.get('cls') == 'std::basic_string' and e.get('a') and re.sub(r'\bconst\b', '', strip(e['a'][0]).get('t', '')).replace(' ', '') == 'char*':
                st = self.follow(e['a'][0], st, e, 'string')
            return self.moved(e, self.repo(e, st), bound)
        if k == 'call':
            return self.call(e, st, test, bound)
        for kk, v in sorted(e.items()):
            if isinstance(v, (dict, list)):
                st = self.expr(v, st)
        if k == 'un' and e.get('op') in ('++', '--') and strip(e['e']).get('k') == 'ref':
            st = self.killfacts('v%s' % strip(e['e'])['id'], st) if st is not None else None
        return st

    def killfacts(self, p, st):
        if p is None or st is None:
            return st
        bad = [k for k in st if k[0] == 'f' and re.search(r'(?<![\w.])%s(?!\w)' % re.escape(p), str(k[1][1]))]
        return {k: v for k, v in st.items() if k not in bad} if bad else st

    def lam(self, e, st):
        key = e.get('fn')
        if key in self.stack or len(self.stack) > 25:
            return st
        self.stack.append(key)
        cur = self.cur
        self.cur = dict(cur, loops=[], sw=[], exits=[], **{'lambda': True})
        inner = dict(self.without(st, e.get('p', [])))
        for p in e.get('p', []):
            if pointer(p.get('t')):
                inner[('n', 'v%s' % p['id'])] = frozenset('T')
        self.stmt(e.get('body'), inner)
        self.cur = cur
        self.stack.pop()
        return st

    @staticmethod
    def without(st, params):
        """parameters of a lambda are new in every call"""
        if st is None or not params:
            return st
        vs = {'v%s' % p['id'] for p in params}
        ids = {p['id'] for p in params}

        def own(k):
            return k[0] == 'r' and k[1] in ids or len(k) > 1 and isinstance(k[1], str) and (k[1] in vs or re.match(r'v\d+', k[1]) is not None and re.match(r'v\d+', k[1]).group(0) in vs)
        return {k: v for k, v in st.items() if not own(k)}

    def args(self, e, st):
        for x in e.get('a', []):
            st = self.expr(x, st, bound=True)
            if st is None:
                return None
        return st

    def moved(self, e, st, bound=False):
        """std::move of a smart pointer that is really taken leaves it null"""
        if st is None or e.get('k') == 'call' and e.get('q') in ('std::move', 'std::forward'):
            return st
        off = 1 if e.get('k') == 'call' and e.get('m') else 0
        for i, x in enumerate(e.get('a', [])):
            y = x
            while isinstance(y, dict) and y.get('k') == 'cast':
                y = y['e']
            if isinstance(y, dict) and y.get('k') == 'call' and y.get('q') == 'std::move' and y.get('a'):
                z = strip(y['a'][0])
                taken = e.get('k') == 'ctor' or name(e) in ('push_back', 'emplace_back', 'insert', 'emplace', 'operator=', 'swap')
                if SMART.match(unq(z.get('t', ''))) and z.get('k') in ('ref', 'mem') and taken:
                    p = self.place(z, st)
                    if p is not None:
                        st = {k: v for k, v in st.items() if not (k[0] == 'alias' and p in (k[1], v))}
                        st = {**st, ('n', p): frozenset('N')}
        return st

    def call(self, e, st, test=False, bound=False):
        a = e.get('a', [])
        n = name(e)
        q = e.get('q', '')
        if NORETURN.match(q):
            self.args(e, st)
            return None
        w = self.tested(e, st) if e.get('op') in ('==', '!=') else None
        if e.get('op') == '=' and len(a) == 2:
            x = strip(a[0])
            tt = unq(x.get('t', ''))
            if x.get('k') in ('ref', 'mem') and (ITER.search(tt) or SMART.match(tt) or VIEW.match(tt)) and not (x.get('k') == 'ref' and ('r', x.get('id')) in st):
                st = self.expr(a[1], st, bound=True)
                if st is not None and x.get('k') == 'mem':
                    st = self.expr(x['b'], st)
                    if st is not None and unq(strip(x['b']).get('t', '')).endswith('*') and strip(x['b']).get('k') != 'this':
                        st = self.follow(x['b'], st, x, '->')
                if st is None:
                    return None
                p = self.place(x, st)
                for c, op, ct, arg in self.opof(e):
                    st = self.invalidate(st, self.place(c, st), op, ct, arg, e)
                nn = {'l': e.get('l')}
                if x.get('k') == 'mem':
                    nn['field'] = (x.get('own'), x['f'])
                return self.moved(e, self.bind(p, a[1], x.get('t', ''), st, nn))
        if n in ('operator->', 'operator*') and e.get('m') and a:
            st = self.expr(a[0], st)
            if st is None:
                return None
            ot = unq(e.get('clst', ''))
            if SMART.match(ot) or ITER.search(ot):
                st = self.follow(a[0], st, e, '->')
            return st
        if e.get('m') and a:
            st = self.expr(a[0], st)
            if st is None:
                return None
            o = strip(a[0])
            if e.get('arrow') and unq(o.get('t', '')).endswith('*') and o.get('k') != 'this' and not (o.get('k') == 'call' and name(o) == 'operator->'):
                st = self.follow(a[0], st, e, '->')
            for x in a[1:]:
                st = self.expr(x, st, bound=True)
                if st is None:
                    return None
        else:
            st = self.args(e, st)
        if st is None:
            return None
        if logging(e):
            return st
        # erasing the end of a container, or advancing
        if n == 'erase' and e.get('m') and len(a) == 2 and ANY.match(unq(e.get('clst', ''))) and ITER.search(unq(strip(a[1]).get('t', ''))):
            s = self.status(a[1], st)
            if 'N' in s:
                self.bad(e, 'erases ' + self.label(a[1]), 'erases %s, which may be past the last element' % self.label(a[1]))
        if n == 'reserve' and e.get('m') and VEC.match(unq(e.get('clst', ''))):
            p = self.place(a[0], st)
            if p is not None:
                st = self.invalidate(st, p, 'reserve', unq(e['clst']), None, e)
                return {**st, ('reserved', p): True}
        if n in ('reset', 'release') and e.get('m') and a and SMART.match(unq(e.get('clst', ''))):
            p = self.place(a[0], st)
            if p is not None:
                for c, op, ct, arg in self.opof(e):
                    st = self.invalidate(st, p, op, ct, arg, e)
                null = n == 'release' or len(a) < 2
                s = frozenset('N') if null else self.status(a[1], st)
                if 'N' in s and strip(a[0]).get('k') == 'mem':
                    self.newnull.add((strip(a[0]).get('own'), strip(a[0])['f']))
                st = {k: v for k, v in st.items() if not (k[0] == 'alias' and p in (k[1], v))}
                return {**st, ('n', p): s}
        for c, op, ct, arg in self.opof(e):
            st = self.invalidate(st, self.place(c, st), op, ct, arg, e)
        # inserting under a key makes the key present
        if e.get('m') and len(a) > 1 and n in ('insert', 'emplace', 'operator[]', 'try_emplace') and (NODE.match(unq(e.get('clst', ''))) or HASH.match(unq(e.get('clst', '')))):
            p = self.place(a[0], st)
            if p is not None and (n in ('operator[]', 'try_emplace') or 'set<' in unq(e.get('clst', '')).split('<')[0] + '<' or n == 'emplace' and len(a) > 2):
                st = self.known([('f', (p, self.txt(a[1])))], st)
            elif p is not None:
                y = strip(a[1])
                if y.get('a') and (y.get('q', '') == 'std::make_pair' or 'pair' in y.get('cls', '')):
                    st = self.known([('f', (p, self.txt(y['a'][0])))], st)
        # a shared pointer that is put into a container lives there as well
        if e.get('m') and len(a) > 1 and n in ('push_back', 'insert', 'emplace', 'emplace_back'):
            y = strip(a[-1])
            if y.get('k') == 'ref' and 'shared_ptr' in unq(y.get('t', '')):
                p = self.place(a[0], st)
                if p is not None:
                    kk = ('c', 'v%s' % y['id'])
                    st = {**st, kk: st.get(kk, frozenset()) | {p + '[]'}}
        st = self.moved(e, st)
        # scalars changed through references
        pw = e.get('pw', [])
        off = 1 if e.get('m') else 0
        for i, x in enumerate(a[off:]):
            if i < len(pw) and pw[i] in (1, 2):
                y = strip(x)
                if y.get('k') == 'un' and y.get('op') == '&':
                    y = strip(y['e'])
                p = self.place(y, st)
                st = self.killfacts(p, st)
        return self.repo(e, st)

    def repo(self, e, st, obj=None):
        """a call of functions of this repository: they are analysed with what is known here, and what they change is taken over"""
        if e.get('fn') in self.lams and e.get('k') == 'call':
            f, l = self.lams[e['fn']]
            if e['fn'] in self.stack or len(self.stack) > 25:
                return st
            self.stack.append(e['fn'])
            cur = self.cur
            self.cur = dict(cur, loops=[], sw=[], exits=[], **{'lambda': True})
            a = e.get('a', [])
            off = max(0, len(a) - len(l.get('p', [])))
            inner = dict(st)
            for p, x in zip(l.get('p', []), a[off:]):
                inner = self.bind('v%s' % p['id'], x, p.get('t', ''), inner, {'l': e.get('l')}, bool(p.get('ref')), p['id'])
            out = self.stmt(l.get('body'), inner)
            for x in self.cur['exits']:
                out = self.join(out, x)
            self.cur = cur
            self.stack.pop()
            return self.without(out, l.get('p', []))
        ts = [t for t in self.g.targets(e) if t.key in self.g.reach and t.body is not None]
        if made(e):
            ts = [t for t in ts if t.key == e.get('fn')]
        if not ts:
            return st
        a = e.get('a', [])
        off = 1 if e.get('m') and e.get('k') == 'call' else 0
        if off:
            obj = self.objof(a[0], st)
        res = None
        for t in ts:
            entry = {}
            ren = []   # (caller prefix, callee prefix)
            if obj is not None and not e.get('static'):
                ren.append((obj, 'this'))
            for p, x in zip(t.params, a[off:]):
                v = 'v%s' % p['id']
                if p.get('ref'):
                    q = self.place(x, st)
                    if q is not None:
                        ren.append((q, v))
                        if ('n', q) in st:
                            entry[('n', v)] = st[('n', q)]
                        elif pointer(p['t']) or ITER.search(unq(p['t'])):
                            entry[('n', v)] = self.status(x, st)
                    elif pointer(p['t']) or ITER.search(unq(p['t'])):
                        entry[('n', v)] = self.status(x, st)
                elif pointer(p['t']) or ITER.search(unq(p['t'])):
                    entry[('n', v)] = self.status(x, st)
                    y = strip(x)
                    if y.get('k') == 'un' and y.get('op') == '&':
                        q = self.place(y['e'], st)
                        if q is not None:
                            ren.append((q, v + '->'))
            for k, s in st.items():
                if k[0] == 'n':
                    for c, v in ren:
                        if c == 'this' and k[1].startswith('this.') or k[1].startswith(c + '.') or k[1].startswith(c + '->'):
                            entry[('n', v + k[1][len(c):])] = s
                            break
            out = self.analyse(t, entry)
            if len(ts) == 1:
                self.answers[id(e)] = (t, (t.key, frozenset(entry.items())), ren)
            # what it does to containers
            s2 = st
            for r, op, ct in sorted(self.mods.get(t.key, ())):
                if r.startswith('this'):
                    b = obj + r[4:] if obj is not None else None
                else:
                    x = re.match(r'p(\d+)(.*)$', r)
                    i = int(x.group(1)) + off
                    tail = x.group(2)
                    y = strip(a[i]) if i < len(a) else {}
                    if y.get('k') == 'un' and y.get('op') == '&' and tail.startswith('->'):
                        b = self.place(y['e'], st)
                        tail = tail[2:]
                    else:
                        b = self.place(a[i], st) if i < len(a) else None
                    b = None if b is None else b + tail
                s2 = self.invalidate(s2, b, op, ct, None, dict(e, l=e.get('l')))
            if out is None:
                continue
            s2 = dict(s2)
            if obj is not None and self.holds.get(t.key):
                for fl, ps in self.holds[t.key].items():
                    hs = set()
                    for y in ps:
                        for p, x in zip(t.params, a[off:]):
                            v = 'v%s' % p['id']
                            if y == v + '->' and not p.get('ref'):
                                z = self.targets(x, st)
                                hs |= z or set()
                            elif y == v and p.get('ref'):
                                q = self.place(x, st)
                                if q is not None:
                                    hs.add(q)
                                elif self.temporary(x):
                                    hs.add('!the end of a temporary at line %s' % strip(x).get('l', '?'))
                    if hs:
                        s2[('h', obj + fl[4:])] = frozenset(hs)
            for k in [k for k in s2 if k[0] in ('n',)]:
                for c, v in ren:
                    if (c == 'this' and k[1].startswith('this.') or k[1].startswith(c + '.') or k[1].startswith(c + '->')) and ('n', v + k[1][len(c):]) not in out:
                        del s2[k]
                        break
            for k, s in out.items():
                if k[0] != 'n':
                    continue
                for c, v in ren:
                    if k[1] == v and v != 'this' or k[1].startswith(v + '.') or k[1].startswith(v + '->'):
                        s2[('n', c + k[1][len(v):])] = s
                        break
            res = self.join(res, s2)
        return res

    def declares(self, cls, field):
        r = self.g.prog.recs.get(cls) or {}
        if any(x['n'] == field for x in r.get('f', [])):
            return cls
        for b in r.get('bases', []):
            d = self.declares(b, field)
            if d:
                return d
        return None if r is None or cls not in self.g.prog.recs else (cls if not r.get('bases') else None)

    def wholes(self):
        """classes of which there are objects that are not the base part of another"""
        recs = self.g.prog.recs
        bases = {b for r in recs.values() for b in r.get('bases', [])}
        made_ = set()
        for f in self.g.reach.values():
            for n in walk([f.body] + [i.get('e') for i in f.d.get('inits') or [] if not i.get('base')]):
                if n.get('k') == 'ctor':
                    made_.add(n.get('cls'))
                elif n.get('k') == 'new':
                    made_.add(unq(n.get('t', '')).rstrip('*').strip())
                elif n.get('k') == 'call' and made(n):
                    made_.add(n.get('fn', '').split('::')[0])
        return {r for r in recs if r not in bases or r in made_}

    # ------------------------------------------------------------ functions
    def analyse(self, f, entry, summary=False):
        mk = (f.key, frozenset(entry.items()))
        if mk in self.memo:
            return self.memo[mk]
        if f.key in self.stack or len(self.stack) > 25:
            return dict(entry)
        self.memo[mk] = dict(entry)
        self.stack.append(f.key)
        saved = self.__dict__.get('cur')
        refp = {p['id'] for p in f.params if p.get('ref')}
        body = [f.body, f.d.get('inits')]
        self.cur = {'f': f, 'loops': [], 'sw': [], 'exits': [], 'tests': {}, 'owners': set(), 'ret': set(), 'rplaces': set(), 'refparams': refp,
                    'pidx': {p['id']: i for i, p in enumerate(f.params)},
                    'statics': {v['id'] for d in walk(f.body) if d.get('k') == 'decl' for v in d['v'] if v.get('static')},
                    'locals': {v['id'] for d in walk(f.body) if d.get('k') == 'decl' for v in d['v'] if not v.get('static') and not v.get('ref')},
                    'truth': [None, None],
                    'assigned': {strip(n['a']).get('id') for n in walk(f.body) if n.get('k') == 'asg' and strip(n['a']).get('k') == 'ref'}}
        st = dict(entry)
        for p in f.params:
            if unq(p['t']).endswith('*') and not p.get('ref'):
                st[('h', 'v%s' % p['id'])] = frozenset({'v%s->' % p['id']})
            if OWNER.match(unq(p['t'])) and not p.get('ref'):
                self.cur['owners'].add('v%s' % p['id'])
        inits = f.d.get('inits') or []
        if f.d.get('ctor'):
            rec = self.g.prog.recs.get(f.cls) or {}
            done = {i.get('f') for i in inits if i.get('f') and not (i.get('e', {}) or {}).get('dflt')}
            for fl in rec.get('f', []):
                if fl['n'] in done:
                    continue
                if SMART.match(unq(fl['t'])) or unq(fl['t']).endswith('*') and fl.get('init') is not None:
                    st[('n', 'this.' + fl['n'])] = self.status(fl['init'], st) if fl.get('init') is not None else frozenset('N')
        for i in inits:
            if i.get('e') is None or st is None:
                continue
            if i.get('base') and i['e'].get('k') == 'ctor' and i['e'].get('repo'):
                st = self.args(i['e'], st)
                st = self.repo(i['e'], st, 'this') if st is not None else None
                continue
            st = self.expr(i['e'], st, bound=True)
            if st is not None and i.get('f') and not i['e'].get('dflt'):
                rec = self.g.prog.recs.get(f.cls) or {}
                t = next((x['t'] for x in rec.get('f', []) if x['n'] == i['f']), i['e'].get('t', ''))
                st = self.bind('this.' + i['f'], i['e'], t, st, {'l': i['e'].get('l', f.line), 'field': None}, t.strip().endswith('&'))
        out = self.stmt(f.body, st)
        for x in self.cur['exits']:
            out = self.join(out, x)
        if out is not None:
            # parameters taken by value end with the call
            out = self.ended([p['id'] for p in f.params if not p.get('ref')], out, {'l': f.d.get('el', f.line)}, f.d.get('el', f.line))
            if f.d.get('ctor') and f.cls in self.whole:
                for k, s in out.items():
                    if k[0] == 'n' and re.match(r'this\.\w+$', k[1]) and 'N' in s:
                        self.newnull.add((self.declares(f.cls, k[1][5:]), k[1][5:]))
        held = {}
        for k, v in (out or {}).items():
            if k[0] == 'h' and re.match(r'this\.\w+$', k[1]):
                x = {y for y in v if any(y.startswith('v%s' % p['id']) and not re.match(r'\d', y[len('v%s' % p['id']):]) for p in f.params)}
                if x:
                    held[k[1]] = frozenset(x)
        self.holds[f.key] = held
        r0 = self.rsum.get(f.key, (frozenset(), frozenset()))
        self.rsum[f.key] = (r0[0] | frozenset(self.cur['ret']), r0[1] | frozenset(self.cur['rplaces']))
        ids = {'v%s' % p['id'] for p in f.params}
        res = None if out is None else {k: s for k, s in out.items() if k[0] == 'n' and (k[1].startswith('this.') or re.match(r'v\d+', k[1]).group(0) in ids if k[1].startswith(('this.', 'v')) else False)}
        self.stack.pop()
        self.memo[mk] = res
        if f.d.get('rt') == 'bool' and not any(p['id'] in self.cur['assigned'] for p in f.params):
            self.truth[mk] = tuple(None if x is None else {k: v for k, v in x.items() if k[0] in ('f', 'n')} for x in self.cur['truth'])
        self.cur = saved
        return res


def lifetimes(rules):
    c, g = rules.c, rules.g
    c.rules.add('no reference, iterator or pointer is used after the container or object it refers into was changed in a way that ends it, went out of scope or was a temporary (may-analysis over all paths)')
    c.rules.add('a pointer, search result or checked cast that may be null is followed only on paths where it was tested (context-sensitive nullness over the call graph)')
    lf = Life(rules)
    # fields of aggregates that start as null
    for rn, rec in g.prog.recs.items():
        own = {f.cls for f in g.reach.values() if f.d.get('ctor')}
        if rn in own:
            continue
        for fl in rec.get('f', []):
            t = unq(fl['t'])
            if SMART.match(t) or t.endswith('*') and fl.get('init') is not None and strip(fl['init']).get('k') == 'null':
                lf.maynull.add((rn, fl['n']))
    called = set(g.calls)
    for _ in range(6):
        lf.memo.clear()
        lf.sites.clear()
        lf.found.clear()
        lf.newnull = set()
        lf.rsum.clear()
        virt = {f.key for f in g.reach.values() if f.d.get('virt') or f.d.get('virtual')}
        for f in g.reach.values():
            if f.key not in called or f.key in virt or f.q == 'main' or f.d.get('ctor'):
                lf.cur = None
                lf.analyse(f, {})
        for f in g.reach.values():
            if not any(k[0] == f.key for k in lf.memo):
                lf.cur = None
                lf.analyse(f, {})
        if lf.newnull <= lf.maynull:
            break
        lf.maynull |= lf.newnull
    for key, (f, n) in sorted(lf.sites.items(), key=lambda x: (x[0][0], x[0][1] or 0, x[0][2])):
        t = lf.found.get(key)
        rules.obl(f, n, t is None, key[2], '%s %s' % (f.q, t) if t else None, '')
    return lf

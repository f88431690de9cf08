"""Gated value-flow construction: turns a function (with the repository functions it
calls) into the value graph of its observable results.  Branches become decision
diagram nodes, loops become phi/exit-phi nodes, storage becomes store/select terms.
Nothing is executed and no path is enumerated: both arms of every branch are merged
where control flow joins, and loop bodies are analysed to a fixpoint of their
loop-carried locations."""
import re
from terms import *
import terms as TM


class Unsupported(Exception):
    pass


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root = root
        self.path = path


class LVIte:
    __slots__ = ('c', 'x', 'y')

    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y


class LVPair:
    """element of an associative container"""
    __slots__ = ('base', 'key', 'isset')

    def __init__(self, base, key, isset=False):
        self.base, self.key, self.isset = base, key, isset


class LVVal:
    """a pure rvalue used where an lvalue is expected (const reference to a value)"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def addedkeys(n, ph):
    """the keys n adds to the set ph, by case; None if n does anything else.  A key found to be a member counts as added"""
    if n is ph:
        return raw('lst')
    if n.op == 'sadd':
        r = addedkeys(n.a[0], ph)
        return None if r is None else lift(('addkey', n.a[1]), lambda z: raw('lst', *sorted(set(z.a) | {n.a[1]}, key=lambda x: x.id)), (r,))
    if n.op != 'ite':
        return None
    hi, lo = addedkeys(n.a[1], ph), addedkeys(n.a[2], ph)
    if hi is None or lo is None:
        return None
    at = n.a[0]
    if at.op == 'has' and at.a[0] is ph:
        hi = lift(('addkey', at.a[1]), lambda z: raw('lst', *sorted(set(z.a) | {at.a[1]}, key=lambda x: x.id)), (hi,))
    return mkite(TM.node(at, TRUE, FALSE), hi, lo)


def litlen(v):
    """number of elements of a list spelled out in the program"""
    n = 0
    while v.op == 'push':
        v, n = v.a[0], n + 1
    return n if v is VNIL and n else None


LVS = (LV, LVIte, LVPair, LVVal)


class Frame:
    __slots__ = ('path', 'refs', 'this', 'fn', 'rets', 'parent', 'retref')

    def __init__(self, path, fn, this=None, parent=None):
        self.path = path
        self.refs = {}
        self.this = this
        self.fn = fn
        self.rets = []
        self.parent = parent
        self.retref = False


class Loop:
    def __init__(self, L, depth, where):
        self.L = L
        self.depth = depth
        self.where = where
        self.phis = {}     # loc -> phi term
        self.init = {}
        self.next = {}
        self.exit = FALSE  # exit condition over phi/it
        self.closed = {}


def splitname(q):
    """qualified name -> (class-or-namespace, name) ignoring template arguments"""
    d = 0
    i = len(q)
    if q.endswith('>') and not q.endswith('operator>') and not q.endswith('->') and 'operator' not in q:
        pass
    k = q.find('operator')
    if k > 0 and q[k - 2:k] == '::':
        return q[:k - 2], q[k:]
    while i > 0:
        i -= 1
        c = q[i]
        if c == '>':
            d += 1
        elif c == '<':
            d -= 1
        elif c == ':' and d == 0 and q[i - 1] == ':':
            return q[:i - 1], q[i + 1:]
    return '', q


def notempl(s):
    out = []
    d = 0
    for c in s:
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
    return ''.join(out)


def targs(t):
    i = t.find('<')
    if i < 0:
        return []
    d = 0
    out = []
    cur = ''
    for c in t[i:]:
        if c == '<':
            d += 1
            if d == 1:
                continue
        elif c == '>':
            d -= 1
            if d == 0:
                out.append(cur.strip())
                break
        elif c == ',' and d == 1:
            out.append(cur.strip())
            cur = ''
            continue
        cur += c
    return out


def strip(t):
    t = t.strip()
    while True:
        if t.startswith('const '):
            t = t[6:]
        elif t.startswith('volatile '):
            t = t[9:]
        elif t.endswith('&'):
            t = t[:-1].strip()
        elif t.endswith(' const'):
            t = t[:-6]
        elif t.endswith('*const'):
            t = t[:-5]
        else:
            return t


INTS = {'int', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'unsigned short',
        'char', 'signed char', 'unsigned char'}
UINTS = {'unsigned int', 'unsigned long', 'unsigned long long', 'unsigned short', 'unsigned char'}
FLTS = {'float', 'double', 'long double'}


def isfloat(t):
    return strip(t) in FLTS


def isstr(t):
    return strip(t).startswith('std::basic_string<char')


STREAM0 = lambda: mkrec(UNDEF, {'#buf': EMPTY, '#path': EMPTY, '#open': FALSE, '#pos': ZERO, '#word': ZERO})


NLOOP = [0]   # loop numbers are unique over all analyses of one process


class Interp:
    def __init__(self, prog, noinline=(), opts=None):
        self.prog = prog
        self.noinline = set(noinline)
        self.opts = opts or {}
        self.env = {}
        self.pc = TRUE
        self.ctx = []
        self.frame = None
        self.throws = []
        self.ofs = {}      # frame path -> output streams declared there
        self.loops = {}
        self.lctx = []          # (break list, continue list)
        self.depth = 0
        self.paths = {}
        self.lams = {}
        self.seeds = {}
        self.stack = []
        self.stats = {'functions': set(), 'calls': 0, 'branches': 0, 'loops': set(), 'stores': 0, 'ucalls': set()}
        self.origin = {}
        self.cur = (None, 0)
        self.tmpn = {}
        self.allocn = {}
        self.files = raw('root', 'files')
        self.phiname = {}
        self.calllog = None
        self.assumes = []
        self.npf = 0
        self.reference = False   # running a reference model
        import models
        self.models = models

    # ------------------------------------------------------------ utilities
    def fail(self, msg):
        raise Unsupported('%s (at %s:%s)' % (msg, self.cur[0], self.cur[1]))

    def feasible(self, c):
        if c is FALSE:
            return False
        if b_and(self.pc, c) is FALSE:
            return False
        for p in self.ctx:
            if b_and(p, c) is FALSE:
                return False
        return True

    def prune(self, c):
        """condition simplified by what is known to hold here"""
        if c is TRUE or c is FALSE:
            return c
        if not self.feasible(c):
            return FALSE
        if not self.feasible(b_not(c)):
            return TRUE
        return c

    def known(self, v):
        """v restricted to the current path condition (only for control decisions)"""
        if v.op != 'ite':
            return v
        for p in [self.pc] + self.ctx[::-1]:
            if p is TRUE or v.op != 'ite':
                continue
            v = constrain(v, p)
        return v

    def subpath(self, node, tag=''):
        k = (self.frame.path if self.frame else 0, id(node), tag)
        r = self.paths.get(k)
        if r is None:
            r = len(self.paths) + 1
            self.paths[k] = r
            self.keep = getattr(self, 'keep', [])
            self.keep.append(node)
        return r

    def temp(self, node, v, tag='t'):
        r = raw('loc', self.subpath(node, tag), -1)
        self.env[r] = v
        return LV(r)

    def org(self, v):
        if v.op not in ('b',) and v not in self.origin:
            self.origin[v] = self.cur + (self.frame.fn.q if self.frame and self.frame.fn else '',)

    # ------------------------------------------------------------ storage
    def initial(self, root):
        o = root.op
        if o == 'hroot':
            p = root.a[0]
            if p.op == 'newobj':
                return p.a[0]
            return raw('cell', p)
        if o == 'g':
            return self.globinit(root.a[0])
        if o == 'par':
            return sym('P%d' % root.a[0])
        if o == 'this':
            return sym('this')
        if o == 'root':
            return sym(root.a[0])
        return UNDEF

    def globinit(self, q):
        g = self.prog.globs.get(q)
        if q in ('std::cout', 'std::cerr', 'std::clog'):
            return STREAM0()
        if g is not None and g.get('init') is not None and (g.get('const') or self.opts.get('globinit')):
            sf, self.frame = self.frame, Frame(0, None)
            try:
                v = self.rv(g['init'])
            finally:
                self.frame = sf
            return v
        if g is not None and not g.get('const') and self.opts.get('globinit'):
            return self.dflt(g['t'], True)
        return sym('g:' + q)

    def rootval(self, root):
        v = self.env.get(root)
        if v is None:
            v = self.initial(root)
            if root.op == 'hroot' and self.env.get(HEAP) is not None and root.a[0].op != 'newobj':
                h = self.env[HEAP]
                p = root.a[0]
                v = mkite(has(h, p), msel(h, p), v)
        return v

    def access(self, v, acc):
        if isinstance(acc, str):
            return fld(v, acc)
        o = acc.op
        if o == 'ix':
            return sel(v, acc.a[0])
        if o == 'chx':
            return ch(v, acc.a[0])
        if o == 'ky':
            return msel(v, acc.a[0])
        raise Unsupported('accessor ' + o)

    def load(self, lv):
        if isinstance(lv, T):
            return lv
        if isinstance(lv, LVVal):
            return lv.v
        if isinstance(lv, LVIte):
            return mkite(lv.c, self.load(lv.x), self.load(lv.y))
        if isinstance(lv, LVPair):
            if lv.isset:
                return lv.key
            return mkrec(UNDEF, {'first': lv.key, 'second': msel(self.load(lv.base), lv.key)})
        if lv is None:
            return UNDEF
        v = self.rootval(lv.root)
        for a in lv.path:
            v = self.access(v, a)
        return v

    def upd(self, v, path, i, x):
        if i == len(path):
            return x
        a = path[i]
        if isinstance(a, str):
            return mkrec(v, {a: self.upd(fld(v, a), path, i + 1, x)})
        if a.op == 'ix':
            return store(v, a.a[0], self.upd(sel(v, a.a[0]), path, i + 1, x))
        if a.op == 'chx':
            return lift('strset', lambda *z: raw('strset', *z), (v, a.a[0], x))
        if a.op == 'ky':
            if v is UNDEF:
                v = MNIL
            return mstore(v, a.a[0], self.upd(msel(v, a.a[0]), path, i + 1, x))
        raise Unsupported('store accessor')

    def store(self, lv, x):
        if lv is None or isinstance(lv, LVVal):
            return
        self.stats['stores'] += 1
        if isinstance(lv, LVIte):
            # only the place that is chosen changes: an entry of a map the other one names must not come into being
            roots = self.lvroots(lv)
            before = {r: self.env.get(r) for r in roots}
            self.store(lv.x, x)
            one = {r: self.rootval(r) for r in roots}
            for r, v in before.items():
                if v is None:
                    self.env.pop(r, None)
                else:
                    self.env[r] = v
            self.store(lv.y, x)
            for r in roots:
                self.env[r] = mkite(lv.c, one[r], self.rootval(r))
            return
        if isinstance(lv, LVPair):
            self.store(self.fieldlv(lv, 'second'), fld(x, 'second'))
            return
        self.org(x)
        self.env[lv.root] = x if not lv.path else self.upd(self.rootval(lv.root), lv.path, 0, x)

    def lvroots(self, lv):
        if isinstance(lv, LVIte):
            return list(dict.fromkeys(self.lvroots(lv.x) + self.lvroots(lv.y)))
        if isinstance(lv, LVPair):
            return self.lvroots(lv.base)
        return [lv.root] if isinstance(lv, LV) else []

    def fieldlv(self, lv, f):
        if isinstance(lv, T):
            return LVVal(fld(lv, f))
        if isinstance(lv, LVVal):
            return LVVal(fld(lv.v, f))
        if isinstance(lv, LVIte):
            return LVIte(lv.c, self.fieldlv(lv.x, f), self.fieldlv(lv.y, f))
        if isinstance(lv, LVPair):
            if f == 'first':
                return LVVal(lv.key)
            return self.acclv(lv.base, raw('ky', lv.key))
        if lv is None:
            return None
        return LV(lv.root, lv.path + (f,))

    def acclv(self, lv, acc):
        if isinstance(lv, T):
            return LVVal(self.access(lv, acc))
        if isinstance(lv, LVVal):
            return LVVal(self.access(lv.v, acc))
        if isinstance(lv, LVIte):
            return LVIte(lv.c, self.acclv(lv.x, acc), self.acclv(lv.y, acc))
        if isinstance(lv, LVPair):
            return self.acclv(LVVal(self.load(lv)), acc)
        if lv is None:
            return None
        return LV(lv.root, lv.path + (acc,))

    def addr(self, lv):
        if isinstance(lv, LVIte):
            return mkite(lv.c, self.addr(lv.x), self.addr(lv.y))
        if isinstance(lv, LVVal):
            return raw('addrof', lv.v) if lv.v.op != 'ite' else lift('addrof', lambda z: raw('addrof', z), (lv.v,))
        if isinstance(lv, LVPair):
            return raw('addrof', self.load(lv))
        if isinstance(lv, T):
            return raw('addrof', lv)
        if lv is None:
            return UNDEF
        if lv.root.op == 'hroot' and not lv.path:
            return lv.root.a[0]
        return raw('ptr', lv.root, *lv.path)

    def deref(self, p, nullok=False):
        if isinstance(p, LVS):
            return p
        p = self.known(p)
        return self._deref(p)

    def _deref(self, p):
        if p.op == 'ite':
            x, y = p.a[1], p.a[2]
            a, b = self._deref(x), self._deref(y)
            if a is None:
                return b
            if b is None:
                return a
            return LVIte(node(p.a[0], TRUE, FALSE), a, b)
        if p is NULL or p is UNDEF:
            return None
        if p.op == 'ptr':
            return LV(p.a[0], tuple(p.a[1:]))
        if p.op == 'addrof':
            return LVVal(p.a[0])
        if isiter(p):
            return self.models.iterlv(self, p)
        return LV(raw('hroot', p))

    def newalloc(self, node, cls, content):
        k = self.subpath(node, 'alloc')
        r = raw('aroot', k)
        self.env[r] = content
        return raw('ptr', r)

    # ------------------------------------------------------------ types
    def rec(self, t):
        t = strip(t)
        return self.prog.recs.get(t)

    def allfields(self, t):
        r = self.rec(t)
        out = []
        if r is None:
            return out
        for b in r['bases']:
            out += self.allfields(b)
        out += r['f']
        return out

    def fieldinit(self, f):
        """default member initialiser; the reference models use the ones written down in specs/fields.json"""
        return f['pin'] if self.reference and 'pin' in f else f.get('init')

    def dflt(self, t, zero=False):
        t0 = t
        t = strip(t)
        if t.endswith('*'):
            return NULL if zero else UNDEF
        if t == 'bool':
            return FALSE if zero else UNDEF
        if t in INTS or t in FLTS:
            return ZERO if zero else UNDEF
        b = notempl(t)
        if b in ('std::basic_string', 'std::basic_string_view'):
            return EMPTY
        if b in ('std::vector', 'std::list', 'std::deque', 'std::queue', 'std::stack', 'std::initializer_list'):
            return VNIL
        if b == 'std::array':
            a = targs(t)
            return vfill(num(int(re.sub(r'\D', '', a[1]) or 0)), self.dflt(a[0], zero))
        if b in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap', 'std::multiset', 'Json::Value'):
            return MNIL
        if b == 'std::shared_ptr' and 'spdlog::logger' in t:
            return raw('logger')   # logging has no effect on results
        if b in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr', 'std::function'):
            return NULL
        if b == 'std::pair':
            a = targs(t)
            return mkrec(UNDEF, {'first': self.dflt(a[0], True), 'second': self.dflt(a[1], True)})
        if b == 'std::tuple':
            return mkrec(UNDEF, {'#%d' % i: self.dflt(x, True) for i, x in enumerate(targs(t))})
        if b == 'std::optional':
            return mkrec(UNDEF, {'#has': FALSE, '#val': UNDEF})
        if 'stream' in b and b.startswith('std::'):
            return STREAM0()
        m = self.models.default(self, t, b)
        if m is not None:
            return m
        r = self.prog.recs.get(t)
        if r is not None:
            d = {}
            for f in self.allfields(t):
                init = self.fieldinit(f)
                if init is not None:
                    sf = self.frame
                    fr2 = Frame(self.frame.path if self.frame else 0, self.frame.fn if self.frame else None, sf.this if sf else None, sf)
                    self.frame = fr2
                    try:
                        d[f['n']] = self.rvt(init, f['t'])
                    finally:
                        self.frame = sf
                else:
                    d[f['n']] = self.dflt(f['t'], zero)
            return mkrec(UNDEF, d)
        return raw('dflt', b)

    # ------------------------------------------------------------ expressions
    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, LVS):
            v = self.load(v)
        if v is None:
            return UNDEF
        if e.get('t') in ('bool', 'const bool') and not (v is UNDEF):
            v = TM.tobdd(v)
        return v

    def rvt(self, e, t):
        """value of e stored in a location of type t"""
        v = self.rv(e)
        return v

    def lv(self, e):
        v = self.ev(e)
        if isinstance(v, LVS):
            return v
        if v is None:
            return LVVal(UNDEF)
        return self.temp(e, v)

    def cond(self, e):
        v = self.rv(e)
        if v is UNDEF:
            return raw('ite', raw('undefbool'), TRUE, FALSE)
        if v.op in ('b', 'ite'):
            return v
        return TM.tobdd(v)

    def ev(self, e):
        if e.get('l'):
            self.cur = (self.frame.fn.file if self.frame and self.frame.fn else self.cur[0], e['l'])
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            self.fail('expression kind ' + e['k'])
        return m(e)

    def e_int(self, e):
        return num(e['v'])

    e_chr = e_int

    def e_flt(self, e):
        return num(float(e['v']))

    def e_bool(self, e):
        return boolean(e['v'])

    def e_str(self, e):
        return string(e['v'])

    def e_null(self, e):
        return NULL

    def e_zero(self, e):
        return self.dflt(e['t'], True)

    def e_none(self, e):
        return UNDEF

    def e_opaque(self, e):
        if 'Init' in e.get('cls', ''):
            return UNDEF
        self.fail('construct ' + e.get('cls', '?'))

    def e_this(self, e):
        if self.frame.this is None:
            self.fail('this outside a member function')
        return self.addr(self.frame.this)

    def e_ref(self, e):
        vk = e.get('vk')
        if vk in ('local', 'param', 'bind', 'other'):
            return self.var(e['id'], e)
        if vk == 'enum':
            return num(e['v'])
        if vk == 'fn':
            return raw('fnref', e['fn'])
        if vk == 'global':
            g = self.prog.globs.get(e['q'])
            if g is not None and g.get('const') and g.get('init') is not None:
                r = raw('g', e['q'])
                if r not in self.env:
                    self.env[r] = self.globinit(e['q'])
                return LVVal(self.env[r])
            if e['q'] == 'std::basic_string<char>::npos':
                return num(-1)
            m = self.models.GLOBALS.get(e['q'])
            if m is not None:
                return m
            return LV(raw('g', e['q']))
        self.fail('reference kind %s %s' % (vk, e.get('n')))

    def var(self, vid, e=None):
        f = self.frame
        if vid in f.refs:
            return f.refs[vid]
        return LV(raw('loc', f.path, vid))

    def e_mem(self, e):
        b = self.arrowbase(self.ev(e['b']), e['arrow'])
        return self.fieldlv(b, e['f'])

    def arrowbase(self, b, arrow):
        if isinstance(b, self.models.PtrTo):
            return b.lv
        if arrow:
            if isinstance(b, LVS):
                b = self.load(b)
            b = self.deref(b)
        return b

    def e_idx(self, e):
        a = e['a']
        if a['k'] == 'cast' and a.get('ck') == 'decay':
            a = a['e']
        b = self.ev(a)
        if isinstance(b, LVS) and '*' in strip(a.get('t', '')):
            b = self.load(b)
        i = self.rv(e['b'])
        if isinstance(b, T):
            p = self.known(b)
            if p.op == 's' or p.op == 'cat':
                return ch(p, i)
            if isiter(p):
                return self.models.iterlv(self, p, i)
            if p.op == 'ptr':
                b = LV(p.a[0], tuple(p.a[1:]))
            else:
                b = self._deref(p)
        return self.acclv(b, raw('ix', i))

    def e_un(self, e):
        op = e['op']
        if op == '*':
            return self.deref(self.rv(e['e']))
        if op == '&':
            x = e['e']
            if x['k'] == 'ref' and x.get('vk') == 'fn':
                return raw('fnref', x['fn'])
            return self.addr(self.lv(x))
        if op == '!':
            return b_not(self.cond(e['e']))
        if op == '-':
            return neg(self.rv(e['e']))
        if op == '+':
            return self.rv(e['e'])
        if op in ('++', '--'):
            l = self.lv(e['e'])
            o = self.load(l)
            d = ONE if op == '++' else num(-1)
            n = self.models.shift(o, d) if isiter(o) else add(o, d)
            self.store(l, n)
            return o if e['post'] else l
        if op == '~':
            v = self.rv(e['e'])
            return lift('bnot', lambda z: raw('bnot', z), (v,))
        self.fail('unary ' + op)

    def e_bin(self, e):
        op = e['op']
        if op == '&&' or op == '||':
            c = self.prune(self.cond(e['a']))
            if op == '&&':
                if c is FALSE:
                    return FALSE
                r = self.guarded(c, lambda: self.cond(e['b']))
                return b_and(c, r)
            if c is TRUE:
                return TRUE
            r = self.guarded(b_not(c), lambda: self.cond(e['b']))
            return b_or(c, r)
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        return self.binop(op, a, b, e.get('lt', e.get('t', 'int')), e.get('t', 'int'))

    def binop(self, op, a, b, lt, t):
        ia, ib = isiter(a), isiter(b)
        if ia or ib:
            if ia and ib:
                a, b, lt = fld(a, '#pos'), fld(b, '#pos'), 'long'
            elif op == '+':
                return self.models.shift(a, b) if ia else self.models.shift(b, a)
            elif op == '-':
                return self.models.shift(a, neg(b))
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            return fdiv(a, b) if isfloat(t) or isfloat(lt) else idiv(a, b)
        if op == '%':
            return imod(a, b)
        if op in ('==', '!=') and isfloat(lt):
            r = b_or(flt(a, b), flt(b, a))
            return r if op == '!=' else b_not(r)
        if op == '==':
            return self.equal(a, b)
        if op == '!=':
            return b_not(self.equal(a, b))
        if op in ('<', '>', '<=', '>='):
            if isfloat(lt):
                r = {'<': lambda: flt(a, b), '>': lambda: flt(b, a), '<=': lambda: b_not(flt(b, a)), '>=': lambda: b_not(flt(a, b))}[op]()
                return r
            if op in ('>', '>='):
                a, b = b, a
                op = '<' if op == '>' else '<='
            u = strip(lt) in UINTS
            if u:
                if op == '<' and a is ZERO:
                    return b_not(self.equal(b, ZERO))
                if op == '<' and b is ONE:
                    return self.equal(a, ZERO)
                if op == '<=' and b is ZERO:
                    return self.equal(a, ZERO)
                if op == '<=' and a is ONE:
                    return b_not(self.equal(b, ZERO))
                if op == '<=' and a is ZERO:
                    return TRUE
            return ilt(a, b) if op == '<' else ile(a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            if op == '|' and TM._isbool(a) and TM._isbool(b):
                return b_or(a, b)
            if op == '&' and TM._isbool(a) and TM._isbool(b):
                return b_and(a, b)
            if a.op == 'n' and b.op == 'n':
                x, y = nval(a), nval(b)
                return num({'&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]())
            return lift('bit' + op, lambda p, q: raw('bit' + op, p, q), (a, b))
        self.fail('binary ' + op)

    def equal(self, a, b):
        if TM._isbool(a) or TM._isbool(b):
            return b_iff(TM.tobdd(a), TM.tobdd(b))
        return eq(a, b)

    def guarded(self, c, f):
        """evaluate f under condition c, merging its side effects"""
        if c is TRUE:
            return f()
        sp = self.pc
        senv = self.env
        self.env = dict(senv)
        self.pc = b_and(sp, c)
        nthrow = len(self.throws)
        r = f()
        newenv = self.env
        pc2 = self.pc
        self.env = senv
        self.mergeinto(c, newenv, senv)
        if len(self.throws) != nthrow or pc2 is not b_and(sp, c):
            self.pc = b_or(pc2, b_and(sp, b_not(c)))
        else:
            self.pc = sp
        return r

    def mergeinto(self, c, e1, e2):
        """self.env := c ? e1 : e2"""
        out = dict(e2)
        for k, v in e1.items():
            w = e2.get(k)
            if w is v:
                continue
            if w is None:
                if k.op in ('hroot', 'g', 'par', 'this', 'root'):
                    w = self.initial(k) if k is not HEAP else MNIL
                    out[k] = mkite(c, v, w)
                else:
                    out[k] = v
            else:
                out[k] = mkite(c, v, w)
        for k, w in e2.items():
            if k not in e1 and k.op in ('hroot', 'g', 'par', 'this', 'root'):
                out[k] = mkite(c, self.initial(k) if k is not HEAP else MNIL, w)
        self.env = out

    def e_asg(self, e):
        op = e['op']
        if op == '=':
            # right operand first
            b = self.rv(e['b'])
            l = self.lv(e['a'])
            self.store(l, b)
            return l
        b = self.rv(e['b'])
        l = self.lv(e['a'])
        a = self.load(l)
        if e['t'] == 'bool' and op in ('|=', '&='):
            b = TM.tobdd(b)
            a = TM.tobdd(a)
        r = self.binop(op[:-1], a, b, e.get('ct', 'int'), e.get('ct', 'int'))
        if isfloat(e.get('ct', '')) and strip(e['t']) in INTS:
            r = trunc(r)
        if e['t'] == 'bool':
            r = TM.tobdd(r) if r.op in ('b', 'ite') and TM._isbool(r) else b_not(eq0(r))
        self.store(l, r)
        return l

    def e_cond(self, e):
        c = self.prune(self.cond(e['c']))
        if c is TRUE:
            return self.ev(e['a'])
        if c is FALSE:
            return self.ev(e['b'])
        box = []

        def go(x):
            v = self.ev(x)
            if isinstance(v, LVS) and e.get('t') == 'bool':
                v = TM.tobdd(self.load(v))
            return v
        s0 = self.env
        p0 = self.pc
        nt = len(self.throws)
        self.env = dict(s0)
        self.pc = b_and(p0, c)
        a = go(e['a'])
        e1, p1 = self.env, self.pc
        self.env = dict(s0)
        self.pc = b_and(p0, b_not(c))
        b = go(e['b'])
        if not (isinstance(a, LVS) and isinstance(b, LVS)):
            if isinstance(b, LVS):
                b = self.load(b)
            if isinstance(a, LVS):
                s = self.env
                self.env = e1
                a = self.load(a)
                self.env = s
            if a is None:
                a = UNDEF
            if b is None:
                b = UNDEF
            if _isb(a) or _isb(b):
                a, b = TM.tobdd(a), TM.tobdd(b)
        e2, p2 = self.env, self.pc
        self.mergeinto(c, e1, e2)
        self.pc = p0 if len(self.throws) == nt else b_or(p1, p2)
        if isinstance(a, LVS):
            return LVIte(c, a, b)
        return mkite(c, a, b)

    def e_cast(self, e):
        ck = e['ck']
        if ck == 'void':
            self.ev(e['e'])
            return UNDEF
        if ck == 'decay':
            v = self.ev(e['e'])
            if isinstance(v, T) or v is None:
                return v
            if 'char' in e.get('t', ''):
                return self.load(v)
            return self.models.mkiter(self.addr(v), 'v', ZERO)
        v = self.rv(e['e'])
        if ck == 'f2i':
            return trunc(v)
        if ck == 'i2f':
            if e['e'].get('t') == 'bool' or _isb(v):
                return b2i(v)
            return v
        if ck == 'f2f':
            return v
        if ck == 'i2i':
            if strip(e.get('from', '')) == 'bool' or _isb(v):
                return b2i(v)
            return v
        if ck == 'tobool':
            if _isb(v):
                return v
            return b_not(eq0(v))
        if ck == 'p2b':
            return b_not(isnull(v))
        if ck == 'dyn':
            t = strip(e['t'])
            return lift(('dyncast', t), lambda z: NULL if z is NULL else raw('dyncast', z, t), (v,))
        if ck == 'bit':
            return v
        self.fail('cast ' + ck)

    def e_lambda(self, e):
        k = self.subpath(e, 'lam')
        f = self.frame
        self.lams[k] = (e, f)
        for c in e['caps']:
            if c.get('n') == 'this' and 'id' not in c:
                continue
            if c.get('init') is not None:
                self.env[raw('cap', k, c['id'])] = self.rv(c['init'])
            elif not c.get('byref'):
                self.env[raw('cap', k, c['id'])] = self.load(self.var(c['id']))
        return raw('lam', k)

    def calllam(self, lam, args, node=None):
        """args: list of LV/T"""
        if lam.op == 'ite':
            lam = self.known(lam)
        if lam.op == 'fnref':
            fn = self.prog.fns.get(lam.a[0])
            if fn is None or fn.body is None:
                return self.ucall(lam.a[0], [self.load(a) if isinstance(a, LVS) else a for a in args])
            return self.inline(fn, None, args, node)
        if lam.op != 'lam':
            self.fail('call through an unresolved callable ' + show(lam))
        e, df = self.lams[lam.a[0]]
        params, body, ps = e['p'], e.get('body'), None
        if e.get('generic'):
            inst = e.get('inst') or []
            pick = None
            if node is not None and node.get('fn'):
                for i in inst:
                    if i['fn'] == node['fn']:
                        pick = i
            if pick is None:
                if not inst:
                    self.fail('generic lambda without instance')
                pick = inst[0]
            params, body = pick['p'], pick['body']
        fr = Frame(self.subpath(e, 'call%s' % (id(node) if node is not None else 0)), df.fn, df.this, self.frame)
        k = lam.a[0]
        # enclosing captures are visible by id
        fr.refs = dict(df.refs)
        for c in e['caps']:
            if 'id' not in c:
                continue
            if c.get('byref') and c.get('init') is None:
                s = self.frame
                self.frame = df
                fr.refs[c['id']] = self.var(c['id'])
                self.frame = s
            else:
                fr.refs[c['id']] = LV(raw('cap', k, c['id']))
        return self.runbody(fr, params, args, body, e.get('rt', ''))

    def e_throw(self, e):
        v = UNDEF
        if e.get('e') is not None:
            v = self.rv(e['e'])
            t = strip(e['e'].get('t', ''))
            v = raw('exc', t, v)
        self.throws.append((self.pc, self.env, v))
        self.pc = FALSE
        self.env = dict(self.env)
        return UNDEF

    def e_new(self, e):
        if e.get('arr'):
            self.fail('array new')
        c = self.rv(e['e']) if e.get('e') is not None else self.dflt(e['t'])
        return self.newalloc(e, strip(e['t']), c)

    def e_del(self, e):
        self.rv(e['e'])
        return UNDEF

    def e_stmtexpr(self, e):
        self.exec(e['s'])
        return UNDEF

    def e_init(self, e):
        t = strip(e['t'])
        b = notempl(t)
        if 'f' in e:
            d = {}
            vals = [self.rv(x) for x in e['a']]
            r = self.rec(t)
            names = [f['n'] for f in r['f']] if r else e['f']
            for n, v in zip(names, vals):
                d[n] = v
            if not r and b in ('std::array',):
                return vals[0] if vals else VNIL
            return mkrec(UNDEF, d)
        if '[' in t or b in ('std::initializer_list',) or t.endswith(']'):
            v = VNIL
            for x in e['a']:
                v = push(v, self.rv(x))
            return v
        if len(e['a']) == 1:
            return self.rv(e['a'][0])
        if len(e['a']) == 0:
            return self.dflt(t, True)
        self.fail('initializer list of ' + t)

    def e_ctor(self, e):
        return self.construct(e, None)

    def construct(self, e, lv):
        """value of a construct expression; lv: the object being initialised (for repo constructors)"""
        t = strip(e['t'])
        a = [x for x in e['a'] if not (x.get('def') and x['k'] in ('ctor', 'zero'))]
        if e.get('copy') or e.get('move'):
            v = self.ev(e['a'][0])
            return self.load(v) if isinstance(v, LVS) else v
        r = self.prog.recs.get(t)
        if r is not None:
            fn = self.prog.fns.get(e.get('fn'))
            poly = self.ispoly(t)
            if fn is None or fn.body is None:
                v = self.dflt(t, bool(e.get('zero')) or (e.get('list') and not e['a']))
                if e['a'] and not e.get('dflt'):
                    # inherited or implicit constructor with arguments
                    self.fail('constructor %s not found' % e.get('fn'))
                if poly:
                    v = mkrec(v, {'#cls': string(t)})
                return v
            if self.opaque(fn):
                args = self.bindargs(fn, e['a'])
                v = self.ucall(fn.q.replace('spec::', '').replace('_::', '::'), [self.load(x) if isinstance(x, LVS) else x for x in args])
                if poly:
                    v = mkrec(v, {'#cls': string(t)})
                if lv is not None:
                    self.store(lv, v)
                return v
            v = self.dflt(t, False)
            if poly:
                v = mkrec(v, {'#cls': string(t)})
            args = self.bindargs(fn, e['a'])
            if lv is None:
                lv = self.temp(e, v, 'obj')
            else:
                self.store(lv, v)
            self.inlinector(fn, lv, args, e)
            return self.load(lv)
        v = self.models.construct(self, e, t, notempl(t), a)
        return v

    def ispoly(self, t):
        r = self.prog.recs.get(strip(t))
        if r is None:
            return False
        if any(self.ispoly(b) for b in r['bases']):
            return True
        return any(f.cls == r['q'] and f.d.get('virt') for f in self.prog.fns.values()) or r['q'] in self.opts.get('poly', ())

    # ------------------------------------------------------------ calls
    def bindargs(self, fn, args):
        out = []
        for p, x in zip(fn.params, args):
            if p.get('ref'):
                out.append(self.lv(x))
            else:
                out.append(self.rv(x))
        return out

    def e_call(self, e):
        self.stats['calls'] += 1
        q = e.get('q', '?')
        # calls through values
        if q == '?':
            f = self.rv(e['ce'])
            return self.calllam(f, [self.ev(x) for x in e['a']], e)
        if e.get('fn', '').startswith('lambda@'):
            f = self.rv(e['a'][0])
            return self.calllam(f, [self.ev(x) for x in e['a'][1:]], e)
        if q == '__spec_assume':
            self.assumes.append(b_or(b_not(self.pc), self.cond(e['a'][0])))
            return UNDEF
        key = e.get('fn')
        fn = self.prog.fns.get(key)
        if fn is not None and fn.q in self.opts.get('intrinsics', {}):
            return self.opts['intrinsics'][fn.q](self, e)
        if e.get('repo') or fn is not None:
            return self.repocall(e, fn)
        return self.models.call(self, e)

    def repocall(self, e, fn):
        obj = None
        args = e['a']
        key = e['fn']
        q = e['q']
        if e.get('m') and not e.get('static'):
            o = self.ev(args[0])
            args = args[1:]
            if e.get('arrow'):
                obj = self.arrowbase(o, True)
                if obj is None:
                    obj = LVVal(UNDEF)
            else:
                obj = o if isinstance(o, LVS) else self.temp(e, o, 'self')
        elif e.get('m') and e.get('static'):
            args = args[1:] if not e.get('op') else args
        if e.get('virt') and obj is not None:
            v = self.load(obj)
            c = self.known(fld(v, '#cls'))
            if c.op == 's':
                f2 = self.resolve(c.a[0], fn, key)
                if f2 is not None:
                    fn = f2
            else:
                fn = None
        fn0 = fn
        if fn is not None and self.opaque(fn) or key in self.noinline:
            fn = None
        if q in self.opts.get('models', {}):
            return self.opts['models'][q](self, e, obj, args)
        if q in self.models.REPOCALLS and (fn is None or q.startswith('logger::')):
            r = self.models.REPOCALLS[q](self, e, obj, args)
            return r
        if fn is None and e.get('op') == '=' and obj is not None and len(args) == 1:
            v = self.rv(args[0])
            self.store(obj, v)
            return obj
        if fn is None or fn.body is None or fn.key in self.stack:
            return self.uncall(e, obj, args, fn0)
        bound = self.bindargs(fn, args)
        return self.inline(fn, obj, bound, e)

    def resolve(self, cls, fn, key):
        """virtual dispatch on a known dynamic class"""
        name = key.split('(')[0].split('::')[-1]
        c = cls
        while c:
            for f in self.prog.fns.values():
                if f.cls == c and f.name == name and len(f.params) == (len(fn.params) if fn else len(f.params)):
                    return f
            r = self.prog.recs.get(c)
            c = strip(r['bases'][0]) if r and r['bases'] else None
        return None

    def opaque(self, fn):
        return fn.q in self.noinline or '=' + fn.q in self.noinline or fn.key in self.noinline or fn.q.replace('spec::', '').replace('_::', '::') in self.noinline

    def ucall(self, name, vals):
        vals = tuple(self.reify(v) for v in vals)
        self.stats['ucalls'].add(name)
        return lift(('ucall', name), lambda *z: raw('ucall', name, *z), vals)

    def uncall(self, e, obj, args, fn=None):
        """uninterpreted call: result and every mutable argument become functions of the inputs"""
        name = e['q'].replace('spec::', '').replace('_::', '::')
        lvs = []
        vals = []
        pw = e.get('pw', [])
        if obj is not None:
            vals.append(self.load(obj))
        for i, x in enumerate(args):
            w = pw[i] if i < len(pw) else 0
            if w == 1:
                l = self.lv(x)
                lvs.append((i, l))
                vals.append(self.load(l))
            else:
                v = self.rv(x)
                if w == 2:
                    d = self.deref(v)
                    if d is not None and not (isinstance(d, LVVal)):
                        lvs.append((i, d))
                        vals.append(self.load(d))
                        continue
                vals.append(v)
        r = self.ucall(name, vals)
        if name in self.opts.get('events', ()):
            # calls whose effect lies outside the values seen here: the sequence of calls is itself observable
            l = LV(raw('g', 'calls to ' + name), ())
            self.store(l, self.ucall(name + '#seq', [self.load(l)] + vals))
        fr = self.opts.get('frames', {}).get(name)
        if fr is not None:
            for f in fr if obj is not None else ():
                self.store(self.fieldlv(obj, f), self.ucall(name + '#obj.' + f, vals))
        elif obj is not None and not e.get('const') and not isinstance(obj, LVVal) and self.mayWrite(fn, 'this'):
            self.store(obj, self.ucall(name + '#obj', vals))
        for i, l in lvs:
            if self.mayWrite(fn, i):
                self.store(l, self.ucall(name + '#out%d' % i, vals))
        if e.get('t') == 'bool':
            r = TM.tobdd(r)
        return r

    def mayWrite(self, fn, what):
        w = self.opts.get('writes')
        return w is None or fn is None or fn.body is None or w(fn, what, self.noinline)

    def inline(self, fn, obj, args, node):
        self.stats['functions'].add(fn.key)
        fr = Frame(self.subpath(node if node is not None else fn, 'in:' + fn.key), fn, obj, self.frame)
        self.stack.append(fn.key)
        sc = self.cur
        try:
            return self.runbody(fr, fn.params, args, fn.body, fn.d.get('rt', ''))
        finally:
            self.stack.pop()
            self.cur = sc

    def inlinector(self, fn, lv, args, node):
        self.stats['functions'].add(fn.key)
        fr = Frame(self.subpath(node, 'ctor:' + fn.key), fn, lv, self.frame)
        self.stack.append(fn.key)
        try:
            self.runbody(fr, fn.params, args, fn.body, 'void', fn.d.get('inits', []))
        finally:
            self.stack.pop()

    def runbody(self, fr, params, args, body, rt, inits=()):
        sf, sl, sp = self.frame, self.lctx, self.pc
        self.frame = fr
        self.lctx = []
        fr.retref = rt.strip().endswith('&')
        for p, a in zip(params, args):
            if p.get('ref'):
                if isinstance(a, LVS):
                    fr.refs[p['id']] = a
                else:
                    r = raw('loc', fr.path, p['id'])
                    self.env[r] = a
            else:
                r = raw('loc', fr.path, p['id'])
                if isinstance(a, LVS):
                    a = self.load(a)
                if strip(p['t']) == 'bool' and a is not UNDEF:
                    a = TM.tobdd(a)
                self.env[r] = a
        nthrow = len(self.throws)
        self.ctx.append(sp)
        self.pc = TRUE
        for i in inits:
            if i.get('f') and i.get('e') is not None:
                if not i.get('written') and i['e']['k'] == 'ctor' and i['e'].get('dflt'):
                    continue
                tgt = self.fieldlv(fr.this, i['f'])
                if not i.get('written') and self.reference and fr.fn is not None and fr.fn.cls:
                    pf = [f for f in self.allfields(strip(fr.fn.cls)) if f['n'] == i['f'] and 'pin' in f]
                    if pf:
                        # already as the written down initialisers say
                        continue
                if i['e']['k'] == 'ctor':
                    v = self.construct(i['e'], tgt if self.prog.recs.get(strip(i['e']['t'])) else None)
                else:
                    v = self.rv(i['e'])
                self.store(tgt, v)
            elif (i.get('base') or i.get('deleg')) and i.get('e') is not None:
                x = i['e']
                if x['k'] == 'ctor':
                    f2 = self.prog.fns.get(x.get('fn'))
                    if f2 is not None and f2.body is not None:
                        self.inlinector(f2, fr.this, self.bindargs(f2, x['a']), x)
        self.exec(body)
        # fall off the end
        rets = fr.rets
        if self.pc is not FALSE:
            rets = rets + [(self.pc, self.env, UNDEF)]
        self.ctx.pop()
        self.frame = sf
        self.lctx = sl
        val = UNDEF
        if not rets:
            self.pc = FALSE
            self.fixthrows(nthrow, sp)
            return UNDEF
        if len(rets) == 1:
            self.env = rets[0][1]
            val = rets[0][2]
            np = rets[0][0]
        else:
            self.env, val, np = self.mergelist(rets)
        self.fixthrows(nthrow, sp)
        self.pc = b_and(sp, np) if np is not TRUE else sp
        return val

    def fixthrows(self, n, sp):
        for i in range(n, len(self.throws)):
            p, e, v = self.throws[i]
            self.throws[i] = (b_and(sp, p), e, v)

    def mergelist(self, lst):
        """merge [(pc, env, val)] -> env, val, pc"""
        tot = FALSE
        for p, _, _ in lst:
            tot = b_or(tot, p)
        base = lst[-1][1]
        val = lst[-1][2]
        env = base
        se = self.env
        for p, e, v in reversed(lst[:-1]):
            if isinstance(v, LVS) or isinstance(val, LVS):
                if v is UNDEF or v is None:
                    pass
                elif val is UNDEF or val is None:
                    val = v
                elif isinstance(v, LVS) and isinstance(val, LVS):
                    val = LVIte(p, v, val) if v is not val else v
                else:
                    if isinstance(v, LVS):
                        self.env = e
                        v = self.load(v)
                    if isinstance(val, LVS):
                        self.env = env
                        val = self.load(val)
                    val = mkite(p, v, val)
            else:
                if _isb(v) or _isb(val):
                    v = TM.tobdd(v) if v is not UNDEF else v
                    val = TM.tobdd(val) if val is not UNDEF else val
                if val is UNDEF:
                    val = v
                elif v is not UNDEF:
                    val = mkite(p, v, val)
            self.mergeinto(p, e, env)
            env = self.env
        if tot is not TRUE:
            out = {}
            for k, v in env.items():
                if base.get(k) is v:
                    out[k] = v
                else:
                    out[k] = constrain(v, tot)
            env = out
            if isinstance(val, T):
                val = constrain(val, tot)
        self.env = se
        return env, val, tot

    # ------------------------------------------------------------ statements
    def exec(self, s):
        if self.pc is FALSE:
            return
        if s.get('l'):
            self.cur = (self.frame.fn.file if self.frame and self.frame.fn else self.cur[0], s['l'])
        m = getattr(self, 's_' + s['k'], None)
        if m is None:
            self.fail('statement kind ' + s['k'] + ' ' + s.get('cls', ''))
        m(s)

    def s_nop(self, s):
        pass

    def s_block(self, s):
        for x in s['s']:
            if self.pc is FALSE:
                break
            self.exec(x)
        self.models.scope_exit(self, s)

    def s_expr(self, s):
        self.ev(s['e'])

    def s_label(self, s):
        self.exec(s['s'])

    def s_decl(self, s):
        for v in s['v']:
            self.decl(v)

    def decl(self, v):
        if v.get('static') and not v.get('const') and not v.get('ref'):
            # one object for the whole program, in any state when the analysed function is entered
            f = self.frame
            while f.fn is None and f.parent is not None:
                f = f.parent
            q = (f.fn.q if f.fn is not None else '').replace('spec::', '').replace('_::', '::')
            self.frame.refs[v['id']] = LV(raw('g', 'static:%s:%s' % (q, v['n'])))
            return
        if v.get('ref'):
            l = self.ev(v['init'])
            if isinstance(l, T):
                r = raw('loc', self.frame.path, v['id'])
                self.env[r] = l
                l = LV(r)
            if l is None:
                l = LVVal(UNDEF)
            self.frame.refs[v['id']] = l
        else:
            r = raw('loc', self.frame.path, v['id'])
            self.frame.refs.pop(v['id'], None)
            i = v.get('init')
            if i is None and v.get('vla') is not None:
                val = TM.vfill(self.rv(v['vla']), UNDEF)
            elif i is None and v.get('arr') is not None and 'char' not in v['t']:
                val = TM.vfill(num(v['arr']), UNDEF)
            elif i is None:
                val = self.dflt(v['t'])
            elif i['k'] == 'ctor' and not (i.get('copy') or i.get('move')) and self.prog.recs.get(strip(i['t'])) is not None \
                    and strip(i['t']) == strip(v['t']):
                val = self.construct(i, LV(r))
            else:
                val = self.rv(i)
                if strip(v['t']) == 'bool' and val is not UNDEF:
                    val = TM.tobdd(val)
            self.env[r] = val
            self.org(val)
            self.models.declared(self, v, LV(r))
        for b in v.get('binds', []):
            self.binding(v, b)

    def binding(self, v, b):
        h = b.get('hold')
        if h is not None:
            self.decl(h)
        # non-holding bindings are inlined as expressions by the front end

    def s_return(self, s):
        v = UNDEF
        if s.get('e') is not None:
            if self.frame.retref:
                v = self.ev(s['e'])
                if v is None:
                    v = UNDEF
            else:
                v = self.rv(s['e'])
                self.org(v)
        if self.pc is FALSE:
            return
        if self.ofs:
            self.models.returned(self)
        self.frame.rets.append((self.pc, self.env, v))
        self.env = dict(self.env)
        self.pc = FALSE

    def s_break(self, s):
        self.lctx[-1][0].append((self.pc, self.env, UNDEF))
        self.env = dict(self.env)
        self.pc = FALSE

    def s_continue(self, s):
        for b, c in reversed(self.lctx):
            if c is not None:
                c.append((self.pc, self.env, UNDEF))
                break
        self.env = dict(self.env)
        self.pc = FALSE

    def s_if(self, s):
        if s.get('init') is not None:
            self.exec(s['init'])
        if s.get('cv') is not None:
            self.decl(s['cv'])
        self.stats['branches'] += 1
        c = self.prune(self.cond(s['c']))
        if self.pc is FALSE:
            return
        if c is TRUE:
            return self.exec(s['a'])
        if c is FALSE:
            if s.get('b') is not None:
                self.exec(s['b'])
            return
        self.branch(c, lambda: self.exec(s['a']), (lambda: self.exec(s['b'])) if s.get('b') is not None else None)

    def branch(self, c, f, g):
        s0, p0 = self.env, self.pc
        r0 = dict(self.frame.refs)
        self.env = dict(s0)
        self.pc = b_and(p0, c)
        f()
        e1, p1 = self.env, self.pc
        self.env = dict(s0)
        self.pc = b_and(p0, b_not(c))
        if g is not None:
            g()
        e2, p2 = self.env, self.pc
        if p1 is FALSE:
            self.env, self.pc = e2, p2
        elif p2 is FALSE:
            self.env, self.pc = e1, p1
        else:
            self.mergeinto(c, e1, e2)
            self.pc = b_or(p1, p2)

    def s_switch(self, s):
        if s.get('init') is not None:
            self.exec(s['init'])
        v = self.rv(s['c'])
        body = s['s']
        stmts = body['s'] if body['k'] == 'block' else [body]
        items = []   # ('case', expr) / ('default',) / ('stmt', s)

        def flat(x):
            if x['k'] == 'case':
                items.append(('case', x['e']))
                flat(x['s'])
            elif x['k'] == 'default':
                items.append(('default', None))
                flat(x['s'])
            else:
                items.append(('stmt', x))
        for x in stmts:
            flat(x)
        conds = []
        anyc = FALSE
        for k, x in items:
            if k == 'case':
                c = self.equal(v, self.rv(x))
                conds.append(c)
                anyc = b_or(anyc, c)
        e0, p0 = self.env, self.pc
        brk = []
        self.lctx.append((brk, None))
        self.pc = FALSE
        self.env = dict(e0)
        ci = 0
        hasdef = False
        for k, x in items:
            if k in ('case', 'default'):
                if k == 'case':
                    c = conds[ci]
                    ci += 1
                else:
                    c = b_not(anyc)
                    hasdef = True
                pin = b_and(p0, c)
                if pin is FALSE:
                    continue
                if self.pc is FALSE:
                    self.env, self.pc = dict(e0), pin
                else:
                    self.mergeinto(pin, dict(e0), self.env)
                    self.pc = b_or(self.pc, pin)
            else:
                self.exec(x)
        self.lctx.pop()
        outs = brk
        if self.pc is not FALSE:
            outs = outs + [(self.pc, self.env, UNDEF)]
        if not hasdef:
            p = b_and(p0, b_not(anyc))
            if p is not FALSE:
                outs = outs + [(p, e0, UNDEF)]
        self.join(outs)

    def join(self, outs):
        if not outs:
            self.pc = FALSE
            return
        if len(outs) == 1:
            self.pc, self.env = outs[0][0], dict(outs[0][1])
            return
        self.env, _, self.pc = self.mergelist(outs)

    def s_try(self, s):
        n = len(self.throws)
        old = self.throws
        self.throws = []
        e0 = self.env
        self.exec(s['s'])
        th = self.throws
        self.throws = old
        if not th or not s['h']:
            self.throws += th
            return
        eN, pN = self.env, self.pc
        outs = [(pN, eN, UNDEF)] if pN is not FALSE else []
        h = s['h'][-1]
        for p, e, v in th:
            if v.op == 'exit':
                self.throws.append((p, e, v))
                continue
            for h in s['h']:
                self.env, self.pc = dict(e), p
                if h.get('v') is not None:
                    self.env[raw('loc', self.frame.path, h['v']['id'])] = v
                    self.frame.refs.pop(h['v']['id'], None)
                self.exec(h['s'])
                if self.pc is not FALSE:
                    outs.append((self.pc, self.env, UNDEF))
                break
        self.join(outs)

    # ------------------------------------------------------------ loops
    def s_while(self, s):
        def it():
            if s.get('cv') is not None:
                self.decl(s['cv'])
            c = self.cond(s['c'])
            self.brk_unless(c)
            self.exec(s['s'])
        self.loop(s, it, None)

    def s_do(self, s):
        def it():
            self.exec(s['s'])

        def inc():
            self.brk_unless(self.cond(s['c']))
        self.loop(s, it, inc)

    def s_for(self, s):
        if s.get('init') is not None:
            self.exec(s['init'])

        def it():
            if s.get('cv') is not None:
                self.decl(s['cv'])
            if s.get('c') is not None and s['c']['k'] != 'none':
                self.brk_unless(self.cond(s['c']))
            self.exec(s['s'])

        def inc():
            if s.get('inc') is not None:
                self.ev(s['inc'])
        self.loop(s, it, inc)

    def brk_unless(self, c):
        c = self.prune(c)
        if c is TRUE:
            return
        p = self.pc
        out = b_and(p, b_not(c))
        if out is not FALSE:
            self.lctx[-1][0].append((out, dict(self.env), UNDEF))
        self.pc = b_and(p, c)

    def s_rfor(self, s):
        if s.get('init') is not None:
            self.exec(s['init'])
        r = self.ev(s['r'])
        if isinstance(r, T):
            r = self.temp(s, r, 'range')
        rt = strip(s['rt'])
        pos = raw('loc', self.subpath(s, 'pos'), -2)
        self.env[pos] = ZERO
        b = notempl(rt)

        def it():
            i = self.env[pos]
            c = self.load(r)
            n = slen(c) if b.startswith('std::basic_string') else size(c)
            self.brk_unless(ilt(i, n))
            if self.pc is FALSE:
                return
            el = self.elemlv(r, i, b)
            v = s['v']
            if v.get('ref'):
                self.frame.refs[v['id']] = el
            else:
                rr = raw('loc', self.frame.path, v['id'])
                self.frame.refs.pop(v['id'], None)
                x = self.load(el)
                # clang's loop variable copy-initialises from *__begin
                if strip(v['t']) == 'bool':
                    x = TM.tobdd(x)
                self.env[rr] = x
            for bb in v.get('binds', []):
                self.binding(v, bb)
            self.exec(s['s'])

        def inc():
            self.env[pos] = add(self.env[pos], ONE)
        k = self.load(r)
        if not b.startswith('std::basic_string') and litlen(k) is not None and litlen(k) <= 8:
            self.unrolled(it, inc)
        else:
            self.loop(s, it, inc)
        self.env.pop(pos, None)

    def unrolled(self, body, inc):
        """a loop over a literal list: its iterations in sequence"""
        brk = []
        while self.pc is not FALSE:
            cont = []
            self.lctx = self.lctx + [(brk, cont)]
            try:
                body()
            finally:
                self.lctx = self.lctx[:-1]
            if self.pc is not FALSE:
                cont.append((self.pc, self.env, UNDEF))
            self.join(cont)
            if self.pc is not FALSE:
                inc()
        self.join(brk)

    def elemlv(self, r, i, b):
        if b in ('std::map', 'std::unordered_map', 'std::multimap'):
            return self.lvpair(r, i, False)
        if b in ('std::set', 'std::unordered_set', 'std::multiset'):
            return LVVal(kat(self.load(r), i))
        if b.startswith('std::basic_string'):
            return self.acclv(r, raw('chx', i))
        m = self.models.range_elem(self, r, i, b)
        if m is not None:
            return m
        return self.acclv(r, raw('ix', i))

    def lvpair(self, base, pos, isset):
        if isinstance(base, LVIte):
            return LVIte(base.c, self.lvpair(base.x, pos, isset), self.lvpair(base.y, pos, isset))
        m = self.load(base)
        k = kat(m, pos)
        if isset:
            return LVVal(k)
        return LVPair(base, k)

    def run_iter(self, env0, body, inc):
        """one symbolic iteration; returns (back state or None, breaks, rets, throws)"""
        sl, sp, st, sr = self.lctx, self.pc, self.throws, self.frame.rets
        brk, cont = [], []
        self.lctx = self.lctx + [(brk, cont)]
        self.throws = []
        self.frame.rets = []
        self.ctx.append(sp)
        self.pc = TRUE
        self.env = dict(env0)
        self.depth += 1
        try:
            body()
            outs = list(cont)
            if self.pc is not FALSE:
                outs.append((self.pc, self.env, UNDEF))
            self.join(outs)
            if self.pc is not FALSE and inc is not None:
                inc()
            back = (self.pc, self.env) if self.pc is not FALSE else None
            rets, th = self.frame.rets, self.throws
        finally:
            self.depth -= 1
            self.ctx.pop()
            self.lctx, self.pc, self.throws, self.frame.rets = sl, sp, st, sr
        return back, brk, rets, th

    def leafdiff(self, root, path, a, b, out, L):
        """locations where value b differs from a"""
        if a is b:
            return
        if a.op == 'rec' or b.op == 'rec':
            fs = set()
            TM._allfields(a, fs)
            TM._allfields(b, fs)
            ba, bb = TM._bases(a), TM._bases(b)
            if ba is bb:
                for f in sorted(fs):
                    self.leafdiff(root, path + (f,), fld(a, f), fld(b, f), out, L)
                return
        # one element at a position this loop does not change
        i = None
        for x in leafset(b):
            if x.op == 'store' and not mentions_iter(x.a[1], L) and (i is None or i is x.a[1]):
                i = x.a[1]
            elif x is not a:
                i = False
                break
        if i:
            base = a.a[0] if a.op == 'store' and a.a[1] is i else a
            if base.op != 'ite' and all(x is a or x.a[0] is base for x in leafset(b)):
                self.leafdiff(root, path + (raw('ix', i),), sel(a, i), sel(b, i), out, L)
                return
        out.append((root, path))

    def loop(self, s, body, inc):
        pre = dict(self.env)
        NLOOP[0] += 1
        L = NLOOP[0]
        seedkey = (self.frame.path, id(s))
        lp = Loop(L, self.depth, self.cur)
        self.loops[L] = lp
        self.stats['loops'].add(self.cur)
        phis = {}
        seen0 = self.seeds.get(seedkey)
        if seen0:
            for loc in seen0:
                phis[loc] = None
        itv = raw('it', L)
        pc0 = self.pc
        npf = 0
        n_outer = 0
        dec, blocked = {}, set()   # pointers among known objects
        while True:
            n_outer += 1
            if n_outer > 40:
                self.fail('loop does not stabilise: %s' % ', '.join(loc_name(l) for l in add_))
            # closed substitutions found so far are recomputed once the location set is stable
            env0 = dict(pre)
            for loc in list(phis):
                root, path = loc
                if root not in env0:
                    if root.op in ('hroot', 'g', 'par', 'this', 'root'):
                        env0[root] = self.initial(root) if root is not HEAP else MNIL
                        pre[root] = env0[root]
                    else:
                        del phis[loc]
                        continue
                if phis[loc] is None:
                    npf += 1
                    phis[loc] = raw('phi', L, npf)
                    self.phiname[phis[loc]] = loc_name(loc)
                env0[root] = self.upd(env0[root], path, 0, dec[loc].value() if loc in dec else phis[loc])
            back, brk, rets, th = self.run_iter(env0, body, inc)
            if back is None:
                break
            bpc, benv = back
            benv = self.endreify(benv, L, pre)
            redo = False
            for loc in phis:
                if loc in blocked or loc[0] not in benv:
                    continue
                v0, v1 = self.getpath(pre[loc[0]], loc[1]), constrain(self.getpath(benv[loc[0]], loc[1]), bpc)
                sh = ptrshapes(v0, v1, L)
                if sh is None:
                    if loc in dec:
                        del dec[loc]
                        redo = True
                    blocked.add(loc)
                elif sh:
                    if loc in dec and not (sh - set(dec[loc].shapes)):
                        continue
                    dec[loc] = PtrPhi(self, L, loc, sh | set(dec[loc].shapes if loc in dec else ()))
                    redo = True
            if redo:
                continue
            new = []
            for root, v in benv.items():
                if root in env0:
                    self.leafdiff(root, (), env0[root], v, new, L)
                elif root.op in ('hroot', 'g', 'par', 'this', 'root'):
                    i = self.initial(root) if root is not HEAP else MNIL
                    if i is not v:
                        pre[root] = i
                        self.leafdiff(root, (), i, v, new, L)
            add_ = []
            if any(all(isinstance(a, str) for a in loc[1]) and loc not in phis for loc in new):
                # positions settle once the scalars they are computed from have
                new = [loc for loc in new if all(isinstance(a, str) for a in loc[1])]
            for loc in new:
                root, path = loc
                if loc in phis:
                    continue
                # a prefix of this location may already be a phi; or it may cover existing ones
                pv = self.getpath(pre[root], path)
                bv = self.getpath(benv[root], path)
                add_.append(loc)
            if not add_:
                break
            for loc in add_:
                for o in [o for o in phis if o[0] is loc[0] and o[1][:len(loc[1])] == loc[1] and o != loc]:
                    del phis[o]
                if any(o[0] is loc[0] and loc[1][:len(o[1])] == o[1] for o in phis):
                    # covered by a whole-location phi already
                    continue
                phis[loc] = None
            if all(any(o[0] is loc[0] and loc[1][:len(o[1])] == o[1] and o != loc for o in phis) for loc in add_):
                break
        self.seeds[seedkey] = [l for l in phis if all(isinstance(a, str) for a in l[1])]
        if back is None:
            # straight-line: at most one iteration
            outs = [(b_and(pc0, p), e, v) for p, e, v in brk]
            for p, e, v in rets:
                self.frame.rets.append((b_and(pc0, p), e, v))
            for p, e, v in th:
                self.throws.append((b_and(pc0, p), e, v))
            self.env = pre
            self.join(outs)
            del self.loops[L]
            return
        bpc, benv = back
        benv = self.endreify(benv, L, pre)
        # loop-carried values
        init, nxt = {}, {}
        for loc, ph in phis.items():
            v0, v1 = self.getpath(pre[loc[0]], loc[1]), self.getpath(benv[loc[0]], loc[1])
            if loc in dec:
                v1 = constrain(v1, bpc)
                for cph, f in dec[loc].parts():
                    init[cph], nxt[cph] = f(v0), f(v1)
                continue
            init[ph] = v0
            nxt[ph] = v1
        onlyhead = len(brk) == 1 and not rets and not th and bpc is b_not(brk[0][0])
        if not onlyhead:
            for ph in nxt:
                nxt[ph] = constrain(nxt[ph], bpc)
        else:
            for ph in nxt:
                nxt[ph] = constrain(nxt[ph], bpc) if nxt[ph].op == 'ite' else nxt[ph]
        exitc = b_not(bpc)
        exits = [['b', p, e, v] for p, e, v in brk] + [['r', p, e, v] for p, e, v in rets] + [['t', p, e, v] for p, e, v in th]
        lp.entry = [p for p in self.ctx + [pc0] if p is not TRUE]
        if lp.entry:
            # what is known when the loop is entered stays true
            init = {ph: self.entered(i, lp.entry) for ph, i in init.items()}
            nxt = {ph: self.entered(n, lp.entry) for ph, n in nxt.items()}
            exitc = self.entered(exitc, lp.entry)
        sm = Summary(self, lp, init, nxt, exitc, exits)
        sm.solve()
        top = sm.n if sm.n is not None else sm.bound
        if top is None:
            # leaves for certain at some small count
            for k in range(7):
                if subst(sm.exitc, sm.it, num(k)) is TRUE:
                    top = num(k)
                    break
        if top is not None and top.op == 'n' and 0 <= TM.nval(top) <= 6 and self.unroll(body, inc, pre, pc0, int(TM.nval(top))):
            del self.loops[L]
            return
        xs = sm.xsub
        outs = []
        rall = FALSE
        for kind, p, e, v in sm.exits:
            p2 = xs(p)
            e2 = {}
            for k, w in e.items():
                o = pre.get(k)
                if o is w:
                    e2[k] = w
                    continue
                if k not in pre and k.op == 'loc':
                    # a local of the body or of a function inlined in it
                    if isinstance(v, LV) and v.root is k:
                        pass
                    else:
                        continue
                k2 = k
                if loops_in(k):
                    k2 = xs(k)
                if w.op == 'rec' or w.a:
                    w = xs(w)
                e2[k2] = w
            if isinstance(v, LVS):
                v = self.xlv(v, xs)
            elif isinstance(v, T):
                v = xs(v)
            if kind == 'b':
                outs.append((p2, e2, UNDEF))
            elif kind == 'r':
                self.frame.rets.append((b_and(pc0, p2), e2, v))
                rall = b_or(rall, p2)
            else:
                self.throws.append((b_and(pc0, p2), e2, v))
                rall = b_or(rall, p2)
        self.env = pre
        if not outs:
            self.pc = FALSE
            return
        if len(outs) == 1:
            self.env = dict(outs[0][1])
        else:
            # the exits partition the ways out of the loop
            env, _, tot = self.mergelist(outs)
            self.env = env
        self.pc = b_and(pc0, b_not(rall)) if rall is not FALSE else pc0

    def entered(self, t, facts):
        if t.op != 'ite':
            return t
        for at in sorted(atoms_of(t), key=lambda x: x.id):
            if t.op != 'ite':
                break
            a = mkite(at, TRUE, FALSE)
            for p in facts:
                r = constrain(a, p)
                if r is TRUE or r is FALSE:
                    t = TM.assume(t, at, r is TRUE)
                    break
        return t

    def unroll(self, body, inc, pre, pc0, n):
        """a loop of at most n iterations, n a small constant, is its iterations one after another"""
        env, cur = pre, pc0
        outs, rl, tl = [], [], []
        for i in range(n + 2):
            self.pc = cur
            back, brk, rets, th = self.run_iter(env, body, inc)
            outs += [(b_and(cur, p), e, v) for p, e, v in brk]
            rl += [(b_and(cur, p), e, v) for p, e, v in rets]
            tl += [(b_and(cur, p), e, v) for p, e, v in th]
            if back is None:
                cur = FALSE
                break
            cur = b_and(cur, back[0])
            env = back[1]
            if cur is FALSE:
                break
        if cur is not FALSE:
            self.env, self.pc = pre, pc0
            return False
        outs = [o for o in outs if o[0] is not FALSE]
        self.frame.rets += [o for o in rl if o[0] is not FALSE]
        self.throws += [o for o in tl if o[0] is not FALSE]
        self.env = pre
        self.join(outs)
        return True

    def xlv(self, v, xs):
        if isinstance(v, LVVal):
            return LVVal(xs(v.v))
        if isinstance(v, LVIte):
            return LVIte(xs(v.c), self.xlv(v.x, xs), self.xlv(v.y, xs))
        if isinstance(v, LVPair):
            return LVPair(self.xlv(v.base, xs), xs(v.key), v.isset)
        return LV(xs(v.root), tuple(x if isinstance(x, str) else xs(x) for x in v.path))

    def getpath(self, v, path):
        for a in path:
            v = self.access(v, a)
        return v

    def endreify(self, env, L, pre):
        """objects allocated during the iteration become values; heap cells addressed
        through iteration-dependent pointers go to the HEAP map"""
        arts = [r for r in env if r.op == 'aroot' and r not in pre]
        out = env
        if arts:
            m = {}
            self._re_env = env
            out = {}
            for k, v in env.items():
                if k.op == 'aroot' and k not in pre:
                    continue
                out[k] = self.reify_only(v, set(arts), env)
        hk = [r for r in out if r.op == 'hroot' and (('phi', L) in loops_in(r) or ('it', L) in loops_in(r))]
        if hk:
            out = dict(out)
            h = out.get(HEAP, MNIL)
            for r in sorted(hk, key=lambda z: z.id):
                v = out.pop(r)
                if v is not self.initial(r):
                    p = r.a[0]
                    if HEAP in env or True:
                        base = self.initial(r)
                        if env.get(HEAP) is not None:
                            base = mkite(has(h, p), msel(h, p), base)
                        if v is base:
                            continue
                    h = mstore(h, p, v)
            if h is not MNIL:
                out[HEAP] = h
        return out

    def reify_only(self, v, roots, env, memo=None, depth=0):
        if depth > 12:
            return v
        ms = {}
        for t in subterms(v, set()):
            if t.op == 'ptr' and t.a[0] in roots and len(t.a) == 1:
                c = env.get(t.a[0], UNDEF)
                ms[t] = raw('newobj', self.reify_only(c, roots, env, memo, depth + 1))
        if not ms:
            return v
        return substmap(v, ms, {})

    def reify(self, v):
        """pointers to objects allocated by the analysed code become newobj(content)"""
        rs = {t.a[0] for t in subterms(v, set()) if t.op == 'ptr' and t.a[0].op == 'aroot'}
        if not rs:
            return v
        seen = set()
        allr = {r for r in self.env if r.op == 'aroot'}
        return self.reify_only(v, allr, self.env)


HEAP = raw('root', 'HEAP')
PPN = [0]


def ptrshape(t):
    if t is NULL:
        return ()
    if t.op == 'ptr' and t.a[0].op in ('loc', 'this', 'par', 'g'):
        return (t.a[0],) + tuple('#' if isinstance(x, T) and x.op == 'ix' else x for x in t.a[1:])
    return None


def ptrshapes(v0, v1, L):
    """the objects a loop-carried pointer refers to; None: not all known, empty: not known to be a pointer yet"""
    out = set()
    for t in leafset(v0) | leafset(v1):
        if t is UNDEF:
            continue
        if t.op == 'phi' and t.a[0] == L:
            continue
        s = ptrshape(t)
        if s is None:
            return None
        out.add(s)
    if not any(s for s in out):
        return set()
    return out


class PtrPhi:
    """a loop-carried pointer as a choice among known objects and the positions inside them"""

    def __init__(self, ip, L, loc, shapes):
        key = lambda s: (len(s), [x if isinstance(x, str) else getattr(x, 'op', '') for x in s[1:]], s[0].id if s else 0)
        self.shapes = sorted(shapes, key=lambda s: (len(s), [str(x) if isinstance(x, str) else TM.show(x, 3) for x in s[1:]], s[0].id if s else 0))
        self.q, self.ix = [], {}

        def fresh(n):
            PPN[0] += 1
            p = raw('phi', L, 'p%d' % PPN[0])
            ip.phiname[p] = loc_name(loc) + n
            return p
        for i, s in enumerate(self.shapes):
            if i + 1 < len(self.shapes):
                self.q.append(fresh('@%d' % i))
            for k, x in enumerate(s):
                if x == '#':
                    self.ix[i, k] = fresh('[%d]' % k)

    def value(self):
        r = None
        for i in reversed(range(len(self.shapes))):
            s = self.shapes[i]
            v = NULL if not s else raw('ptr', s[0], *[raw('ix', self.ix[i, k + 1]) if x == '#' else x for k, x in enumerate(s[1:])])
            r = v if r is None else mkite(TM.tobdd(self.q[i]), v, r)
        return r

    def parts(self):
        for i, q in enumerate(self.q):
            yield q, lambda v, i=i: self.mapleaves(v, lambda t: TRUE if ptrshape(t) == self.shapes[i] else FALSE)
        for (i, k), p in self.ix.items():
            yield p, lambda v, i=i, k=k: self.mapleaves(v, lambda t: t.a[k].a[0] if ptrshape(t) == self.shapes[i] else UNDEF)

    def mapleaves(self, v, f):
        if v.op == 'ite':
            return mkite(node(v.a[0], TRUE, FALSE), self.mapleaves(v.a[1], f), self.mapleaves(v.a[2], f))
        if v is UNDEF:
            return UNDEF
        return f(v)


def isiter(v):
    if not isinstance(v, T):
        return False
    while v.op == 'ite':
        v = v.a[1]
    return v.op == 'rec' and v.a[0].op == 'iterof'


def loc_name(loc):
    return '%s%s' % (loc[0].a[-1] if loc[0].a else loc[0].op, ''.join('.' + str(x) for x in loc[1]))


def _isb(v):
    return isinstance(v, T) and TM._isbool(v)


def kat(m, i):
    return lift('kat', TM_kat, (m, i))


def TM_kat(m, i):
    if i.op == 'fpos':
        return i.a[1]
    return raw('kat', m, i)


TM.BUILD['kat'] = kat


def overwrites(n, ph, i):
    """n is the text ph with, perhaps, the character at i replaced"""
    ls = leafset(n)
    return any(x is not ph for x in ls) and all(x is ph or (x.op == 'strset' and x.a[0] is ph and x.a[1] is i) for x in ls)


def ch(s, i):
    return lift('ch', _ch, (s, i))


def _ch(s, i):
    if s.op == 's' and i.op == 'n':
        k = int(nval(i))
        b = s.a[0].encode()
        if 0 <= k < len(b):
            return num(b[k])
        if k == len(b):
            return ZERO
    return raw('ch', s, i)


TM.BUILD['ch'] = ch

_con = {}


def constrain(f, c):
    """generalised cofactor: canonical representative of f on the care set c"""
    if c is TRUE or f.op in ('b', 'n', 's', 'undef', 'null'):
        return f
    if c is FALSE:
        return UNDEF
    if TM.topatom(f) is None:
        return f
    k = (f, c)
    r = _con.get(k)
    if r is not None:
        return r
    if f.op == 'rec':
        r = mkrec(constrain(f.a[0], c), {f.a[i]: constrain(f.a[i + 1], c) for i in range(1, len(f.a), 2)})
        _con[k] = r
        return r
    a = c.a[0]
    y = TM.topatom(f)
    if y.id < a.id:
        a = y
    c1, c0 = cof(c, a, True), cof(c, a, False)
    f1, f0 = cof(f, a, True), cof(f, a, False)
    if c1 is FALSE:
        r = constrain(assume(f0, a, False), c0)
    elif c0 is FALSE:
        r = constrain(assume(f1, a, True), c1)
    else:
        r = mkite(node(a, TRUE, FALSE), constrain(f1, c1), constrain(f0, c0))
    _con[k] = r
    return r


class Summary:
    """solves the recurrences of one loop"""

    def __init__(self, ip, lp, init, nxt, exitc, exits):
        self.ip, self.lp = ip, lp
        self.L = lp.L
        self.init, self.nxt, self.exitc, self.exits = init, nxt, exitc, exits
        self.it = raw('it', lp.L)
        self.grow = {}
        self.texts = set()
        self.sub = {}      # phi -> value inside the loop (function of it)
        self.trip = None
        self.xmap = None

    def mapall(self, m):
        memo = {}
        f = lambda t: substmap(t, m, memo)
        self.nxt = {k: f(v) for k, v in self.nxt.items() if k not in m}
        self.exitc = f(self.exitc)
        ne = []
        for kind, p, e, v in self.exits:
            e2 = {}
            for k, w in e.items():
                k2 = f(k) if loops_in(k) else k
                e2[k2] = f(w) if loops_in(w) else w
            if isinstance(v, LVS):
                v = self.ip.xlv(v, f)
            elif isinstance(v, T):
                v = f(v)
            ne.append([kind, f(p), e2, v])
        self.exits = ne
        for k in list(self.sub):
            self.sub[k] = f(self.sub[k])
        self.sub.update(m)

    def solve(self):
        L, it = self.L, self.it
        changed = True
        while changed:
            changed = False
            m = {}
            for ph, n in self.nxt.items():
                i = self.init[ph]
                if n is ph:
                    m[ph] = i
                    continue
                if n.op == 'lin' or (n.op == 'n'):
                    c, d = tolin(n)
                    if len(d) == 1 and d.get(ph) == 1:
                        m[ph] = add(i, mul(num(c), it))
                if i is n and not (i is UNDEF):
                    pass
            if m:
                # nested substitutions: inits never mention this loop's phis
                self.mapall(m)
                changed = True
                continue
            # texts overwritten character by character keep their length, and what is ahead is still as it was
            for ph, n in self.nxt.items():
                i = self.init[ph]
                if i is UNDEF or ph in self.texts or mentions_iter(i, L) or not overwrites(n, ph, it):
                    continue
                self.texts.add(ph)
                self.mapall({raw('slen', ph): slen(i), raw('ch', ph, it): ch(i, it)})
                changed = True
                break
            if changed:
                continue
            # containers whose length is the same in every iteration
            for ph, n in list(self.nxt.items()):
                if ph in TM.SIZEOF or not vlike(n):
                    continue
                i = self.init[ph]
                if i is UNDEF:
                    continue
                s0 = size(i)
                rs = raw('size', ph)
                if mentions_iter(s0, L):
                    continue
                c = sub(subst(size(n), rs, s0), s0)
                if c.op == 'n':
                    grown = lambda k, c=c: mul(c, k)
                else:
                    # .. or grows by what depends on the iteration alone
                    c = lift('sub', TM._add, (size(n), neg(rs)))
                    if any(x == ('phi', L) for x in loops_in(c)) or c.op == 'n':
                        continue
                    lv, body = bind(c, it)
                    grown = lambda k, body=body, lv=lv: TM.mksum(k, body, lv)
                # a fresh name forces every term over it through the constructors again
                self.ip.npf += 1
                p2 = raw('phi', L, 'z%d' % self.ip.npf)
                self.ip.phiname[p2] = self.ip.phiname.get(ph)
                TM.setsize(p2, add(s0, grown(it)))
                self.grow[p2] = (s0, grown)
                self.nxt[p2] = self.nxt.pop(ph)
                self.init[p2] = self.init.pop(ph)
                self.mapall({ph: p2, rs: TM.SIZEOF[p2]})
                self.sub.pop(rs, None)
                changed = True
                break
            if changed:
                continue
            # a location always holding its initial value
            for ph, n in list(self.nxt.items()):
                i = self.init[ph]
                if n.op == 'ite' and leafset(n) <= {ph, i} and not mentions_iter(i, L):
                    self.mapall({ph: i})
                    changed = True
                    break
            if changed:
                continue
            # a location that always holds the same function of the others (a rotated loop)
            for ph, n in list(self.nxt.items()):
                f = self.derived(ph, n)
                if f is not None:
                    self.mapall({ph: f})
                    changed = True
                    break
        self.norm_exit()
        self.trips()
        self.joined()
        self.closed()
        self.finish()

    def derived(self, ph, n):
        if self.init[ph] is UNDEF or ph in TM.SIZEOF or vlike(n):
            return None
        if not any(x == ('phi', self.L) for x in loops_in(n)):
            # what the previous iteration computed, from the second one on
            prev = subst(n, self.it, sub(self.it, ONE)) if mentions_iter(n, self.L) else n
            if subst(prev, self.it, ZERO) is self.init[ph]:
                return prev
            return mkite(eq0(self.it), self.init[ph], prev)
        back = {m: p for p, m in self.nxt.items() if p is not ph and p not in TM.SIZEOF and m.op not in ('n', 's', 'b') and self.init[p] is not UNDEF
                and ('phi', self.L) in loops_in(m)}
        back.pop(n, None)
        if not any(m in back for m in subterms(n, set())):
            return None
        f = substmap(n, back, {})
        if f is n or ph in subterms(f, set()):
            return None
        fwd = dict(self.nxt)
        fwd[self.it] = add(self.it, num(1))
        if substmap(f, fwd, {}) is not n:
            return None
        start = {p: self.init[p] for p in self.nxt}
        start[self.it] = ZERO
        if substmap(f, start, {}) is not self.init[ph]:
            return None
        return f

    def entails(self, c):
        """the condition under which the loop is entered implies c"""
        for p in self.lp.entry:
            if TM.dreduce(b_or(b_not(p), c)) is TRUE:
                return True
        return False

    def norm_exit(self):
        """it == e  at the head means it >= e when it counts up by one from at most e"""
        it = self.it
        m = {}
        for at in atoms_of(self.exitc):
            if at.op == 'eq0' or (at.op == 'eq' and it in at.a):
                l = at.a[0] if at.op == 'eq0' else sub(at.a[0], at.a[1])
                c, d = tolin(l)
                k = d.get(it)
                if k in (1, -1):
                    e = sub(it, mul(num(k), l))   # it - e == 0
                    if mentions_iter(e, self.L):
                        continue
                    # leaving is certain when equality is reached?
                    hi = assume(self.exitc, at, True)
                    if not nonneg(e) and not self.entails(ge0(e)) and not nonneg_where(e, b_and(replace_atom(self.exitc, at, TRUE), b_not(replace_atom(self.exitc, at, FALSE)))):
                        continue
                    if hi is TRUE:
                        m[at] = e
                        continue
                    # or is so wherever the equality counts, and where that is never changes
                    lo, hi = replace_atom(self.exitc, at, FALSE), replace_atom(self.exitc, at, TRUE)
                    if b_or(b_not(lo), hi) is TRUE and not mentions_iter(b_and(hi, b_not(lo)), self.L):
                        m[at] = e
        m = {at: sub(it, e) for at, e in m.items()}
        # the same for a variable that is stepped by one in some rounds only
        for at in atoms_of(self.exitc):
            if at in m or at.op not in ('eq0', 'eq'):
                continue
            l = at.a[0] if at.op == 'eq0' else sub(at.a[0], at.a[1]) if all(x.op in TM.NUMOPS or x in self.nxt for x in at.a) else None
            if l is None or l.op == 'ite':
                continue
            c, d = tolin(l)
            for p, k in d.items():
                if p not in self.nxt or k not in (1, -1) or not leafset(self.nxt[p]) <= {p, add(p, ONE)}:
                    continue
                e = sub(p, mul(num(k), l))   # p - e == 0
                if loops_in(e) & {('phi', self.L), ('it', self.L)} or mentions_iter(e, self.L) or e.op == 'ite':
                    continue
                if nonneg(sub(e, self.init[p])) and assume(self.exitc, at, True) is TRUE:
                    m[at] = sub(p, e)
                break
        for at, e in m.items():
            new = ge0(e)
            f = lambda t: replace_atom(t, at, new)
            self.nxt = {k: f(v) for k, v in self.nxt.items()}
            self.exitc = f(self.exitc)
            self.exits = [[kind, f(p), {k: f(w) for k, w in en.items()}, f(v) if isinstance(v, T) else v] for kind, p, en, v in self.exits]

    def trips(self):
        """exit exactly when it >= n, n invariant"""
        it = self.it
        n = bound_of(self.exitc, it, self.L)
        self.n = n
        # head bound with further exits
        self.bound = None
        if n is None:
            bs = []
            for at in atoms_of(self.exitc):
                if at.op == 'ge0':
                    e = lin_bound(at, it, self.L)
                    if e is not None:
                        nb, positive = e
                        # at true means it >= nb (positive) or it < nb
                        r = assume(self.exitc, at, positive)
                        if r is TRUE:
                            bs.append((not nonneg(nb), at.id, nb))
            if bs:
                self.bound = min(bs, key=lambda b: b[:2])[2]

    def joined(self):
        """x1 + sep + x2 + sep + ... + xn: a separator after every part but the last is one before every part but the first"""
        if self.n is None:
            return
        it = self.it
        last = eq0(sub(sub(self.n, ONE), it))
        if last.op != 'ite':
            return
        at = last.a[0]
        pos = last.a[1] is TRUE
        for ph, n in list(self.nxt.items()):
            if at not in atoms_of(n):
                continue
            hi, lo = assume(n, at, pos), assume(n, at, not pos)
            ls = leafset(hi)
            if not all(x.op == 'cat' and x.a[0] is ph for x in ls) or not all(x.op == 'cat' and x.a[0] is ph for x in leafset(lo)):
                continue
            # the separator: what the last parts lack
            a = next(iter(ls))
            g = pathto(hi, a)
            b = lo
            for c, v in g:
                b = assume(b, c, v)
            if b.op != 'cat':
                continue
            sep = None
            x, y = a.a, b.a
            if len(y) == len(x) + 1 and y[:-1] == x and y[-1].op == 's':
                sep = y[-1]
            elif len(y) == len(x) and y[:-1] == x[:-1] and x[-1].op == 's' and y[-1].op == 's' and y[-1].a[0].startswith(x[-1].a[0]):
                sep = string(y[-1].a[0][len(x[-1].a[0]):])
            if sep is None or TM.cat(hi, sep) is not lo:
                continue
            # nothing else reads the text built so far
            used = set()
            for p, m in self.nxt.items():
                if p is not ph:
                    subterms(m, used)
            subterms(self.exitc, used)
            for x in ls:
                for z in x.a[1:]:
                    subterms(z, used)
            for at2 in atoms_of(n):
                subterms(at2, used)
            for L2, l2 in self.ip.loops.items():
                if l2.depth > self.lp.depth:
                    for t in [l2.exit] + list(l2.next.values()) + list(l2.init.values()) + list(l2.sub.values()):
                        if t is not None and ('phi', self.L) in loops_in(t):
                            subterms(t, used)
            if ph in used:
                continue
            rest = lift('joinrest', lambda z: TM.cat(*z.a[1:]), (hi,))
            self.nxt[ph] = mkite(eq0(it), hi, TM.cat(ph, sep, rest))

    def closed(self):
        L, it = self.L, self.it
        dom = self.n
        self.exitval = {}
        if dom is None:
            return
        xn = dom if nonneg(dom) else mkite(ge0(dom), dom, ZERO)
        changed = True
        while changed:
            changed = False
            for ph, n in list(self.nxt.items()):
                r = self.close1(ph, n, xn)
                if r is None:
                    continue
                inloop, atexit = r
                self.exitval[ph] = atexit
                self.exitval = {k: (substmap(v, {ph: inloop}, {}) if k is not ph else v) for k, v in self.exitval.items()}
                self.mapall({ph: inloop})
                changed = True
                break
            if changed:
                continue
            for ph, n in list(self.nxt.items()):
                f = self.derived(ph, n)
                if f is not None:
                    self.mapall({ph: f})
                    changed = True
                    break
        self.xn = xn

    def close1(self, ph, n, xn):
        L, it = self.L, self.it
        init = self.init[ph]
        if mentions_iter(init, L):
            return None
        ls = leafset(n)
        others = lambda t: any(x[0] == 'phi' and x[1] == L for x in loops_in(t))
        # accumulate: every leaf is phi + e
        if all((x is ph) or (x.op == 'lin' and tolin(x)[1].get(ph) == 1) for x in ls):
            e = lift('sub', TM._add, (n, neg(ph)))
            if others(e):
                return None
            lv, body = bind(e, it)
            return add(init, TM.mksum(it, body, lv)), add(init, TM.mksum(xn, body, lv))
        # text
        if all(x is ph or (x.op == 'cat' and x.a[0] is ph) for x in ls) and any(x is not ph for x in ls):
            e = lift(('catl', ph), lambda z: EMPTY if z is ph else TM.cat(*z.a[1:]), (n,))
            if not others(e):
                lv, body = bind(e, it)
                return TM.cat(init, TM.mkcatall(it, body, lv)), TM.cat(init, TM.mkcatall(xn, body, lv))
        if overwrites(n, ph, it) and xn is slen(init):
            e = lift(('chrl', ph, it, init), lambda z: self.ip.models.chstr(ch(init, it)) if z is ph else self.ip.models.chstr(z.a[2]), (n,))
            if not others(e):
                lv, body = bind(e, it)
                return TM.cat(TM.mkcatall(it, body, lv), TM.substr(init, it)), TM.mkcatall(xn, body, lv)
        # members of a set
        if any(x.op == 'sadd' for x in ls):
            b = addedkeys(n, ph)
            if b is not None and not others(b):
                lv, body = bind(b, it)
                return TM.addkeys(init, it, body, lv), TM.addkeys(init, xn, body, lv)
        # append
        if any(x.op == 'push' for x in ls) and all(appends(x, ph) is not None for x in ls):
            b = lift('apl', lambda z, p: raw('lst', *(appends(z, p) or ())), (n, ph))
            if others(b):
                return None
            lv, body = bind(b, it)
            return vcat(init, TM.mkcollect(it, body, lv)), vcat(init, TM.mkcollect(xn, body, lv))
        # element-wise overwriting at consecutive positions
        if any(x.op == 'store' for x in ls):
            c = None
            for x in ls:
                if x is ph:
                    continue
                if x.op != 'store' or x.a[0] is not ph:
                    c = None
                    break
                k = sub(x.a[1], it)
                if mentions_iter(k, L) or (c is not None and k is not c):
                    c = None
                    break
                c = k
            if c is not None:
                pos_ = add(it, c)
                e = lift(('tabl', pos_), lambda z, p: sel(p, pos_) if z is p else z.a[2], (n, ph))
                e = subst(e, raw('sel', ph, pos_), sel(init, pos_))
                if not others(e):
                    lv, body = bind(e, it)
                    return TM.mktab(init, c, it, body, lv), TM.mktab(init, c, xn, body, lv)
        # disjunction / conjunction
        if n.op == 'ite' and TM._isbool(n):
            g1 = cofphi(n, ph, True)
            g0 = cofphi(n, ph, False)
            if g1 is TRUE and not others(g0):
                lv, body = bind(g0, it)
                return (b_or(TM.tobdd(init), TM.mkany(it, body, lv)), b_or(TM.tobdd(init), TM.mkany(xn, body, lv)))
            if g0 is FALSE and not others(g1):
                lv, body = bind(b_not(g1), it)
                return (b_and(TM.tobdd(init), b_not(TM.mkany(it, body, lv))), b_and(TM.tobdd(init), b_not(TM.mkany(xn, body, lv))))
        return None

    def finish(self):
        L, it = self.L, self.it
        lp = self.lp
        lp.exit = self.exitc
        lp.sub = self.sub
        lp.init = {ph: self.init[ph] for ph in self.nxt}
        lp.next = self.nxt
        m0 = {it: ZERO}
        m0.update(lp.init)
        lp.exit0 = substmap(lp.exit, m0, {})
        lp.init0 = dict(lp.init)
        self.deadinit()
        m = {}
        xit = raw('xit', L)
        if self.n is not None:
            m[it] = self.xn
        else:
            m[it] = xit
            if lp.exit0 is not FALSE:
                TM.XINIT[xit] = (lp.exit0, ZERO)
            fx = self.first_form()
            if fx is not None:
                m[it] = fx[0]
                self.anyat = fx[1]
        for ph in self.nxt:
            m[ph] = raw('xphi', L, ph)
            if lp.exit0 is not FALSE and lp.init0[ph] is not UNDEF:
                TM.XINIT[m[ph]] = (lp.exit0, lp.init0[ph])
            if ph in self.grow:
                s0, grown = self.grow[ph]
                TM.setsize(m[ph], add(s0, grown(m[it])))
        self.m = lp.m = m
        memo = {}
        bound = self.bound
        fact = []

        def xs(t):
            if not isinstance(t, T) or not loops_in(t):
                return t
            r = substmap(t, m, memo)
            if fact and fact[0] is not TRUE and r.op in ('ite', 'rec'):
                r = constrain(r, fact[0])
            return r
        # exit values with a dedicated closed form
        if self.n is not None:
            # in the only exit, it == n: use closed exit forms (same as substituting it)
            pass
        elif bound is not None:
            if fx is not None:
                # it < bound at the exit iff some index satisfies the break condition
                TM.FIRSTB[m[it]] = (bound, self.anyat)
                # the first index that satisfies the condition satisfies it
                f = b_or(b_not(self.anyat), substmap(self.fg, {it: m[it]}, {}))
                if f is not FALSE:
                    fact.append(f)
            else:
                TM.BOUND[xit] = bound
        self.xsub = xs

    def deadinit(self):
        """a value no iteration reads, in a loop that completes one iteration, has an irrelevant start"""
        lp = self.lp
        seen = set()
        work = [lp.exit] + list(lp.next.values())
        for L2, l2 in self.ip.loops.items():
            if l2.depth > lp.depth:
                for t in [l2.exit] + list(l2.next.values()) + list(l2.init.values()) + list(l2.sub.values()):
                    if t is not None and ('phi', self.L) in loops_in(t):
                        work.append(t)
        done = set()
        while work:
            subterms(work.pop(), seen)
            for p, v in lp.sub.items():
                if p in seen and p not in done:
                    done.add(p)
                    work.append(v)
        dead = [p for p in self.nxt if p not in seen and lp.init[p] is not UNDEF]
        if not dead:
            return
        if constrain(lp.exit0, self.ip.pc) is FALSE:
            for p in dead:
                lp.init[p] = UNDEF

    def first_form(self):
        """exit iff it >= bound or g(it), g free of this loop's phis"""
        b = self.bound
        if b is None or not nonneg(b):
            return None
        at = ge0(sub(self.it, b))
        a0 = at.a[0]
        g = assume(self.exitc, a0, at.a[1] is not TRUE)
        if any(x == ('phi', self.L) for x in loops_in(g)):
            return None
        lv, body = bind(g, self.it)
        self.fg = g
        return TM.mkfirst(b, body, lv), TM.mkany(b, body, lv)


def appends(x, ph):
    out = []
    while x is not ph:
        if x.op != 'push':
            return None
        out.append(x.a[1])
        x = x.a[0]
    out.reverse()
    return tuple(out)


def vlike(n):
    """a container updated in place"""
    return any(x.op in ('push', 'store', 'phi', 'xphi', 'tab', 'collect', 'vresize', 'vfill') for x in leafset(n)) and (n.op != 'phi' or n in TM.SIZEOF)


def leafset(t, memo=None):
    s = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            st.append(x.a[1])
            st.append(x.a[2])
        else:
            s.add(x)
    return s


def pathto(t, leaf):
    """the decisions that lead to a leaf"""
    seen = set()

    def go(x):
        if x is leaf:
            return []
        if x.op != 'ite' or x in seen:
            return None
        seen.add(x)
        for b, v in ((x.a[1], True), (x.a[2], False)):
            r = go(b)
            if r is not None:
                return [(x.a[0], v)] + r
        return None
    return go(t)


def atoms_of(t):
    s = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            s.add(x.a[0])
            st.append(x.a[1])
            st.append(x.a[2])
    return s


def replace_atom(t, at, new):
    if not isinstance(t, T):
        return t
    memo = {}

    def go(x):
        if x.id < at.id or not x.a:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'ite' and x.a[0] is at:
            r = mkite(new, go(x.a[1]), go(x.a[2]))
        else:
            na = tuple(go(z) if isinstance(z, T) else z for z in x.a)
            r = x if na == x.a else rebuild(x.op, na)
        memo[x] = r
        return r
    return go(t)


def lin_bound(at, it, L):
    """atom ge0(lin): returns (n, True) if it says it >= n, (n, False) if it says it < n"""
    c, d = tolin(at.a[0])
    k = d.get(it)
    if k == 1:
        n = sub(it, at.a[0])
        if not mentions_iter(n, L):
            return n, True
    if k == -1:
        n = add(add(at.a[0], it), ONE)
        if not mentions_iter(n, L):
            return n, False
    return None


def nonneg_where(e, g):
    """e is not negative where g holds, g saying that some of the sizes in e are not zero"""
    m = {}
    for at in atoms_of(g):
        if at.op == 'eq0' and assume(g, at, True) is FALSE:
            c, d = tolin(at.a[0])
            if c == 0 and len(d) == 1 and set(d.values()) <= {1, -1}:
                v = list(d)[0]
                if nonneg(v):
                    m[v] = add(v, ONE)
    if not m:
        return False
    # x -> x + 1 in the linear form alone: the values left are those of x - 1
    c, d = tolin(e)
    r = num(c)
    for v, k in d.items():
        r = add(r, mul(num(k), m.get(v, v)))
    return nonneg(r)


def bound_of(x, it, L):
    if x.op == 'ite' and x.a[0].op == 'eq0' and x.a[0].a[0] is it and x.a[1] is FALSE and x.a[2] is TRUE:
        return ONE
    if x.op == 'ite' and x.a[1].op == 'b' and x.a[2].op == 'b' and x.a[0].op == 'ge0':
        r = lin_bound(x.a[0], it, L)
        if r is None:
            return None
        n, positive = r
        if positive == (x.a[1] is TRUE):
            return n
    return None


def cofphi(n, ph, val):
    at = ph
    m = TM.assume(n, at, val)
    return m

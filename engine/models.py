"""Value-level models of the library operations the repository calls: standard
containers, strings, iterators, algorithms, streams, Json::Value, the CSV reader and
the transducer containers.  A model only relates terms; nothing is run."""
import re
from terms import *
import terms as TM
import interp as I
from interp import (isiter, LV, LVIte, LVPair, LVVal, LVS, Unsupported, splitname, notempl, targs, strip, isstr, kat, ch, _isb,
                    INTS, FLTS, STREAM0, HEAP, constrain)

GLOBALS = {}
REPOCALLS = {}

# ------------------------------------------------------------------ helpers


def chstr(c):
    def f(z):
        if z.op == 'n':
            return string(chr(int(nval(z))))
        return raw('chstr', z)
    return lift('chstr', f, (c,))


TM.BUILD['chstr'] = chstr


def replaceall(s, p, q, x, y):
    if p is ZERO and q is slen(s) and x.op == 'n' and y.op == 'n':
        out = []
        for z in TM.pieces(s):
            if z.op == 's':
                out.append(string(z.a[0].replace(chr(int(TM.nval(x))), chr(int(TM.nval(y))))))
            else:
                f = raw('fv', 'replace')
                c = raw('ch', z, f)
                lv, body = TM.bind(mkite(ieq(c, x), chstr(y), chstr(c)), f)
                out.append(TM.mkcatall(slen(z), body, lv))
        return cat(*out)
    return raw('replaceall', s, p, q, x, y)


TM.BUILD['replaceall'] = lambda *a: lift('replaceall', replaceall, a)
TM.BUILD['strset'] = lambda *z: lift('strset', lambda *y: raw('strset', *y), z)


def u(op, *a):
    """uninterpreted value operation"""
    return lift(('u', op), lambda *z: raw(op, *z), a)


def itoa(x):
    def f(z):
        if z.op == 'n':
            return string(str(nval(z)))
        return raw('itoa', z)
    return lift('itoa', f, (x,))


TM.BUILD['itoa'] = itoa


def fnparams(key):
    """parameter types of a function key"""
    if '(' not in key:
        return []
    d = 0
    # last top-level parenthesised group
    i = key.rfind(')')
    j = i
    while j >= 0:
        if key[j] == ')':
            d += 1
        elif key[j] == '(':
            d -= 1
            if d == 0:
                break
        j -= 1
    s = key[j + 1:i]
    out, cur, d = [], '', 0
    for c in s:
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def mkiter(ptr, kind, pos, rev=False):
    base = lift(('iterof', kind, rev), lambda p: raw('iterof', p, kind, rev), (ptr,))
    return mkrec(base, {'#pos': pos})


TM.BUILD['backins'] = lambda p: lift('backins', lambda z: raw('backins', z), (p,))
TM.BUILD['iterof'] = lambda p, k, r: lift(('iterof', k, r), lambda z: raw('iterof', z, k, r), (p,))


def kindof(cls):
    b = notempl(cls)
    if b in ('std::basic_string', 'std::basic_string_view'):
        return 's'
    if b in ('std::map', 'std::unordered_map', 'std::multimap'):
        return 'm'
    if b in ('std::set', 'std::unordered_set', 'std::multiset'):
        return 'set'
    return 'v'


def csize(ip, v, kind):
    return slen(v) if kind == 's' else size(v)


def iterparts(it):
    """-> (base term, pos)"""
    if it.op == 'rec':
        return it.a[0], fld(it, '#pos')
    return it, fld(it, '#pos')


def iterlv(ip, it, off=ZERO):
    it = ip.known(it)
    base = TM._bases(it) if it.op in ('rec', 'ite') else it
    pos = add(fld(it, '#pos'), off)
    return _iterlv(ip, base, pos)


def _iterlv(ip, base, pos):
    if base.op == 'ite':
        return LVIte(node(base.a[0], TRUE, FALSE), _iterlv(ip, base.a[1], pos), _iterlv(ip, base.a[2], pos))
    if base.op != 'iterof':
        if base is UNDEF:
            return LVVal(UNDEF)
        return LV(raw('hroot', mkrec(base, {'#pos': pos})))
    p, kind, rev = base.a
    c = ip.deref(p)
    if rev:
        pos = sub(sub(csize(ip, ip.load(c), kind), ONE), pos)
    if kind == 'v':
        return ip.acclv(c, raw('ix', pos))
    if kind == 's':
        return ip.acclv(c, raw('chx', pos))
    if kind == 'm':
        return ip.lvpair(c, pos, False)
    if kind == 'set':
        return LVVal(kat(ip.load(c), pos))
    raise Unsupported('iterator kind')


def itercont(ip, it):
    """container lvalue and kind of an iterator value"""
    it = ip.known(it)
    base = TM._bases(it) if it.op in ('rec', 'ite') else it
    base = ip.known(base)
    if base.op != 'iterof':
        raise Unsupported('iterator with unresolved container ' + show(base))
    return ip.deref(base.a[0]), base.a[1], base.a[2]


def slice_(ip, b, e):
    if b.op == 'rec' and b.a[0].op == 'istreamit':
        ws = wordsof(fld(b, 'src'), fld(b, '#lines'))
        p = fld(b, '#pos')
        return ws if p is ZERO else TM.vslice(ws, p, size(ws))
    c, kind, rev = itercont(ip, b)
    v = ip.load(c)
    p, q = fld(b, '#pos'), fld(e, '#pos')
    if kind == 's':
        r = substr(v, p, sub(q, p)) if q is not slen(v) else substr(v, p)
    elif kind == 'v':
        r = TM.vslice(v, p, q)
        if rev:
            n = size(v)
            r = TM.vrev(TM.vslice(v, sub(n, q), sub(n, p)))
    else:
        r = u('mapseq', v) if p is ZERO and q is size(v) else u('mapslice', v, p, q)
    return r


# ------------------------------------------------------------------ defaults

def default(ip, t, b):
    if 'VectorFst' in b or b.endswith('MutableFst'):
        return mkrec(UNDEF, {'states': VNIL, 'start': num(-1), 'isyms': NULL, 'osyms': NULL})
    if b.endswith('SymbolTable'):
        return raw('symtab0')
    if b == 'std::chrono::time_point' or b.startswith('std::chrono'):
        return raw('time')
    return None


def declared(ip, v, lv):
    t = notempl(strip(v['t']))
    if t in ('std::basic_ofstream', 'std::basic_fstream'):
        ip.ofs.setdefault(ip.frame.path, []).append(lv)


def returned(ip):
    """a return destroys the streams of every block it leaves"""
    for lv in ip.ofs.get(ip.frame.path, ()):
        if lv.root in ip.env:
            fclose(ip, lv)


def scope_exit(ip, s):
    """destructors with effects: an output file still open is written"""
    if ip.pc is FALSE:
        return
    for x in s['s']:
        if x['k'] == 'decl':
            for v in x['v']:
                if notempl(strip(v['t'])) in ('std::basic_ofstream', 'std::basic_fstream') and not v.get('ref'):
                    lv = LV(raw('loc', ip.frame.path, v['id']))
                    if lv.root in ip.env:
                        fclose(ip, lv)


def fclose(ip, lv):
    v = ip.load(lv)
    op = fld(v, '#open')
    op = TM.tobdd(op) if op is not UNDEF else FALSE
    if op is FALSE:
        return
    fr = LV(ip.files)
    f = ip.load(fr)
    # content reaches the named file when the stream closes
    if fld(v, '#out') is TRUE:
        nf = mstore(f, fld(v, '#path'), fld(v, '#buf'))
        ip.store(fr, mkite(op, nf, f))
    ip.store(ip.fieldlv(lv, '#open'), FALSE)


def fopen(ip, lv, path, out):
    ip.store(ip.fieldlv(lv, '#path'), path)
    ip.store(ip.fieldlv(lv, '#open'), TRUE)
    ip.store(ip.fieldlv(lv, '#pos'), ZERO)
    ip.store(ip.fieldlv(lv, '#word'), ZERO)
    ip.store(ip.fieldlv(lv, '#buf'), EMPTY)
    if out:
        ip.store(ip.fieldlv(lv, '#out'), TRUE)
        ip.store(ip.fieldlv(lv, '#ok'), TM.tobdd(u('canwrite', path)))
    else:
        ip.store(ip.fieldlv(lv, '#src'), u('filetext', path))
        ip.store(ip.fieldlv(lv, '#ok'), TM.tobdd(u('canopen', path)))


# ------------------------------------------------------------------ constructors

def construct(ip, e, t, b, a):
    if b in ('std::basic_string', 'std::basic_string_view'):
        if not a:
            return EMPTY
        vs = [ip.rv(x) for x in a]
        if len(a) == 1:
            if e.get('sil') or strip(a[0].get('t', '')).startswith('std::initializer_list'):
                r = EMPTY
                v = vs[0]
                return u('strof', v)
            return vs[0]
        t0 = strip(a[0].get('t', ''))
        if len(a) == 2:
            if t0 in INTS:
                return chstr(vs[1]) if vs[0] is ONE else u('strfill', vs[0], vs[1])
            if 'iterator' in t0 or isiter(vs[0]):
                return slice_(ip, vs[0], vs[1])
            if isstr(t0):
                return substr(vs[0], vs[1])
            return substr(vs[0], ZERO, vs[1])
        if len(a) == 3 and isstr(t0):
            return substr(vs[0], vs[1], vs[2])
        return u('strctor', *vs)
    if b in ('std::vector', 'std::list', 'std::deque', 'std::initializer_list', 'std::queue', 'std::stack'):
        if not a:
            return VNIL
        el = targs(t)[0]
        if e.get('sil') or (len(a) == 1 and a[0]['k'] == 'init'):
            return ip.rv(a[0])
        vs = [ip.rv(x) for x in a]
        t0 = strip(a[0].get('t', ''))
        if len(a) == 1:
            if t0 in INTS:
                return TM.vfill(vs[0], ip.dflt(el, True))
            return vs[0]
        if 'iterator' in t0 or isiter(vs[0]):
            return slice_(ip, vs[0], vs[1])
        return TM.vfill(vs[0], vs[1])
    if b in ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap', 'std::multiset'):
        if not a:
            return MNIL
        if e.get('sil') or a[0]['k'] == 'init':
            v = ip.rv(a[0])
            items = []
            while v.op == 'push':
                items.append(v.a[1])
                v = v.a[0]
            m = MNIL
            for x in reversed(items):
                m = sadd(m, x) if 'set' in b else mapinsert(m, fld(x, 'first'), fld(x, 'second'))
            return m
        vs = [ip.rv(x) for x in a]
        t0 = strip(a[0].get('t', ''))
        if len(vs) >= 2 and ('iterator' in t0 or isiter(vs[0])):
            return u('ofseq', slice_(ip, vs[0], vs[1]))
        if notempl(t0) == b:
            return vs[0]
        return MNIL
    if b in ('std::shared_ptr', 'std::unique_ptr', 'std::weak_ptr'):
        if not a:
            return NULL
        return ip.rv(a[0])
    if b == 'std::pair':
        if not a:
            return ip.dflt(t, True)
        if len(a) == 1:
            return ip.rv(a[0])
        x, y = ip.rv(a[0]), ip.rv(a[1])
        return mkrec(UNDEF, {'first': x, 'second': y})
    if b == 'std::tuple':
        if not a:
            return ip.dflt(t, True)
        if len(a) == 1 and notempl(strip(a[0].get('t', ''))) == 'std::tuple':
            return ip.rv(a[0])
        return mkrec(UNDEF, {'#%d' % i: ip.rv(x) for i, x in enumerate(a)})
    if b == 'std::optional':
        if not a:
            return ip.dflt(t)
        v = ip.rv(a[0])
        t0 = strip(a[0].get('t', ''))
        if 'nullopt' in t0:
            return ip.dflt(t)
        if notempl(t0) == 'std::optional':
            return v
        return mkrec(UNDEF, {'#has': TRUE, '#val': v})
    if b == 'std::function':
        return ip.rv(a[0]) if a else NULL
    if b == 'Json::Value':
        if not a:
            return MNIL
        v = ip.rv(a[0])
        if 'ValueType' in a[0].get('t', ''):
            return MNIL
        return v
    if b.startswith('std::basic_') and 'stream' in b:
        r = ip.temp(e, STREAM0())
        if a:
            v = ip.rv(a[0])
            if 'fstream' in b:
                fopen(ip, r, v, 'ofstream' in b)
            elif strip(a[0].get('t', '')).startswith('std::_Ios') or strip(a[0].get('t', '')) in INTS:
                pass
            else:
                ip.store(ip.fieldlv(r, '#src'), v)
                ip.store(ip.fieldlv(r, '#buf'), v)
                ip.store(ip.fieldlv(r, '#ok'), TRUE)
        v = ip.load(r)
        return v
    if b == 'std::istream_iterator':
        if not a:
            return raw('istreamend')
        st = ip.load(ip.lv(a[0]))
        src = fld(st, '#src')
        return mkrec(raw('istreamit'), {'src': src, '#lines': fld(st, '#pos'), '#pos': wordpos(st)})
    if b == 'std::ostream_iterator':
        l = ip.lv(a[0])
        sep = ip.rv(a[1]) if len(a) > 1 else EMPTY
        return lift('ostreamit', lambda *z: raw('ostreamit', *z), (ip.addr(l), sep))
    if 'iterator' in b or b.endswith('_Bit_reference'):
        if not a:
            return UNDEF
        if notempl(b) == 'std::reverse_iterator' and 'reverse' not in notempl(strip(a[0].get('t', ''))):
            v = ip.rv(a[0])
            c, kind, rev = itercont(ip, v)
            return mkiter(ip.addr(c), kind, sub(csize(ip, ip.load(c), kind), fld(v, '#pos')), True)
        return ip.rv(a[0])
    if b in ('std::allocator', 'std::hash', 'std::equal_to', 'std::less'):
        return UNDEF
    if b.endswith('ArcIterator'):
        p = ip.addr(ip.lv(a[0]))
        s = ip.rv(a[1])
        return mkrec(lift('arcit', lambda z: raw('arcit', z), (p,)), {'#s': s, '#pos': ZERO})
    if b.endswith('StateIterator'):
        p = ip.addr(ip.lv(a[0]))
        return mkrec(lift('stateit', lambda z: raw('stateit', z), (p,)), {'#pos': ZERO})
    if b.endswith('ArcTpl') or b.endswith('StdArc'):
        if not a:
            return UNDEF
        if len(a) == 1:
            return ip.rv(a[0])
        vs = [ip.rv(x) for x in a]
        if len(vs) == 3:
            return mkrec(UNDEF, {'ilabel': vs[0], 'olabel': vs[1], 'weight': ZERO, 'nextstate': vs[2]})
        return mkrec(UNDEF, dict(zip(('ilabel', 'olabel', 'weight', 'nextstate'), vs)))
    if b.endswith('TropicalWeightTpl') or b.endswith('FloatWeightTpl'):
        return ip.rv(a[0]) if a else UNDEF
    if 'VectorFst' in b:
        if not a:
            return ip.dflt(t)
        return ip.rv(a[0])
    if b.endswith('SymbolTable'):
        return raw('symtab0')
    if b.endswith('SymbolTableIterator'):
        return mkrec(lift('symit', lambda z: raw('symit', z), (ip.rv(a[0]),)), {'#pos': ZERO})
    if b == 'CLI::App':
        return raw('capp')
    if b.endswith('CSVReader'):
        vs = [ip.rv(x) for x in a]
        return mkrec(UNDEF, {'#src': u('csvtext', vs[0]), '#pos': ZERO, '#cols': VNIL, '#name': vs[0]})
    vs = [ip.rv(x) for x in a]
    if not vs:
        d = ip.dflt(t, True)
        return d
    if len(vs) == 1 and ('error' in b or 'exception' in b):
        return vs[0]
    return u('new:' + b, *vs)


def mapinsert(m, k, v):
    return mkite(has(m, k), m, mstore(m, k, v))


def make(ip, e, cls, args):
    """construct an object of class cls from argument expressions"""
    r = ip.prog.recs.get(strip(cls))
    if r is not None:
        if len(args) == 1 and strip(args[0].get('t', '')) == strip(cls):
            return ip.rv(args[0])
        cands = [f for f in ip.prog.fns.values() if f.cls == r['q'] and f.d.get('ctor') and f.body is not None]
        cands = [f for f in cands if len(f.params) == len(args) or
                 (len(f.params) > len(args) and all(p.get('init') is not None for p in f.params[len(args):]))]
        cands = [f for f in cands if not (len(f.params) == 1 and strip(f.params[0]['t']) == strip(cls))]
        if len(cands) > 1:
            def score(f):
                return sum(1 for p, x in zip(f.params, args) if strip(p['t']) == strip(x.get('t', '')))
            cands.sort(key=score, reverse=True)
        d = ip.dflt(cls, not cands)
        if ip.ispoly(cls):
            d = mkrec(d, {'#cls': string(strip(cls))})
        lv = ip.temp(e, d, 'mk')
        if cands:
            fn = cands[0]
            bound = ip.bindargs(fn, args)
            for p in fn.params[len(args):]:
                bound.append(ip.rv(p['init']))
            if ip.opaque(fn):
                v = ip.ucall(fn.q.replace('spec::', '').replace('_::', '::'), [ip.load(x) if isinstance(x, LVS) else x for x in bound])
                if ip.ispoly(cls):
                    v = mkrec(v, {'#cls': string(strip(cls))})
                return v
            ip.inlinector(fn, lv, bound, e)
        elif args:
            raise Unsupported('no constructor of %s with %d arguments' % (cls, len(args)))
        return ip.load(lv)
    e2 = {'k': 'ctor', 't': cls, 'a': args, 'l': e.get('l')}
    return construct(ip, e2, strip(cls), notempl(strip(cls)), args)


# ------------------------------------------------------------------ dispatch

METH = {}
FREE = {}


def meth(groups, names):
    def d(f):
        for g in groups.split():
            for n in names.split():
                METH[(g, n)] = f
        return f
    return d


def free(names):
    def d(f):
        for n in names.split():
            FREE[n] = f
        return f
    return d


GROUP = {
    'std::vector': 'vec', 'std::list': 'vec', 'std::deque': 'vec', 'std::array': 'vec', 'std::initializer_list': 'vec',
    'std::stack': 'vec', 'std::queue': 'que',
    'std::basic_string': 'str', 'std::basic_string_view': 'str',
    'std::map': 'map', 'std::unordered_map': 'map', 'std::multimap': 'map',
    'std::set': 'set', 'std::unordered_set': 'set', 'std::multiset': 'set',
    'std::shared_ptr': 'ptr', 'std::unique_ptr': 'ptr', 'std::__shared_ptr': 'ptr', 'std::__shared_ptr_access': 'ptr',
    '__gnu_cxx::__normal_iterator': 'it', 'std::_Rb_tree_iterator': 'it', 'std::_Rb_tree_const_iterator': 'it',
    'std::__detail::_Node_iterator': 'it', 'std::__detail::_Node_const_iterator': 'it', 'std::__detail::_Node_iterator_base': 'it',
    'std::reverse_iterator': 'it', 'std::_Bit_iterator': 'it', 'std::_Bit_const_iterator': 'it', 'std::_List_iterator': 'it',
    'std::_List_const_iterator': 'it', 'std::_Deque_iterator': 'it',
    'std::pair': 'pair', 'std::tuple': 'pair', 'Json::Value': 'json', 'std::function': 'fun', 'std::optional': 'opt',
    'std::_Bit_reference': 'bitref', 'CLI::App': 'cli', 'CLI::Option': 'cliopt',
}


def group(cls):
    b = notempl(cls)
    g = GROUP.get(b)
    if g:
        return g
    if 'stream' in b or b == 'std::basic_ios' or b == 'std::ios_base':
        return 'stream'
    if b.endswith('ArcIterator'):
        return 'arcit'
    if b.endswith('StateIterator'):
        return 'stateit'
    if b.endswith('SymbolTableIterator'):
        return 'symit'
    if b.endswith('SymbolTable'):
        return 'symtab'
    if 'Fst' in b and b.startswith('fst::'):
        return 'fst'
    if 'Weight' in b and b.startswith('fst::'):
        return 'weight'
    if b.endswith('ArcTpl'):
        return 'arc'
    if b.startswith('spdlog'):
        return 'log'
    if b.endswith('CSVReader'):
        return 'csv'
    if b.startswith('Json::'):
        return 'jsonx'
    return b


def call(ip, e):
    q = e['q']
    ns, name = splitname(q)
    name = notempl(name) if not name.startswith('operator') else name
    if name.startswith('operator'):
        op = e.get('op')
        name = 'operator' + op if op else ('op_bool' if e.get('t') == 'bool' else 'op_conv')
    if e.get('m') and not e.get('static'):
        g = group(e.get('cls') or ns)
        if g == 'log':
            for x in e['a'][1:]:
                ip.ev(x)
            if name == 'should_log':
                return TM.tobdd(sym('should_log'))
            return UNDEF
        h = METH.get((g, name))
        if h is None and name == 'operator=':
            return op_assign(ip, e)
        if h is not None:
            return h(ip, e, name)
        return ip_uncall(ip, e)
    b = notempl(ns)
    if ns.startswith('spdlog'):
        for x in e['a']:
            ip.ev(x)
        return raw('logger')
    full = (b + '::' + name) if b else name
    h = FREE.get(full) or FREE.get(name)
    if h is not None:
        return h(ip, e, name)
    if e.get('cls') and not name.startswith('operator'):
        h = METH.get((group(e['cls']), name))
        if h is not None:
            return h(ip, e, name)
    return ip_uncall(ip, e)


def ip_uncall(ip, e):
    obj = None
    args = e['a']
    if e.get('m') and not e.get('static'):
        o = ip.arrowbase(ip.ev(args[0]), e.get('arrow'))
        args = args[1:]
        obj = ip.temp(e, o) if isinstance(o, T) else o
        if obj is None:
            obj = LVVal(UNDEF)
    args = [x for x in args if not (x.get('def') and x['k'] == 'ctor')]
    return ip.uncall(e, obj, args)


def objlv(ip, e):
    o = ip.arrowbase(ip.ev(e['a'][0]), e.get('arrow'))
    if o is None:
        return LVVal(UNDEF)
    if isinstance(o, T):
        return ip.temp(e, o, 'obj')
    return o


def arg(ip, e, i):
    return ip.rv(e['a'][i])


def nargs(e):
    return len([x for x in e['a'] if not (x.get('def') and x['k'] == 'ctor')])


def op_assign(ip, e):
    if e['a'][0].get('q') == 'std::tie':
        w = [ip.ev(x) for x in e['a'][0]['a']]
        v = ip.rv(e['a'][1])
        pair = notempl(strip(e['a'][1].get('t', ''))) == 'std::pair'
        vs = [fld(v, ('first', 'second')[i] if pair else '#%d' % i) for i in range(len(w))]
        for l, x in zip(w, vs):
            ip.store(l, x)
        return LVVal(v)
    v = ip.rv(e['a'][1])
    l = objlv(ip, e)
    if isinstance(l, LVIte) or not isinstance(l, LVVal):
        ip.store(l, v)
    return l


# ------------------------------------------------------------------ vectors

@meth('vec', 'push_back emplace_back push')
def v_push(ip, e, name):
    l = objlv(ip, e)
    a = e['a'][1:]
    if name == 'emplace_back' or len(a) != 1:
        el = targs(strip(e.get('clst', '')))
        if len(a) == 1:
            v = ip.rv(a[0])
            r = ip.prog.recs.get(strip(el[0])) if el else None
            if r is not None and strip(a[0].get('t', '')) != strip(el[0]):
                v = make(ip, e, el[0], a)
        elif el:
            v = make(ip, e, el[0], a)
        else:
            v = u('emplaced', *[ip.rv(x) for x in a])
    else:
        v = ip.rv(a[0])
    old = ip.load(l)
    ip.store(l, push(old, v))
    return ip.acclv(l, raw('ix', size(old)))


@meth('que', 'push emplace')
def q_push(ip, e, name):
    return v_push(ip, e, name)


@meth('que', 'pop')
def q_pop(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    ip.store(l, TM.vslice(v, ONE, size(v)))
    return UNDEF


@meth('vec', 'pop_back pop')
def v_pop(ip, e, name):
    l = objlv(ip, e)
    ip.store(l, vpop(ip.load(l)))
    return UNDEF


@meth('vec que', 'operator[] at')
def v_at(ip, e, name):
    l = objlv(ip, e)
    i = arg(ip, e, 1)
    return ip.acclv(l, raw('ix', i))


@meth('vec que', 'front')
def v_front(ip, e, name):
    return ip.acclv(objlv(ip, e), raw('ix', ZERO))


@meth('vec que', 'back top')
def v_back(ip, e, name):
    l = objlv(ip, e)
    if isinstance(l, LVIte):
        return _vback(ip, l)
    return _vback(ip, l)


def _vback(ip, l):
    if isinstance(l, LVIte):
        return LVIte(l.c, _vback(ip, l.x), _vback(ip, l.y))
    return ip.acclv(l, raw('ix', sub(size(ip.load(l)), ONE)))


@meth('vec map set que json', 'size length')
def c_size(ip, e, name):
    v = ip.load(objlv(ip, e))
    return size(v) if v is not UNDEF else ZERO


@meth('vec map set que json', 'empty')
def c_empty(ip, e, name):
    v = ip.load(objlv(ip, e))
    return eq0(size(v))


@meth('vec', 'clear')
def v_clear(ip, e, name):
    ip.store(objlv(ip, e), VNIL)
    return UNDEF


@meth('map set', 'clear')
def m_clear(ip, e, name):
    ip.store(objlv(ip, e), MNIL)
    return UNDEF


@meth('vec str map set', 'reserve shrink_to_fit rehash max_load_factor')
def c_nop(ip, e, name):
    for x in e['a'][1:]:
        ip.ev(x)
    return UNDEF


@meth('vec', 'resize')
def v_resize(ip, e, name):
    l = objlv(ip, e)
    n = arg(ip, e, 1)
    el = targs(strip(e.get('clst', '')))
    x = arg(ip, e, 2) if nargs(e) > 2 else ip.dflt(el[0] if el else 'int', True)
    ip.store(l, TM.vresize(ip.load(l), n, x))
    return UNDEF


@meth('vec', 'assign')
def v_assign(ip, e, name):
    l = objlv(ip, e)
    if nargs(e) == 3:
        a, b = arg(ip, e, 1), arg(ip, e, 2)
        if strip(e['a'][1].get('t', '')) in INTS:
            ip.store(l, TM.vfill(a, b))
        else:
            ip.store(l, slice_(ip, a, b))
    else:
        ip.store(l, arg(ip, e, 1))
    return UNDEF


@meth('vec', 'insert')
def v_insert(ip, e, name):
    l = objlv(ip, e)
    p = arg(ip, e, 1)
    pos = fld(p, '#pos')
    if nargs(e) == 4:
        x = slice_(ip, arg(ip, e, 2), arg(ip, e, 3)) if 'iterator' in e['a'][2].get('t', '') or '*' in e['a'][2].get('t', '') else TM.vfill(arg(ip, e, 2), arg(ip, e, 3))
    else:
        x = arg(ip, e, 2)
        if e['a'][2]['k'] == 'init' or 'initializer_list' in e['a'][2].get('t', ''):
            pass
        else:
            x = push(VNIL, x)
    v = ip.load(l)
    if pos is size(v):
        r = vcat(v, x)
    else:
        r = vcat(vcat(TM.vslice(v, ZERO, pos), x), TM.vslice(v, pos, size(v)))
    ip.store(l, r)
    return mkiter(ip.addr(l), 'v', pos)


@meth('vec', 'erase')
def v_erase(ip, e, name):
    l = objlv(ip, e)
    p = fld(arg(ip, e, 1), '#pos')
    q = fld(arg(ip, e, 2), '#pos') if nargs(e) > 2 else add(p, ONE)
    v = ip.load(l)
    ip.store(l, vcat(TM.vslice(v, ZERO, p), TM.vslice(v, q, size(v))))
    return mkiter(ip.addr(l), 'v', p)


@meth('vec str map set', 'begin cbegin')
def c_begin(ip, e, name):
    l = objlv(ip, e)
    return mkiter(ip.addr(l), kindof(e['cls']), ZERO)


@meth('vec str map set', 'end cend')
def c_end(ip, e, name):
    l = objlv(ip, e)
    k = kindof(e['cls'])
    return mkiter(ip.addr(l), k, csize(ip, ip.load(l), k))


@meth('vec str map set', 'rbegin crbegin')
def c_rbegin(ip, e, name):
    return mkiter(ip.addr(objlv(ip, e)), kindof(e['cls']), ZERO, True)


@meth('vec str map set', 'rend crend')
def c_rend(ip, e, name):
    l = objlv(ip, e)
    k = kindof(e['cls'])
    return mkiter(ip.addr(l), k, csize(ip, ip.load(l), k), True)


@meth('vec str map set', 'swap')
def c_swap(ip, e, name):
    a, b = objlv(ip, e), ip.lv(e['a'][1])
    x, y = ip.load(a), ip.load(b)
    ip.store(a, y)
    ip.store(b, x)
    return UNDEF


@meth('vec', 'data')
def v_data(ip, e, name):
    return mkiter(ip.addr(objlv(ip, e)), 'v', ZERO)


# ------------------------------------------------------------------ strings

@meth('str', 'size length')
def s_size(ip, e, name):
    return slen(ip.load(objlv(ip, e)))


@meth('str', 'empty')
def s_empty(ip, e, name):
    return seq(ip.load(objlv(ip, e)), EMPTY)


@meth('str', 'c_str data str')
def s_cstr(ip, e, name):
    return ip.load(objlv(ip, e))


@meth('str', 'op_conv')
def s_conv(ip, e, name):
    return ip.load(objlv(ip, e))


@meth('str', 'operator[] at')
def s_at(ip, e, name):
    return ip.acclv(objlv(ip, e), raw('chx', arg(ip, e, 1)))


@meth('str', 'front')
def s_front(ip, e, name):
    return ip.acclv(objlv(ip, e), raw('chx', ZERO))


@meth('str', 'back')
def s_back(ip, e, name):
    l = objlv(ip, e)
    return ip.acclv(l, raw('chx', sub(slen(ip.load(l)), ONE)))


@meth('str', 'clear')
def s_clear(ip, e, name):
    ip.store(objlv(ip, e), EMPTY)
    return UNDEF


@meth('str', 'operator+= append push_back')
def s_append(ip, e, name):
    v = None
    n = nargs(e)
    a1 = e['a'][1]
    if n == 2:
        v = chararg(ip, e, 1)
    elif n == 3:
        x, y = arg(ip, e, 1), arg(ip, e, 2)
        if strip(a1.get('t', '')) in INTS:
            v = u('strfill', x, y) if x is not ONE else chstr(y)
        elif 'iterator' in a1.get('t', ''):
            v = slice_(ip, x, y)
        else:
            v = substr(x, ZERO, y) if not isstr(a1.get('t', '')) else substr(x, y)
    else:
        v = substr(arg(ip, e, 1), arg(ip, e, 2), arg(ip, e, 3))
    l = objlv(ip, e)
    ip.store(l, cat(ip.load(l), v))
    return l


def chararg(ip, e, i):
    x = ip.rv(e['a'][i])
    if strip(e['a'][i].get('t', 'x')) == 'char' or e['a'][i]['k'] == 'chr':
        return chstr(x)
    return x


@meth('str', 'find')
def s_find(ip, e, name):
    v = ip.load(objlv(ip, e))
    f = arg(ip, e, 2) if len(e['a']) > 2 else ZERO
    return strfind(v, chararg(ip, e, 1), f)


@meth('str', 'rfind')
def s_rfind(ip, e, name):
    v = ip.load(objlv(ip, e))
    f = arg(ip, e, 2) if len(e['a']) > 2 else num(-1)
    return TM.strrfind(v, chararg(ip, e, 1), UNIT if f.op == 'n' and nval(f) < 0 else f)


@meth('str', 'find_first_of find_last_of find_first_not_of find_last_not_of')
def s_findset(ip, e, name):
    v = ip.load(objlv(ip, e))
    x = chararg(ip, e, 1)
    f = arg(ip, e, 2) if len(e['a']) > 2 else ZERO
    if x.op == 's' and len(x.a[0]) == 1:
        if name == 'find_first_of':
            return strfind(v, x, f)
        if name == 'find_last_of':
            return TM.strrfind(v, x, UNIT if (len(e['a']) < 3 or (f.op == 'n' and nval(f) < 0)) else f)
    return u(name, v, x, f)


@meth('str', 'substr')
def s_substr(ip, e, name):
    v = ip.load(objlv(ip, e))
    p = arg(ip, e, 1) if len(e['a']) > 1 else ZERO
    n = arg(ip, e, 2) if len(e['a']) > 2 else num(-1)
    if n.op == 'n' and nval(n) < 0:
        return substr(v, p)
    return substr(v, p, n)


@meth('str', 'compare')
def s_compare(ip, e, name):
    v = ip.load(objlv(ip, e))
    n = nargs(e)
    if n == 2:
        return u('strcmp', v, arg(ip, e, 1))
    p, l, x = arg(ip, e, 1), arg(ip, e, 2), arg(ip, e, 3)
    return u('strcmp', substr(v, p, l), x)


@meth('str', 'erase')
def s_erase(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    if 'iterator' in (e['a'][1].get('t', '') if nargs(e) > 1 else ''):
        p = fld(arg(ip, e, 1), '#pos')
        q = fld(arg(ip, e, 2), '#pos') if nargs(e) > 2 else add(p, ONE)
        if q is slen(v):
            ip.store(l, substr(v, ZERO, p))
        else:
            ip.store(l, cat(substr(v, ZERO, p), substr(v, q)))
        return mkiter(ip.addr(l), 's', p)
    p = arg(ip, e, 1) if len(e['a']) > 1 else ZERO
    n = arg(ip, e, 2) if len(e['a']) > 2 else num(-1)
    if n.op == 'n' and nval(n) < 0:
        ip.store(l, substr(v, ZERO, p))
    else:
        ip.store(l, cat(substr(v, ZERO, p), substr(v, add(p, n))))
    return l


@meth('str', 'resize')
def s_resize(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    n = arg(ip, e, 1)
    c = arg(ip, e, 2) if nargs(e) > 2 else ZERO
    fits = TRUE if n.op == 'strfind' and n.a[0] is v else ge0(sub(slen(v), n))
    ip.store(l, mkite(fits, substr(v, ZERO, n), u('strpad', v, n, c)))
    return UNDEF


@meth('str', 'pop_back')
def s_popback(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    ip.store(l, substr(v, ZERO, sub(slen(v), ONE)))
    return UNDEF


@meth('str', 'insert')
def s_insert(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    p = arg(ip, e, 1)
    x = chararg(ip, e, 2)
    if p is ZERO:
        ip.store(l, cat(x, v))
    else:
        ip.store(l, cat(substr(v, ZERO, p), x, substr(v, p)))
    return l


@meth('str', 'replace')
def s_replace(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    p, n, x = arg(ip, e, 1), arg(ip, e, 2), arg(ip, e, 3)
    ip.store(l, cat(substr(v, ZERO, p), x, substr(v, add(p, n))))
    return l


@meth('str', 'assign')
def s_assign(ip, e, name):
    l = objlv(ip, e)
    ip.store(l, ip.rv(e['a'][1]) if nargs(e) == 2 else u('strassign', arg(ip, e, 1), arg(ip, e, 2)))
    return l


@meth('str', 'starts_with')
def s_starts(ip, e, name):
    return prefix(ip.load(objlv(ip, e)), chararg(ip, e, 1))


@meth('str', 'ends_with')
def s_ends(ip, e, name):
    return suffix(ip.load(objlv(ip, e)), chararg(ip, e, 1))


# ------------------------------------------------------------------ associative containers

@meth('map', 'operator[]')
def m_index(ip, e, name):
    l = objlv(ip, e)
    k = arg(ip, e, 1)
    vt = targs(strip(e.get('clst', '')))
    return m_touch(ip, l, k, vt[1] if len(vt) > 1 else strip(e.get('t', 'int')))


def m_touch(ip, l, k, vt):
    if isinstance(l, LVIte):
        # touch only where selected
        x = m_touchv(ip, ip.load(l.x), k, vt)
        y = m_touchv(ip, ip.load(l.y), k, vt)
        ip.store(l.x, mkite(l.c, x, ip.load(l.x)))
        ip.store(l.y, mkite(l.c, ip.load(l.y), y))
        return ip.acclv(l, raw('ky', k))
    m = ip.load(l)
    if not isinstance(l, LVVal):
        ip.store(l, m_touchv(ip, m, k, vt))
    return ip.acclv(l, raw('ky', k))


def m_touchv(ip, m, k, vt):
    return mkite(has(m, k), m, mstore(m, k, ip.dflt(vt, True)))


@meth('map', 'at')
def m_at(ip, e, name):
    return ip.acclv(objlv(ip, e), raw('ky', arg(ip, e, 1)))


@meth('map set', 'count')
def m_count(ip, e, name):
    return b2i(has(ip.load(objlv(ip, e)), arg(ip, e, 1)))


@meth('map set', 'contains')
def m_contains(ip, e, name):
    return has(ip.load(objlv(ip, e)), arg(ip, e, 1))


def fpos(m, k):
    return lift('fpos', lambda a, b: raw('fpos', a, b), (m, k))


TM.BUILD['fpos'] = fpos


@meth('map set', 'find')
def m_find(ip, e, name):
    l = objlv(ip, e)
    k = arg(ip, e, 1)
    return mkiter(ip.addr(l), kindof(e['cls']), fpos(ip.load(l), k))


@meth('map', 'emplace insert try_emplace insert_or_assign emplace_hint')
def m_emplace(ip, e, name):
    l = objlv(ip, e)
    n = nargs(e)
    if n == 2:
        if e['a'][1]['k'] == 'init' and '[' in e['a'][1].get('t', ''):
            p = ip.rv(e['a'][1])
            items = []
            while p.op == 'push':
                items.append(p.a[1])
                p = p.a[0]
            m = ip.load(l)
            for x in reversed(items):
                m = mapinsert(m, fld(x, 'first'), fld(x, 'second'))
            ip.store(l, m)
            return UNDEF
        p = ip.rv(e['a'][1])
        k, v = fld(p, 'first'), fld(p, 'second')
    elif n == 3:
        if name == 'insert' and 'iterator' in e['a'][1].get('t', ''):
            a, b = arg(ip, e, 1), arg(ip, e, 2)
            if 'iterator' in e['a'][2].get('t', ''):
                ip.store(l, u('mapunion', ip.load(l), slice_(ip, a, b)))
                return UNDEF
            k, v = fld(b, 'first'), fld(b, 'second')
        else:
            k, v = arg(ip, e, 1), arg(ip, e, 2)
            vt = targs(strip(e.get('clst', '')))
            r = ip.prog.recs.get(strip(vt[1])) if len(vt) > 1 else None
            if r is not None and strip(e['a'][2].get('t', '')) != strip(vt[1]):
                v = make(ip, e, vt[1], e['a'][2:])
    else:
        k = arg(ip, e, 1)
        vt = targs(strip(e.get('clst', '')))
        v = make(ip, e, vt[1], e['a'][2:])
    m = ip.load(l)
    h = has(m, k)
    if name == 'insert_or_assign':
        ip.store(l, mstore(m, k, v))
    else:
        ip.store(l, mkite(h, m, mstore(m, k, v)))
    return mkrec(UNDEF, {'first': mkiter(ip.addr(l), 'm', fpos(ip.load(l), k)), 'second': b_not(h)})


@meth('set', 'insert emplace')
def s_insert_(ip, e, name):
    l = objlv(ip, e)
    n = nargs(e)
    if n == 3 and 'iterator' in e['a'][1].get('t', ''):
        a, b = arg(ip, e, 1), arg(ip, e, 2)
        if 'iterator' in e['a'][2].get('t', ''):
            ip.store(l, u('mapunion', ip.load(l), slice_(ip, a, b)))
            return UNDEF
        k = b
    else:
        k = ip.rv(e['a'][1])
    m = ip.load(l)
    h = has(m, k)
    ip.store(l, mkite(h, m, sadd(m, k)))
    return mkrec(UNDEF, {'first': mkiter(ip.addr(l), 'set', fpos(ip.load(l), k)), 'second': b_not(h)})


@meth('map set', 'erase')
def m_erase(ip, e, name):
    l = objlv(ip, e)
    a = ip.rv(e['a'][1])
    m = ip.load(l)
    if 'iterator' in e['a'][1].get('t', ''):
        pos = fld(a, '#pos')
        k = kat(m, pos)
        ip.store(l, mdel(m, k))
        # the other iterators keep their element
        base = mkiter(ip.addr(l), kindof(e['cls']), ZERO)
        if base.op == 'rec':
            for r, v in list(ip.env.items()):
                if isinstance(v, T) and v.op == 'rec' and v.a[0] is base.a[0]:
                    q = fld(v, '#pos')
                    if q is not pos:
                        ip.env[r] = mkrec(v, {'#pos': mkite(ge0(sub(sub(q, pos), ONE)), sub(q, ONE), q)})
        return mkiter(ip.addr(l), kindof(e['cls']), pos)
    ip.store(l, mkite(has(m, a), mdel(m, a), m))
    return b2i(has(m, a))


# ------------------------------------------------------------------ smart pointers

@meth('ptr', 'get')
def p_get(ip, e, name):
    return ip.load(objlv(ip, e))


@meth('ptr', 'release')
def p_release(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    ip.store(l, NULL)
    return v


@meth('ptr', 'operator-> operator*')
def p_deref(ip, e, name):
    v = ip.load(objlv(ip, e))
    if name == 'operator->':
        return v
    return ip.deref(v)


@meth('ptr', 'op_bool')
def p_bool(ip, e, name):
    return b_not(isnull(ip.load(objlv(ip, e))))


@meth('ptr', 'reset')
def p_reset(ip, e, name):
    l = objlv(ip, e)
    ip.store(l, arg(ip, e, 1) if nargs(e) > 1 else NULL)
    return UNDEF


@meth('ptr', 'use_count unique')
def p_uc(ip, e, name):
    return u('use_count', ip.load(objlv(ip, e)))


@meth('bitref', 'op_bool op_conv')
@meth('weight', 'op_conv')
def bitref(ip, e, name):
    v = ip.load(objlv(ip, e))
    return TM.tobdd(v) if e.get('t') == 'bool' else v


@free('std::make_shared std::make_unique std::allocate_shared make_shared make_unique')
def f_make(ip, e, name):
    t = targs(strip(e['t']))
    cls = t[0]
    v = make(ip, e, cls, [x for x in e['a'] if not (x.get('def') and x['k'] == 'ctor')])
    return ip.newalloc(e, cls, v)


# ------------------------------------------------------------------ iterators

@meth('it', 'operator*')
def it_deref(ip, e, name):
    return iterlv(ip, ip.load(objlv(ip, e)))


@meth('it', 'operator->')
def it_arrow(ip, e, name):
    l = iterlv(ip, ip.load(objlv(ip, e)))
    return l if not isinstance(l, LVS) else PtrTo(l)


class PtrTo(LVVal):
    """result of iterator operator->: the member access that follows applies to the element"""
    __slots__ = ('lv',)

    def __init__(self, lv):
        self.lv = lv
        self.v = None


def step(ip, e, d):
    l = objlv(ip, e)
    v = ip.load(l)
    n = mkrec(v, {'#pos': add(fld(v, '#pos'), d)})
    ip.store(l, n)
    return v if e.get('post') else l


@meth('it', 'operator++')
def it_inc(ip, e, name):
    return step(ip, e, ONE)


@meth('it', 'operator--')
def it_dec(ip, e, name):
    return step(ip, e, num(-1))


@meth('it', 'operator+=')
def it_adda(ip, e, name):
    return step(ip, e, arg(ip, e, 1))


@meth('it', 'operator-=')
def it_suba(ip, e, name):
    return step(ip, e, neg(arg(ip, e, 1)))


def shift(it, d):
    return mkrec(it, {'#pos': add(fld(it, '#pos'), d)})


@meth('it', 'operator+')
def it_add(ip, e, name):
    return shift(ip.load(objlv(ip, e)), arg(ip, e, 1))


@meth('it', 'operator[]')
def it_idx(ip, e, name):
    return iterlv(ip, ip.load(objlv(ip, e)), arg(ip, e, 1))


@meth('it', 'operator-')
def it_sub(ip, e, name):
    v = ip.load(objlv(ip, e))
    w = arg(ip, e, 1)
    if strip(e['a'][1].get('t', '')) in INTS:
        return shift(v, neg(w))
    return sub(fld(v, '#pos'), fld(w, '#pos'))


@meth('it', 'operator== operator!= operator< operator> operator<= operator>=')
def it_cmp(ip, e, name):
    return cmpop(ip, e, name[8:], ip.load(objlv(ip, e)), arg(ip, e, 1))


@meth('it', 'base')
def it_base(ip, e, name):
    v = ip.load(objlv(ip, e))
    c, kind, rev = itercont(ip, v)
    return mkiter(ip.addr(c), kind, sub(csize(ip, ip.load(c), kind), fld(v, '#pos')), False)


def lexless(t, a, b):
    """lexicographic order of two tuples or pairs of type t"""
    pair = notempl(t) == 'std::pair'
    r = FALSE
    for i, et in reversed(list(enumerate(targs(t)))):
        n = ('first', 'second')[i] if pair else '#%d' % i
        x, y = fld(a, n), fld(b, n)
        et = strip(et)
        if notempl(et) in ('std::tuple', 'std::pair'):
            lt, gt = lexless(et, x, y), lexless(et, y, x)
        elif isstr(et):
            lt, gt = TM.tobdd(u('lt:str', x, y)), TM.tobdd(u('lt:str', y, x))
        elif I.isfloat(et):
            lt, gt = I.flt(x, y), I.flt(y, x)
        else:
            lt, gt = ilt(x, y), ilt(y, x)
        r = b_or(lt, b_and(b_not(gt), r))
    return r


def cmpop(ip, e, op, a, b):
    ts = [strip(x.get('t', '')) for x in e['a'][:2]]
    if op in ('==', '!='):
        r = ip.equal(a, b)
        return r if op == '==' else b_not(r)
    if any('iterator' in t for t in ts):
        a, b = fld(a, '#pos'), fld(b, '#pos')
        return {'<': lambda: ilt(a, b), '>': lambda: ilt(b, a), '<=': lambda: ile(a, b), '>=': lambda: ile(b, a)}[op]()
    if any(notempl(t) in ('std::tuple', 'std::pair') for t in ts):
        t = [t for t in ts if notempl(t) in ('std::tuple', 'std::pair')][0]
        f = lambda x, y: lexless(t, x, y)
        return {'<': lambda: f(a, b), '>': lambda: f(b, a), '<=': lambda: b_not(f(b, a)), '>=': lambda: b_not(f(a, b))}[op]()
    k = 'lt:' + ('str' if any(isstr(t) for t in ts) else notempl(ts[0]))
    f = lambda x, y: TM.tobdd(u(k, x, y))
    return {'<': lambda: f(a, b), '>': lambda: f(b, a), '<=': lambda: b_not(f(b, a)), '>=': lambda: b_not(f(a, b))}[op]()


@free('operator== operator!= operator< operator> operator<= operator>=')
def f_cmp(ip, e, name):
    a = chararg2(ip, e['a'][0])
    b = chararg2(ip, e['a'][1])
    return cmpop(ip, e, name[8:], a, b)


def chararg2(ip, x):
    v = ip.rv(x)
    return v


@free('operator-')
def f_minus(ip, e, name):
    a, b = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    if 'iterator' in e['a'][0].get('t', ''):
        return sub(fld(a, '#pos'), fld(b, '#pos'))
    return u('op-', a, b)


@free('operator+')
def f_plus(ip, e, name):
    ts = [strip(x.get('t', '')) for x in e['a']]
    vs = [ip.rv(x) for x in e['a']]
    if any('iterator' in t for t in ts):
        return shift(vs[0], vs[1]) if 'iterator' in ts[0] else shift(vs[1], vs[0])
    out = []
    for x, t, v in zip(e['a'], ts, vs):
        out.append(chstr(v) if t == 'char' or x['k'] == 'chr' else v)
    return cat(*out)


@meth('pair', 'operator=')
def pair_asg(ip, e, name):
    return op_assign(ip, e)


@free('std::make_pair')
def f_mkpair(ip, e, name):
    a, b = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    return mkrec(UNDEF, {'first': a, 'second': b})


@free('std::make_tuple')
def f_mktuple(ip, e, name):
    return mkrec(UNDEF, {'#%d' % i: ip.rv(x) for i, x in enumerate(e['a'])})


@free('std::get')
def f_get(ip, e, name):
    i = e.get('ti')
    if i is None:
        raise Unsupported('std::get index')
    l = ip.ev(e['a'][0])
    pair = notempl(strip(e['a'][0].get('t', ''))) == 'std::pair'
    f = ('first', 'second')[i] if pair else '#%d' % i
    return ip.fieldlv(l, f)


# ------------------------------------------------------------------ algorithms

@free('std::move std::forward std::ref std::cref std::as_const')
def f_move(ip, e, name):
    if len(e['a']) == 3:
        return f_copy(ip, e, 'copy')
    return ip.ev(e['a'][0])


@free('std::swap')
def f_swap(ip, e, name):
    a, b = ip.lv(e['a'][0]), ip.lv(e['a'][1])
    x, y = ip.load(a), ip.load(b)
    ip.store(a, y)
    ip.store(b, x)
    return UNDEF


@free('std::max std::min')
def f_max(ip, e, name):
    if len(e['a']) == 1:
        v = ip.rv(e['a'][0])
        els = []
        while v.op == 'push':
            els.append(v.a[1])
            v = v.a[0]
        if v is VNIL and els and not I.isfloat(e.get('t', '')):
            els.reverse()
            r = els[0]
            for x in els[1:]:
                r = mkite(TM.ilt(r, x), x, r) if name == 'max' else mkite(TM.ilt(x, r), x, r)
            return r
        return u(name, ip.rv(e['a'][0]))
    a, b = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    fl = I.isfloat(e['a'][0].get('t', '')) or I.isfloat(e.get('t', ''))
    lt = TM.flt if fl else TM.ilt
    if name == 'max':
        return mkite(lt(a, b), b, a)
    return mkite(lt(b, a), b, a)


@free('std::abs abs fabs std::fabs')
def f_abs(ip, e, name):
    a = ip.rv(e['a'][0])
    return u('abs', a)


@free('std::isnan std::isinf isnan isinf std::isfinite')
def f_isnan(ip, e, name):
    return TM.tobdd(u(name.split('::')[-1], ip.rv(e['a'][0])))


@free('std::begin std::cbegin std::end std::cend std::rbegin std::rend')
def f_begin(ip, e, name):
    l = ip.lv(e['a'][0])
    k = kindof(strip(e['a'][0].get('t', '')))
    n = name.replace('c', '')
    rev = n.startswith('r')
    pos = ZERO if n.endswith('begin') else csize(ip, ip.load(l), k)
    return mkiter(ip.addr(l), k, pos, rev)


@free('std::next')
def f_next(ip, e, name):
    return shift(ip.rv(e['a'][0]), ip.rv(e['a'][1]) if len(e['a']) > 1 else ONE)


@free('std::prev')
def f_prev(ip, e, name):
    return shift(ip.rv(e['a'][0]), neg(ip.rv(e['a'][1])) if len(e['a']) > 1 else num(-1))


@free('std::advance')
def f_advance(ip, e, name):
    l = ip.lv(e['a'][0])
    ip.store(l, shift(ip.load(l), ip.rv(e['a'][1])))
    return UNDEF


@free('std::distance')
def f_distance(ip, e, name):
    a, b = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    return sub(fld(b, '#pos'), fld(a, '#pos'))


@free('std::size')
def f_size(ip, e, name):
    k = kindof(strip(e['a'][0].get('t', '')))
    return csize(ip, ip.rv(e['a'][0]), k)


@free('std::back_inserter std::inserter range_to_type_back_inserter')
def f_backins(ip, e, name):
    l = ip.lv(e['a'][0])
    b = lift('backins', lambda z: raw('backins', z), (ip.addr(l),))
    return b


@free('std::copy std::copy_n')
def f_copy(ip, e, name):
    a, b = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    o = ip.known(ip.rv(e['a'][2]))
    if name.endswith('copy_n'):
        b = shift(a, b)
    if o.op == 'ostreamit':
        l = ip.fieldlv(ip.deref(o.a[0]), '#buf')
        sep = o.a[1]
        et = targs(strip(e['a'][2].get('t', 'x<int>')))

        def body(el, p):
            v = ip.load(el)
            ip.store(l, cat(ip.load(l), totext(ip, v, et[0] if et else 'int', ip.load(ip.deref(o.a[0]))), sep))
        algo_loop(ip, e, a, b, body)
        return o
    s = slice_(ip, a, b)
    if o.op == 'backins':
        l = ip.deref(o.a[0])
        v = ip.load(l)
        if s.op in ('substr', 'cat') or (v.op in ('s', 'cat')):
            ip.store(l, cat(v, s))
        else:
            ip.store(l, vcat(v, s))
        return o
    c, kind, rev = itercont(ip, o)
    v = ip.load(c)
    p = fld(o, '#pos')
    n = sub(fld(b, '#pos'), fld(a, '#pos'))
    if p is ZERO and csize(ip, v, kind) is n:
        ip.store(c, s)
    elif kind == 'v' and not rev:
        f = raw('fv', 'copy')
        lv, body = bind(sel(s, f), f)
        ip.store(c, TM.mktab(v, p, n, body, lv))
    else:
        ip.store(c, u('copyinto', v, p, s))
    return shift(o, n)


def algo_loop(ip, e, b, en, body, tag=''):
    """run body(element lvalue) over [b, en) as an abstract loop"""
    posr = raw('loc', ip.subpath(e, 'algo' + tag), -3)
    ip.env[posr] = fld(b, '#pos')
    endp = fld(en, '#pos')

    def it():
        p = ip.env[posr]
        ip.brk_unless(ilt(p, endp))
        if ip.pc is FALSE:
            return
        body(iterlv(ip, mkrec(b, {'#pos': p})), p)

    def inc():
        ip.env[posr] = add(ip.env[posr], ONE)
    ip.loop(e, it, inc)
    return posr


def fcall(ip, x):
    """callable argument (lambda, function, functor object) -> python function on values/lvalues"""
    t = strip(x.get('t', ''))
    r = ip.prog.recs.get(t) or ip.prog.recs.get(notempl(t))
    if r is not None:
        ops = [f for f in ip.prog.fns.values() if f.cls == r['q'] and f.name == 'operator()' and f.body is not None]
        if '<' in t:
            ops = [f for f in ops if f.key.startswith(t + '::')]
        if len(ops) == 1:
            obj = ip.lv(x)
            return lambda *a: ip.inline(ops[0], obj, list(a), x)
    f = ip.rv(x)
    if f.op == 'fnref':
        nm = f.a[0].split('(')[0].split('::')[-1]
        if nm in ('isupper', 'isspace', 'tolower', 'toupper', 'isdigit', 'isalpha', 'ispunct', 'isalnum', 'islower'):
            return lambda a: u(nm, ip.load(a) if isinstance(a, LVS) else a)
        fn = ip.prog.fns.get(f.a[0])
        if fn is not None and ip.opaque(fn):
            return lambda *a: ip.ucall(fn.q.replace('spec::', '').replace('_::', '::'), [ip.load(z) if isinstance(z, LVS) else z for z in a])
    return lambda *a: ip.calllam(f, list(a), None)


def tob(v):
    if v.op in ('b', 'ite') and TM._isbool(v):
        return v
    if v.op in ('isupper', 'isspace', 'isdigit', 'isalpha', 'ispunct', 'isalnum', 'islower'):
        return b_not(eq0(v))
    return TM.tobdd(v)


@free('std::find_if std::find std::find_if_not')
def f_findif(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    if name.endswith('find'):
        x = ip.rv(e['a'][2])
        pred = lambda el: ip.equal(ip.load(el), x)
    else:
        f = fcall(ip, e['a'][2])
        pred = lambda el: tob(ip.load(f(el)))
        if name.endswith('not'):
            p0 = pred
            pred = lambda el: b_not(p0(el))
    box = {}

    def body(el, p):
        ip.brk_unless(b_not(pred(el)))
    posr = algo_loop(ip, e, b, en, body)
    return mkrec(b, {'#pos': ip.env.get(posr, UNDEF)})


@free('std::any_of std::all_of std::none_of')
def f_anyof(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    f = fcall(ip, e['a'][2])
    want = not name.endswith('all_of')
    r = raw('loc', ip.subpath(e, 'any'), -4)
    ip.env[r] = FALSE

    def body(el, p):
        c = tob(ip.load(f(el)))
        if not want:
            c = b_not(c)
        ip.env[r] = b_or(TM.tobdd(ip.env[r]), c)
    algo_loop(ip, e, b, en, body)
    v = TM.tobdd(ip.env[r])
    return v if name.endswith('any_of') else b_not(v)


@free('std::count_if std::count')
def f_countif(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    f = fcall(ip, e['a'][2]) if name.endswith('_if') else ip.rv(e['a'][2])
    r = raw('loc', ip.subpath(e, 'cnt'), -4)
    ip.env[r] = ZERO

    def body(el, p):
        if name.endswith('_if'):
            c = tob(ip.load(f(el)))
        else:
            c = ip.equal(ip.load(el), f)
        ip.env[r] = mkite(c, add(ip.env[r], ONE), ip.env[r])
    algo_loop(ip, e, b, en, body)
    return ip.env[r]


@free('std::iota')
def f_iota(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    v0 = ip.rv(e['a'][2])
    p0 = fld(b, '#pos')

    def body(el, p):
        ip.store(el, add(v0, sub(p, p0)))
    algo_loop(ip, e, b, en, body)
    return UNIT


@free('std::accumulate')
def f_accumulate(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    r = raw('loc', ip.subpath(e, 'acc'), -4)
    ip.env[r] = ip.rv(e['a'][2])
    f = fcall(ip, e['a'][3]) if len(e['a']) > 3 else None
    st = isstr(e.get('t', ''))

    def body(el, p):
        if f is not None:
            ip.env[r] = ip.load(f(ip.env[r], el))
        else:
            ip.env[r] = cat(ip.env[r], ip.load(el)) if st else add(ip.env[r], ip.load(el))
    algo_loop(ip, e, b, en, body)
    return ip.env[r]


@free('std::for_each')
def f_foreach(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    f = fcall(ip, e['a'][2])
    algo_loop(ip, e, b, en, lambda el, p: f(el))
    return UNDEF


@free('std::transform std::copy_if')
def f_transform(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    o = ip.known(ip.rv(e['a'][2]))
    f = fcall(ip, e['a'][3])
    ci = name.endswith('copy_if')
    if o.op == 'backins':
        l = ip.deref(o.a[0])

        def body(el, p):
            v = ip.load(f(el))
            if ci:
                ip.store(l, mkite(tob(v), push(ip.load(l), ip.load(el)), ip.load(l)))
            else:
                ip.store(l, push(ip.load(l), v))
        algo_loop(ip, e, b, en, body)
        return o
    if ci:
        raise Unsupported('copy_if destination')
    off = sub(fld(o, '#pos'), fld(b, '#pos'))

    def body(el, p):
        v = ip.load(f(el))
        ip.store(iterlv(ip, mkrec(o, {'#pos': add(p, off)})), v)
    algo_loop(ip, e, b, en, body)
    return shift(o, sub(fld(en, '#pos'), fld(b, '#pos')))


@free('std::replace_if')
def f_replaceif(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    f = fcall(ip, e['a'][2])
    x = ip.rv(e['a'][3])

    def body(el, p):
        ip.store(el, mkite(tob(ip.load(f(el))), x, ip.load(el)))
    algo_loop(ip, e, b, en, body)
    return UNDEF


@free('std::sort std::stable_sort')
def f_sort(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    c, kind, rev = itercont(ip, b)
    v = ip.load(c)
    if len(e['a']) > 2:
        f = fcall(ip, e['a'][2])
        cmp_ = tob(ip.load(f(LVVal(sym('cmpA')), LVVal(sym('cmpB')))))
    else:
        cmp_ = raw('lt')
    if fld(b, '#pos') is ZERO and fld(en, '#pos') is csize(ip, v, kind):
        ip.store(c, raw('vsort', v, cmp_))
    else:
        ip.store(c, raw('vsortpart', v, fld(b, '#pos'), fld(en, '#pos'), cmp_))
    return UNDEF


@free('std::reverse')
def f_reverse(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    c, kind, rev = itercont(ip, b)
    v = ip.load(c)
    if fld(b, '#pos') is ZERO and fld(en, '#pos') is csize(ip, v, kind):
        ip.store(c, TM.vrev(v))
    else:
        ip.store(c, u('vrevpart', v, fld(b, '#pos'), fld(en, '#pos')))
    return UNDEF


@free('std::equal')
def f_equal(ip, e, name):
    a, b, c = ip.rv(e['a'][0]), ip.rv(e['a'][1]), ip.rv(e['a'][2])
    n = sub(fld(b, '#pos'), fld(a, '#pos'))
    cc, kind, rev = itercont(ip, c)
    if len(e['a']) > 3:
        f = fcall(ip, e['a'][3])
        r = raw('loc', ip.subpath(e, 'eqf'), -4)
        ip.env[r] = TRUE

        def body(el, p):
            other = iterlv(ip, shift(c, sub(p, fld(a, '#pos'))))
            ip.env[r] = b_and(TM.tobdd(ip.env[r]), tob(ip.load(f(el, other))))
        algo_loop(ip, e, a, b, body)
        return TM.tobdd(ip.env[r])
    x = slice_(ip, a, b)
    if kind == 's':
        y = ip.load(cc)
        if fld(c, '#pos') is ZERO:
            ca, _, ra = itercont(ip, a)
            if not ra and not rev and fld(a, '#pos') is ZERO:
                return prefix(y, x)
        return TM.tobdd(u('rangeeq', x, y, fld(c, '#pos'), num(1 if rev else 0)))
    return TM.tobdd(u('rangeeq', x, slice_(ip, c, shift(c, n)), ZERO, ZERO))


@free('std::replace')
def f_replace(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    c, kind, rev = itercont(ip, b)
    ip.store(c, lift('replaceall', replaceall, (ip.load(c), fld(b, '#pos'), fld(en, '#pos'), ip.rv(e['a'][2]), ip.rv(e['a'][3]))))
    return UNDEF


@free('std::remove std::remove_if std::unique')
def f_remove(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    c, kind, rev = itercont(ip, b)
    x = UNIT
    if len(e['a']) > 2:
        x = tob(ip.load(fcall(ip, e['a'][2])(LVVal(sym('predA'))))) if name.endswith('_if') else ip.rv(e['a'][2])
    nv = u('removed', ip.load(c), x)
    n0 = u('removedn', ip.load(c), x)
    ip.store(c, nv)
    return mkrec(b, {'#pos': n0})


@free('std::fill')
def f_fill(ip, e, name):
    b, en = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    c, kind, rev = itercont(ip, b)
    v = ip.load(c)
    if fld(b, '#pos') is ZERO and fld(en, '#pos') is csize(ip, v, kind):
        ip.store(c, TM.vfill(size(v), ip.rv(e['a'][2])))
    else:
        ip.store(c, u('fillpart', v, fld(b, '#pos'), fld(en, '#pos'), ip.rv(e['a'][2])))
    return UNDEF


@free('std::numeric_limits::infinity infinity')
def f_inf(ip, e, name):
    return raw('fc', 'inf')


@free('std::numeric_limits::quiet_NaN quiet_NaN nanf nan')
def f_nan(ip, e, name):
    return raw('fc', 'nan')


@free('std::numeric_limits::max std::numeric_limits::min std::numeric_limits::lowest std::numeric_limits::epsilon')
def f_limit(ip, e, name):
    return sym('limit:' + e['q'])


@meth('fun', 'operator()')
def fun_call(ip, e, name):
    f = ip.load(objlv(ip, e))
    return ip.calllam(f, [ip.ev(x) for x in e['a'][1:]], e)


@meth('fun', 'op_bool')
def fun_bool(ip, e, name):
    return b_not(isnull(ip.load(objlv(ip, e))))


@meth('opt', 'has_value op_bool')
def opt_has(ip, e, name):
    return TM.tobdd(fld(ip.load(objlv(ip, e)), '#has'))


@meth('opt', 'value operator*')
def opt_val(ip, e, name):
    return ip.fieldlv(objlv(ip, e), '#val')


@meth('opt', 'value_or')
def opt_or(ip, e, name):
    v = ip.load(objlv(ip, e))
    return mkite(TM.tobdd(fld(v, '#has')), fld(v, '#val'), arg(ip, e, 1))


@meth('opt', 'operator->')
def opt_arrow(ip, e, name):
    return PtrTo(ip.fieldlv(objlv(ip, e), '#val'))


@meth('opt', 'operator=')
def opt_asg(ip, e, name):
    l = objlv(ip, e)
    v = ip.rv(e['a'][1])
    t0 = strip(e['a'][1].get('t', ''))
    if 'nullopt' in t0:
        v = mkrec(UNDEF, {'#has': FALSE, '#val': UNDEF})
    elif notempl(t0) != 'std::optional':
        v = mkrec(UNDEF, {'#has': TRUE, '#val': v})
    ip.store(l, v)
    return l


@meth('opt', 'reset')
def opt_reset(ip, e, name):
    ip.store(objlv(ip, e), mkrec(UNDEF, {'#has': FALSE, '#val': UNDEF}))
    return UNDEF


# ------------------------------------------------------------------ conversions

@free('std::to_string')
def f_tostring(ip, e, name):
    v = ip.rv(e['a'][0])
    if I.isfloat(e['a'][0].get('t', '')) or (fnparams(e.get('fn', '')) or [''])[0] in FLTS:
        return u('ftoa6', v)
    return itoa(v)


@free('std::stof std::stod std::stoi std::stol std::stoul std::atoi atoi atof std::stoull strtol strtof')
def f_sto(ip, e, name):
    return u(name.split('::')[-1], ip.rv(e['a'][0]))


@free('isupper std::isupper isspace std::isspace tolower std::tolower toupper std::toupper isdigit std::isdigit isalpha std::isalpha ispunct isalnum islower std::islower')
def f_ctype(ip, e, name):
    return u(name.split('::')[-1], ip.rv(e['a'][0]))


@free('sscanf std::sscanf')
def f_sscanf(ip, e, name):
    s, f = ip.rv(e['a'][0]), ip.rv(e['a'][1])
    for i, x in enumerate(e['a'][2:]):
        d = ip.deref(ip.rv(x))
        old = ip.load(d)
        ip.store(d, u('scan', s, f, num(i), old if old is not UNDEF else UNIT))
    return u('scanret', s, f)


@free('getenv std::getenv')
def f_getenv(ip, e, name):
    return u('getenv', ip.rv(e['a'][0]))


@free('exit std::exit abort std::abort _Exit quick_exit')
def f_exit(ip, e, name):
    v = ip.rv(e['a'][0]) if e['a'] else num(134)
    ip.throws.append((ip.pc, ip.env, raw('exit', v)))
    ip.pc = FALSE
    ip.env = dict(ip.env)
    return UNDEF


@free('setlocale std::setlocale')
def f_setlocale(ip, e, name):
    return UNDEF


@free('fmt::format format fmt::v10::format fmt::v9::format')
def f_format(ip, e, name):
    vs = [ip.ev(x) for x in e['a']]
    vs = [ip.load(v) if isinstance(v, LVS) else v for v in vs]
    f = vs[0]
    if f.op == 'u' or f.op.startswith('new:fmt::') or (f.op == 'ucall' and str(f.a[0]).startswith('new:fmt::')):
        f = f.a[-1]
    if f.op != 's':
        return u('fmt', *vs)
    out = []
    i = 1
    for p in re.split(r'(\{[^}]*\})', f.a[0]):
        if p.startswith('{') and p.endswith('}'):
            k, _, sp = p[1:-1].partition(':')
            if k.isdigit():
                i = int(k) + 1
            elif k:
                return u('fmt', *vs)
            p = '{:' + sp + '}' if sp else '{}'
            t = strip(e['a'][i].get('t', '')) if i < len(e['a']) else ''
            v = vs[i] if i < len(vs) else UNDEF
            i += 1
            if p == '{}':
                if isstr(t) or 'char' in t and ('*' in t or '[' in t):
                    out.append(v)
                elif t in INTS:
                    out.append(itoa(v))
                else:
                    out.append(u('fmtv', v))
            else:
                out.append(u('fmtspec', string(p), v))
        elif p:
            out.append(string(p))
    return cat(*out)


# ------------------------------------------------------------------ streams

def totext(ip, v, t, st):
    t = strip(t)
    if isstr(t) or t.startswith('std::basic_string_view'):
        return v
    if 'char' in t and ('*' in t or '[' in t):
        return v
    if t in ('char', 'signed char', 'unsigned char'):
        return chstr(v)
    if t == 'bool':
        return itoa(b2i(v))
    w = fld(st, '#w')
    if t in FLTS:
        return u('ftoa', v, fld(st, '#prec'), fld(st, '#fixed'))
    return itoa(v)


@meth('stream', 'operator<<')
def st_out(ip, e, name):
    return stream_out(ip, e)


@free('operator<<')
def f_out(ip, e, name):
    return stream_out(ip, e)


def stream_out(ip, e):
    l = ip.lv(e['a'][0])
    x = e['a'][1]
    ps = fnparams(e.get('fn', ''))
    pt = ps[-1] if ps else x.get('t', '')
    st = ip.load(l)
    if x['k'] == 'ref' and x.get('vk') == 'fn' or (x['k'] == 'un' and x['op'] == '&' and x['e'].get('vk') == 'fn'):
        y = x if x['k'] == 'ref' else x['e']
        nm = notempl(y.get('q', '')).split('::')[-1]
        if nm == 'endl':
            ip.store(ip.fieldlv(l, '#buf'), cat(fld(st, '#buf'), string('\n')))
        elif nm == 'fixed':
            ip.store(ip.fieldlv(l, '#fixed'), string('fixed'))
        elif nm in ('scientific', 'defaultfloat', 'boolalpha', 'left', 'right', 'hex', 'dec'):
            ip.store(ip.fieldlv(l, '#fixed'), string(nm))
        return l
    v = ip.rv(x)
    if v.op == 'manip':
        ip.store(ip.fieldlv(l, '#' + v.a[0]), v.a[1])
        return l
    t = pt if pt else x.get('t', '')
    if 'basic_json' in t or 'Json::Value' in t:
        txt = u('jsontext', v)
    else:
        # literal types print through the overload chosen
        xt = strip(x.get('t', ''))
        if strip(pt) in INTS or strip(pt) in FLTS or strip(pt) == 'bool':
            txt = totext(ip, v, pt, st)
        else:
            txt = totext(ip, v, xt if xt else pt, st)
    ip.store(ip.fieldlv(l, '#buf'), cat(fld(st, '#buf'), txt))
    return l


@free('std::setprecision std::setw std::setfill std::setbase')
def f_manip(ip, e, name):
    v = ip.rv(e['a'][0])
    n = {'setprecision': 'prec', 'setw': 'w', 'setfill': 'fill', 'setbase': 'base'}[name.split('::')[-1]]
    return raw('manip', n, v)


@free('std::endl std::flush')
def f_endl(ip, e, name):
    l = ip.lv(e['a'][0])
    if name == 'endl':
        st = ip.load(l)
        ip.store(ip.fieldlv(l, '#buf'), cat(fld(st, '#buf'), string('\n')))
    return l


@meth('stream', 'flush clear precision width setf unsetf imbue sync_with_stdio tie exceptions')
def st_nop(ip, e, name):
    l = objlv(ip, e)
    for x in e['a'][1:]:
        v = ip.rv(x)
        if name == 'precision':
            ip.store(ip.fieldlv(l, '#prec'), v)
    return l


@meth('stream', 'open')
def st_open(ip, e, name):
    l = objlv(ip, e)
    fopen(ip, l, arg(ip, e, 1), 'ofstream' in e.get('cls', ''))
    return UNDEF


@meth('stream', 'close')
def st_close(ip, e, name):
    fclose(ip, objlv(ip, e))
    return UNDEF


@meth('stream', 'is_open')
def st_isopen(ip, e, name):
    v = ip.load(objlv(ip, e))
    o = fld(v, '#open')
    return b_and(TM.tobdd(o) if o is not UNDEF else FALSE, TM.tobdd(fld(v, '#ok')))


@meth('stream', 'good op_bool')
def st_ok(ip, e, name):
    o = fld(ip.load(objlv(ip, e)), '#ok')
    return TM.tobdd(o) if o is not UNDEF else TRUE


@meth('stream', 'fail bad operator!')
def st_bad(ip, e, name):
    o = fld(ip.load(objlv(ip, e)), '#ok')
    return b_not(TM.tobdd(o) if o is not UNDEF else TRUE)


@meth('stream', 'eof')
def st_eof(ip, e, name):
    v = ip.load(objlv(ip, e))
    return TM.tobdd(u('eof', fld(v, '#src'), fld(v, '#pos'), wordpos(v)))


@meth('stream', 'str')
def st_str(ip, e, name):
    l = objlv(ip, e)
    if nargs(e) > 1:
        v = arg(ip, e, 1)
        ip.store(ip.fieldlv(l, '#buf'), v)
        ip.store(ip.fieldlv(l, '#src'), v)
        return UNDEF
    return fld(ip.load(l), '#buf')


@meth('stream', 'put write')
def st_put(ip, e, name):
    l = objlv(ip, e)
    v = arg(ip, e, 1)
    if name == 'put':
        v = chstr(v)
    ip.store(ip.fieldlv(l, '#buf'), cat(fld(ip.load(l), '#buf'), v))
    return l


@free('std::getline getline')
def f_getline(ip, e, name):
    l = ip.lv(e['a'][0])
    s = ip.lv(e['a'][1])
    d = ip.rv(e['a'][2]) if len(e['a']) > 2 else num(10)
    st = ip.load(l)
    src, pos = fld(st, '#src'), fld(st, '#pos')
    if src is UNDEF:
        src = fld(st, '#buf')
    w = wordpos(st)
    if w is not ZERO:
        src = u('afterwords', src, w)
    ok = TM.tobdd(u('lineok', src, pos, d))
    ip.store(s, mkite(ok, u('line', src, pos, d), EMPTY))
    ip.store(ip.fieldlv(l, '#pos'), add(pos, ONE))
    ip.store(ip.fieldlv(l, '#ok'), ok)
    return l


@meth('stream', 'operator>>')
def st_in(ip, e, name):
    return stream_in(ip, e)


@free('operator>>')
def stream_in_f(ip, e, name):
    return stream_in(ip, e)


def stream_in(ip, e):
    l = ip.lv(e['a'][0])
    d = ip.lv(e['a'][1])
    st = ip.load(l)
    src, pos, w = fld(st, '#src'), fld(st, '#pos'), wordpos(st)
    if src is UNDEF:
        src = fld(st, '#buf')
    t = notempl(strip(e['a'][1].get('t', '')))
    if isstr(strip(e['a'][1].get('t', ''))):
        ws = wordsof(src, pos)
        ok = ilt(w, size(ws))
        v = sel(ws, w)
        if ok is not TRUE:
            v = mkite(ok, v, EMPTY)
    else:
        ok = TM.tobdd(u('tokok', src, pos, w, string(t)))
        v = u('tok', src, pos, w, string(t))
    ip.store(d, v)
    ip.store(ip.fieldlv(l, '#word'), add(w, ONE))
    ip.store(ip.fieldlv(l, '#ok'), ok)
    return l


def wordpos(st):
    w = fld(st, '#word')
    return ZERO if w is UNDEF else lift('wordpos', lambda z: ZERO if z is UNDEF else z, (w,))


def wordsof(src, pos):
    """the whitespace-separated words of what is left after `pos` lines"""
    return u('words', src) if pos is ZERO else u('words', u('after', src, pos))


# ------------------------------------------------------------------ Json::Value

@meth('json', 'operator[] get')
def j_index(ip, e, name):
    l = objlv(ip, e)
    k = arg(ip, e, 1)
    t = strip(e['a'][1].get('t', ''))
    return ip.acclv(l, raw('ix' if t in INTS else 'ky', k))


@meth('json', 'append')
def j_append(ip, e, name):
    l = objlv(ip, e)
    v = arg(ip, e, 1)
    o = ip.load(l)
    ip.store(l, lift('jappend', lambda a, b: push(VNIL if a in (UNDEF, MNIL) else a, b), (o, v)))
    return UNDEF


@meth('json', 'asString asInt asFloat asDouble asBool asUInt asCString asInt64 asUInt64')
def j_as(ip, e, name):
    v = ip.load(objlv(ip, e))
    r = u(name, v)
    return TM.tobdd(r) if name == 'asBool' else r


@meth('json', 'isNull isArray isObject isString isMember isInt isNumeric')
def j_is(ip, e, name):
    v = ip.load(objlv(ip, e))
    if name == 'isMember':
        return has(v, arg(ip, e, 1))
    return TM.tobdd(u(name, v))


@meth('json', 'operator=')
def j_asg(ip, e, name):
    return op_assign(ip, e)


@meth('json', 'operator== operator!=')
def j_eq(ip, e, name):
    a, b = ip.load(objlv(ip, e)), arg(ip, e, 1)
    r = TM.tobdd(u('jsoneq', a, b))
    return r if name == 'operator==' else b_not(r)


@meth('json', 'getMemberNames')
def j_names(ip, e, name):
    return u('jsonnames', ip.load(objlv(ip, e)))


@meth('json', 'begin end')
def j_begin(ip, e, name):
    l = objlv(ip, e)
    return mkiter(ip.addr(l), 'v', ZERO if name == 'begin' else size(ip.load(l)))


@meth('jsonx', 'operator++')
def jx_inc(ip, e, name):
    return step(ip, e, ONE)


@meth('jsonx', 'operator!= operator==')
def jx_ne(ip, e, name):
    return cmpop(ip, e, name[8:], ip.load(objlv(ip, e)), arg(ip, e, 1))


@meth('jsonx', 'isEqual')
def jx_eq(ip, e, name):
    return ip.equal(ip.load(objlv(ip, e)), arg(ip, e, 1))


@meth('jsonx', 'operator* operator->')
def jx_deref(ip, e, name):
    return iterlv(ip, ip.load(objlv(ip, e)))


@meth('jsonx', 'key name')
def jx_key(ip, e, name):
    return u('jsonkey', ip.load(objlv(ip, e)))


@meth('jsonx', 'operator[]')
def jx_opt(ip, e, name):
    l = objlv(ip, e)
    k = arg(ip, e, 1)
    return LVVal(UNDEF)


@free('Json::parseFromStream parseFromStream')
def f_parse(ip, e, name):
    s = ip.rv(e['a'][1])
    d = ip.lv(e['a'][2]) if e['a'][2].get('t', '').find('*') < 0 else ip.deref(ip.rv(e['a'][2]))
    src = fld(s, '#src')
    if src is UNDEF:
        src = fld(s, '#buf')
    ip.store(d, u('json', src))
    return TM.tobdd(u('jsonok', src))


def range_elem(ip, r, i, b):
    if b == 'Json::Value':
        return ip.acclv(r, raw('ix', i))
    return None


# ------------------------------------------------------------------ transducers

@meth('fst', 'AddState')
def fst_addstate(ip, e, name):
    l = ip.fieldlv(objlv(ip, e), 'states')
    v = ip.load(l)
    ip.store(l, push(v, mkrec(UNDEF, {'arcs': VNIL, 'final': raw('fc', 'inf')})))
    return size(v)


@meth('fst', 'AddArc')
def fst_addarc(ip, e, name):
    l = ip.fieldlv(objlv(ip, e), 'states')
    s = arg(ip, e, 1)
    a = arg(ip, e, 2)
    al = ip.fieldlv(ip.acclv(l, raw('ix', s)), 'arcs')
    ip.store(al, push(ip.load(al), a))
    return UNDEF


@meth('fst', 'SetFinal')
def fst_setfinal(ip, e, name):
    l = ip.fieldlv(objlv(ip, e), 'states')
    s = arg(ip, e, 1)
    w = arg(ip, e, 2) if len(e['a']) > 2 else ZERO
    ip.store(ip.fieldlv(ip.acclv(l, raw('ix', s)), 'final'), w)
    return UNDEF


@meth('fst', 'SetStart')
def fst_setstart(ip, e, name):
    ip.store(ip.fieldlv(objlv(ip, e), 'start'), arg(ip, e, 1))
    return UNDEF


@meth('fst', 'Start')
def fst_start(ip, e, name):
    return fld(ip.load(objlv(ip, e)), 'start')


@meth('fst', 'Final')
def fst_final(ip, e, name):
    return fld(sel(fld(ip.load(objlv(ip, e)), 'states'), arg(ip, e, 1)), 'final')


@meth('fst', 'NumArcs')
def fst_narcs(ip, e, name):
    return size(fld(sel(fld(ip.load(objlv(ip, e)), 'states'), arg(ip, e, 1)), 'arcs'))


@meth('fst', 'NumStates')
def fst_nstates(ip, e, name):
    return size(fld(ip.load(objlv(ip, e)), 'states'))


@meth('fst', 'SetInputSymbols SetOutputSymbols')
def fst_setsyms(ip, e, name):
    ip.store(ip.fieldlv(objlv(ip, e), 'isyms' if 'Input' in name else 'osyms'), arg(ip, e, 1))
    return UNDEF


@meth('fst', 'InputSymbols OutputSymbols MutableInputSymbols MutableOutputSymbols')
def fst_syms(ip, e, name):
    return fld(ip.load(objlv(ip, e)), 'isyms' if 'Input' in name else 'osyms')


@meth('weight', 'One')
def w_one(ip, e, name):
    return ZERO


@meth('weight', 'Zero')
def w_zero(ip, e, name):
    return raw('fc', 'inf')


@meth('weight', 'Value')
def w_value(ip, e, name):
    return ip.load(objlv(ip, e))


@meth('weight', 'operator=')
def w_asg(ip, e, name):
    return op_assign(ip, e)


def arcvec(ip, v):
    """container lvalue of an arc iterator value"""
    v = ip.known(v)
    base = ip.known(TM._bases(v))
    if base.op != 'arcit':
        raise Unsupported('arc iterator over an unresolved transducer ' + show(base))
    return ip.fieldlv(ip.acclv(ip.fieldlv(ip.deref(base.a[0]), 'states'), raw('ix', fld(v, '#s'))), 'arcs')


@meth('arcit', 'Done')
def ai_done(ip, e, name):
    v = ip.load(objlv(ip, e))
    return ge0(sub(fld(v, '#pos'), size(ip.load(arcvec(ip, v)))))


@meth('arcit', 'Next')
def ai_next(ip, e, name):
    return step(ip, e, ONE)


@meth('arcit', 'Value')
def ai_value(ip, e, name):
    v = ip.load(objlv(ip, e))
    return ip.acclv(arcvec(ip, v), raw('ix', fld(v, '#pos')))


@meth('arcit', 'Reset')
def ai_reset(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    ip.store(l, mkrec(v, {'#pos': ZERO}))
    return UNDEF


@meth('stateit', 'Done')
def si_done(ip, e, name):
    v = ip.load(objlv(ip, e))
    base = ip.known(TM._bases(v))
    f = ip.load(ip.deref(base.a[0]))
    return ge0(sub(fld(v, '#pos'), size(fld(f, 'states'))))


@meth('stateit', 'Next')
def si_next(ip, e, name):
    return step(ip, e, ONE)


@meth('stateit', 'Value')
def si_value(ip, e, name):
    return fld(ip.load(objlv(ip, e)), '#pos')


@meth('symit', 'Done')
def sy_done(ip, e, name):
    v = ip.load(objlv(ip, e))
    base = ip.known(TM._bases(v))
    return TM.tobdd(u('symdone', base, fld(v, '#pos')))


@meth('symit', 'Next')
def sy_next(ip, e, name):
    return step(ip, e, ONE)


@meth('symit', 'Value Symbol')
def sy_value(ip, e, name):
    v = ip.load(objlv(ip, e))
    base = ip.known(TM._bases(v))
    return u('sym' + name, base, fld(v, '#pos'))


@meth('symtab', 'Find')
def st_find(ip, e, name):
    t = ip.load(objlv(ip, e))
    k = arg(ip, e, 1)
    ps = fnparams(e.get('fn', ''))
    if strip(e.get('t', '')).startswith('std::basic_string'):
        return u('symstr', t, k)
    return u('symid', t, k)


@meth('symtab', 'AddSymbol')
def st_add(ip, e, name):
    l = objlv(ip, e)
    t = ip.load(l)
    k = arg(ip, e, 1)
    ip.store(l, u('symadd', t, k, arg(ip, e, 2)) if nargs(e) > 2 and not e['a'][2].get('def') else symadd(t, k))
    return u('symid', ip.load(l), k)


def symadd(t, k):
    def f(a, b):
        x = a
        while x.op == 'symadd':
            if x.a[1] is b:
                return a
            x = x.a[0]
        return raw('symadd', a, b)
    return lift('symadd', f, (t, k))


TM.BUILD['symadd'] = lambda *a: symadd(*a) if len(a) == 2 else lift('symadd3', lambda *z: raw('symadd', *z), a)


@meth('symtab', 'Member')
def st_member(ip, e, name):
    return b_not(eq0(add(u('symid', ip.load(objlv(ip, e)), arg(ip, e, 1)), ONE)))


@meth('symtab', 'NumSymbols')
def st_num(ip, e, name):
    return u('symnum', ip.load(objlv(ip, e)))


@free('fst::SymbolTable::ReadText fst::SymbolTable::Read')
def symtab_read(ip, e, name):
    return u('symtabread', ip.rv(e['a'][0]))


@free('fst::ArcSort ArcSort')
def fst_arcsort(ip, e, name):
    l = ip.deref(ip.rv(e['a'][0]))
    t = strip(e['a'][1].get('t', ''))
    if 'LabelCompare' in t and t.startswith('fst::'):
        c = raw('cls', t.split('<')[0])
    else:
        c = tob(ip.load(fcall(ip, e['a'][1])(LVVal(sym('cmpA')), LVVal(sym('cmpB')))))
    ip.store(l, raw('arcsort', ip.load(l), c))
    return UNDEF


@free('fst::RmEpsilon RmEpsilon')
def fst_rmeps(ip, e, name):
    l = ip.deref(ip.rv(e['a'][0]))
    ip.store(l, raw('rmeps', ip.load(l), *[ip.rv(x) for x in e['a'][1:2]]))
    return UNDEF


@free('std::forward_as_tuple std::tie')
def f_tuple2(ip, e, name):
    return mkrec(UNDEF, {'#%d' % i: ip.rv(x) for i, x in enumerate(e['a'])})


# ------------------------------------------------------------------ CSV reader

@meth('csv', 'set_header read_header')
def csv_header(ip, e, name):
    l = objlv(ip, e)
    vs = [ip.rv(x) for x in e['a'][1:]]
    if name == 'read_header':
        ip.store(ip.fieldlv(l, '#mode'), vs[0])
        vs = vs[1:]
    v = VNIL
    for x in vs:
        v = push(v, x)
    ip.store(ip.fieldlv(l, '#cols'), v)
    ip.store(ip.fieldlv(l, '#hdr'), string(name))
    return UNDEF


@meth('csv', 'read_row')
def csv_row(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    src, pos, cols = fld(v, '#src'), fld(v, '#pos'), fld(v, '#cols')
    ok = TM.tobdd(u('csvok', src, pos))
    for i, x in enumerate(e['a'][1:]):
        d = ip.lv(x)
        nm = sel(cols, num(i))
        if fld(v, '#hdr').op == 's' and fld(v, '#hdr').a[0] == 'set_header':
            # positional: the name given in the code is only a label
            nm = num(i)
        old = ip.load(d)
        # a column missing from the file leaves the variable as it was
        ip.store(d, mkite(ok, u('csvcell', src, nm, pos), old))
    ip.store(ip.fieldlv(l, '#pos'), add(pos, ONE))
    return ok


@meth('csv', 'has_column')
def csv_has(ip, e, name):
    v = ip.load(objlv(ip, e))
    return TM.tobdd(u('csvhas', fld(v, '#src'), arg(ip, e, 1)))


@meth('csv', 'next_line')
def csv_next(ip, e, name):
    l = objlv(ip, e)
    v = ip.load(l)
    src, pos = fld(v, '#src'), fld(v, '#pos')
    ip.store(ip.fieldlv(l, '#pos'), add(pos, ONE))
    return u('csvline', src, pos)


@free('strtk::split split')
def f_split(ip, e, name):
    # split(delimiter, text, output iterator)
    a = [ip.rv(x) for x in e['a'][:2]] + [ip.rv(x) for x in e['a'][3:] if x['k'] != 'none']
    o = ip.known(ip.rv(e['a'][2]))
    v = u('split', *a)
    n = u('splitn', *a)
    if o.op == 'backins':
        l = ip.deref(o.a[0])
        ip.store(l, vcat(ip.load(l), v))
    else:
        raise Unsupported('split destination')
    return n


# ------------------------------------------------------------------ command line options

def cliapp(ip, e):
    o = ip.ev(e['a'][0])
    v = ip.load(o) if isinstance(o, LVS) else o
    if v.op not in ('capp', 'csub'):
        raise Unsupported('command line parser of unknown identity')
    return v


@meth('cli', 'add_subcommand')
def cli_sub(ip, e, name):
    return raw('csub', arg(ip, e, 1))


@meth('cli', 'add_option add_flag')
def cli_add(ip, e, name):
    app = cliapp(ip, e)
    n = arg(ip, e, 1)
    if n.op != 's':
        raise Unsupported('option with a computed name')
    if len(e['a']) > 2 and 'basic_string' not in strip(e['a'][2].get('t', '')) or name == 'add_option':
        l = ip.lv(e['a'][2])
        names = ','.join(sorted(x.strip() for x in n.a[0].split(',')))
        ip.cli = getattr(ip, 'cli', []) + [((app.op, app.a[0].a[0] if app.a else ''), names, strip(e['a'][2].get('t', '')) == 'bool', l)]
    return raw('cliopt', app, n)


@meth('cliopt', 'capture_default_str type_name group')
def cliopt_nop(ip, e, name):
    return ip.rv(e['a'][0])


@meth('cli', 'set_help_all_flag set_help_flag')
def cli_help(ip, e, name):
    return raw('cliopt', EMPTY, arg(ip, e, 1))


@meth('cli', 'parse')
def cli_parse(ip, e, name):
    a = [arg(ip, e, 1), arg(ip, e, 2)]
    bad = TM.tobdd(u('CLI::App::parse#fails', *a))
    q = b_and(ip.pc, bad)
    if q is not FALSE:
        ip.throws.append((q, dict(ip.env), raw('exc', 'CLI::ParseError', u('CLI::App::parse#error', *a))))
    ip.pc = b_and(ip.pc, b_not(bad))
    # an option or flag that is given takes its value, the others keep what they hold
    for sub, names, isb, l in sorted(getattr(ip, 'cli', []), key=lambda x: x[:2]):
        old = ip.load(l)
        v = u('CLI::value', *a, string(sub[1]), string(names), raw('was', old))
        ip.store(l, TM.tobdd(v) if isb else v)
    ip.store(objlv(ip, e), raw('capp', string('parsed')))
    return UNDEF


# ------------------------------------------------------------------ repository helpers kept abstract

def _logger(ip, e, obj, args):
    for x in args:
        ip.rv(x)
    return raw('logger')


REPOCALLS['logger::GetOrCreateLogger'] = _logger
REPOCALLS['logger::InitLoggers'] = _logger
REPOCALLS['logger::CloseLoggers'] = _logger

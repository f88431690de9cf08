"""Value graph: hash-consed terms, decision diagrams over canonical atoms, and
the normalising constructors (linear integers/reals, strings, records, vectors,
maps, pointers).  Purely structural: no solver, no evaluation of the program."""
import sys
import time
from fractions import Fraction
from math import gcd, floor

sys.setrecursionlimit(200000)


class Blowup(Exception):
    pass


class T:
    __slots__ = ('op', 'a', 'id', '_top', '_bs', '_phis')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


_tab = {}
_n = [0]
LIMIT = 6_000_000
DEADLINE = float('inf')


class budget:
    """bounds an attempt whose failure is no answer"""

    def __init__(self, terms, seconds):
        self.terms, self.seconds = terms, seconds

    def __enter__(self):
        global LIMIT, DEADLINE
        self.saved = LIMIT, DEADLINE
        LIMIT = min(LIMIT, _n[0] + self.terms)
        DEADLINE = min(DEADLINE, time.monotonic() + self.seconds)

    def __exit__(self, *a):
        global LIMIT, DEADLINE
        LIMIT, DEADLINE = self.saved


def raw(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T.__new__(T)
        t.op = op
        t.a = a
        _n[0] += 1
        t.id = _n[0]
        t._top = 0
        t._bs = None
        t._phis = None
        _tab[k] = t
        if _n[0] > LIMIT or not _n[0] & 4095 and time.monotonic() > DEADLINE:
            raise Blowup('term table limit')
    return t


TRUE = raw('b', 'T')
FALSE = raw('b', 'F')
NULL = raw('null')
UNDEF = raw('undef')
VNIL = raw('vnil')
MNIL = raw('mnil')
UNIT = raw('unit')


def num(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            return raw('fc', repr(x))
        x = Fraction(repr(x))
    if isinstance(x, Fraction) and x.denominator == 1:
        x = int(x)
    if isinstance(x, Fraction):
        return raw('n', 'q%d/%d' % (x.numerator, x.denominator))
    return raw('n', x)


def nval(t):
    v = t.a[0]
    if isinstance(v, str):
        p, q = v[1:].split('/')
        return Fraction(int(p), int(q))
    return v


def string(s):
    return raw('s', s)


def sym(n):
    return raw('sym', n)


def boolean(b):
    return TRUE if b else FALSE


ZERO = num(0)
ONE = num(1)
EMPTY = string('')

# ------------------------------------------------------------------ structure


def topatom(t):
    """smallest atom at which t (an ite, or a record with ite fields) branches"""
    r = t._top
    if r != 0:
        return r
    if t.op == 'ite':
        r = t.a[0]
    elif t.op == 'rec':
        r = None
        for x in t.a:
            if isinstance(x, T):
                y = topatom(x)
                if y is not None and (r is None or y.id < r.id):
                    r = y
    else:
        r = None
    t._top = r
    return r


def cof(t, atom, val):
    if t.op == 'ite':
        if t.a[0] is atom:
            return t.a[1] if val else t.a[2]
        return t
    if t.op == 'rec' and topatom(t) is not None:
        return mkrec(cof(t.a[0], atom, val),
                     {t.a[i]: cof(t.a[i + 1], atom, val) for i in range(1, len(t.a), 2)})
    return t


_lift = {}


def lift(name, f, args):
    """apply leaf function f over args distributing over ite"""
    k = (name, args)
    r = _lift.get(k)
    if r is not None:
        return r
    at = None
    for x in args:
        if isinstance(x, T):
            y = topatom(x)
            if y is not None and (at is None or y.id < at.id):
                at = y
    if at is None:
        r = f(*args)
    else:
        hi = lift(name, f, tuple(cof(x, at, True) if isinstance(x, T) else x for x in args))
        lo = lift(name, f, tuple(cof(x, at, False) if isinstance(x, T) else x for x in args))
        r = mkite(node(at, TRUE, FALSE), hi, lo)
    _lift[k] = r
    return r


# ------------------------------------------------------------------ records

def mkrec(base, fields):
    if base.op == 'rec':
        d = {base.a[i]: base.a[i + 1] for i in range(1, len(base.a), 2)}
        d.update(fields)
        fields = d
        base = base.a[0]
    out = []
    for k in sorted(fields):
        v = fields[k]
        if base.op not in ('undef',) and fld(base, k) is v:
            continue
        if base is UNDEF and v is UNDEF:
            continue
        out.append(k)
        out.append(v)
    if not out:
        return base if base is not UNDEF else raw('rec', UNDEF)
    return raw('rec', base, *out)


def recfields(t):
    return {t.a[i]: t.a[i + 1] for i in range(1, len(t.a), 2)}


def fld(t, f):
    return lift2('fld', t, f)


def _fld(t, f):
    if t.op == 'rec':
        for i in range(1, len(t.a), 2):
            if t.a[i] == f:
                return t.a[i + 1]
        return fld(t.a[0], f)
    if t is UNDEF:
        return UNDEF
    if t.op == 'sel' and t.a[0].op == 'vfill':
        pass
    return raw('fld', t, f)


_fldmemo = {}


def lift2(name, t, f):
    k = (t, f)
    r = _fldmemo.get(k)
    if r is not None:
        return r
    if t.op == 'ite':
        r = mkite(node(t.a[0], TRUE, FALSE), lift2(name, t.a[1], f), lift2(name, t.a[2], f))
    else:
        r = _fld(t, f)
    _fldmemo[k] = r
    return r


# ------------------------------------------------------------------ ite / BDD

_itememo = {}


def mkite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    k = (c, x, y)
    r = _itememo.get(k)
    if r is not None:
        return r
    if c.op != 'ite':
        c2 = tobdd(c)
        return mkite(c2, x, y)
    # a loop left at once leaves what it started with
    if x.op == 'xphi' or y.op == 'xphi':
        z = XINIT.get(x)
        if z is not None and z[1] is y and b_or(c, z[0]) is TRUE:
            _itememo[k] = x
            return x
        z = XINIT.get(y)
        if z is not None and z[1] is x and b_or(b_not(c), z[0]) is TRUE:
            _itememo[k] = y
            return y
    elif x.op in XNUM or y.op in XNUM:
        for p, q, cc in ((x, y, c), (y, x, None)):
            for t in (tolin(p)[1] if p.op == 'lin' else (p,)):
                if t.op == 'xit' and t in XINIT:
                    if cc is None:
                        cc = b_not(c)
                    if b_or(cc, XINIT[t][0]) is TRUE and subst(p, t, ZERO) is q:
                        _itememo[k] = p
                        return p
    # free-standing records merge field-wise
    if x.op == 'rec' or y.op == 'rec':
        if not (x is UNDEF or y is UNDEF):
            fs = set()
            for z in (x, y):
                _allfields(z, fs)
            bx = _bases(x)
            by = _bases(y)
            r = mkrec(mkite(c, bx, by), {f: mkite(c, fld(x, f), fld(y, f)) for f in fs})
            _itememo[k] = r
            return r
    at = c.a[0]
    for z in (x, y):
        if z.op == 'ite' and z.a[0].id < at.id:
            at = z.a[0]
    r = node(at, mkite(cof(c, at, True), cof(x, at, True), cof(y, at, True)),
             mkite(cof(c, at, False), cof(x, at, False), cof(y, at, False)))
    _itememo[k] = r
    return r


def _allfields(t, out):
    if t.op == 'rec':
        for i in range(1, len(t.a), 2):
            out.add(t.a[i])
        _allfields(t.a[0], out)
    elif t.op == 'ite':
        _allfields(t.a[1], out)
        _allfields(t.a[2], out)


def _bases(t):
    if t.op == 'rec':
        return t.a[0]
    if t.op == 'ite':
        return mkite(node(t.a[0], TRUE, FALSE), _bases(t.a[1]), _bases(t.a[2]))
    return t


_nodememo = {}


def node(at, hi, lo):
    if hi is lo:
        return hi
    k = (at, hi, lo)
    r = _nodememo.get(k)
    if r is not None:
        return r
    if at.op == 'b':
        return hi if at is TRUE else lo
    h2 = assume(hi, at, True)
    l2 = assume(lo, at, False)
    if h2 is l2:
        r = h2
    elif (h2.op == 'rec' or l2.op == 'rec') and not (h2 is UNDEF or l2 is UNDEF):
        r = mkite(raw('ite', at, TRUE, FALSE), h2, l2)
    else:
        r = None
        if r is None and _may(l2, at):
            z = assume(l2, at, True)
            if z is h2:
                r = l2
        if r is None and _may(h2, at):
            z = assume(h2, at, False)
            if z is l2:
                r = h2
        if r is None:
            r = nodehook(at, h2, l2)
        if r is None:
            # keep the global order: a child may have got a smaller top atom after assume()
            m = None
            for z in (h2, l2):
                if z.op == 'ite' and z.a[0].id < at.id and (m is None or z.a[0].id < m.id):
                    m = z.a[0]
            if m is not None:
                r = node(m, node(at, cof(h2, m, True), cof(l2, m, True)),
                         node(at, cof(h2, m, False), cof(l2, m, False)))
            else:
                r = raw('ite', at, h2, l2)
    _nodememo[k] = r
    return r


NUMLEAF = {'ite', 'n', 'lin', 'sel', 'size', 'slen', 'phi', 'xphi', 'xphid', 'par', 'fld', 'min', 'max', 'it', 'ucall', 'fpos', 'mget', 'sum', 'bv'}


def idem(x, y, f, memo=None):
    """x, if it differs from y only where f says that x covers y"""
    if x is y:
        return x
    memo = {} if memo is None else memo
    k = (x, y)
    if k in memo:
        return memo[k]
    r = None
    if x.op == 'ite' or y.op == 'ite':
        at = min((z.a[0] for z in (x, y) if z.op == 'ite'), key=lambda t: t.id)
        if len(memo) < 400:
            p = idem(cof(x, at, True), cof(y, at, True), f, memo)
            q = None if p is None else idem(cof(x, at, False), cof(y, at, False), f, memo)
            if q is not None:
                r = mkite(node(at, TRUE, FALSE), p, q)
    else:
        r = f(x, y)
    memo[k] = r
    return r


def nodehook(at, hi, lo):
    o = at.op
    if o == 'has':
        # set insertion is idempotent
        m, k = at.a
        r = idem(lo, hi, lambda x, y: x if y is m and x.op == 'sadd' and x.a[0] is m and x.a[1] is k else None)
        if r is not None:
            return r
    if o == 'eq0' and at.a[0].op == 'lin' and len(at.a[0].a) == 3 and at.a[0].a[1].op == 'symid' and at.a[0].a[0] == at.a[0].a[2]:
        # adding a symbol that is there changes nothing
        m, k = at.a[0].a[1].a
        r = idem(hi, lo, lambda x, y: x if y is m and x.op == 'symadd' and x.a[0] is m and x.a[1] is k else None)
        if r is not None:
            return r
    if o in NUMATOM and o != 'pos':
        r = trihook(at, hi, lo)
        if r is not None:
            return r
    if (o == 'ge0' or o == 'pos' or o == 'eq' or o == 'eq0') and hi.op in NUMLEAF and lo.op in NUMLEAF:
        r = minmaxhook(at, hi, lo)
        if r is not None:
            return r
    if (o == 'ge0' or o == 'pos') and at.a[0].op == 'lin' and len(at.a[0].a) in (3, 5) and not _isbool(hi) and not _isbool(lo):
        l = at.a[0]
        if o == 'pos' and not (l.a[2] < 0):
            return None
        # both sides agree on the boundary: the boundary belongs to the negative side
        es = eqsubst(raw('eq0', l), True)
        if es is not None and es[0].op not in ('phi_',) and (hi.id >= es[0].id or lo.id >= es[0].id):
            if subst(hi, es[0], es[1]) is subst(lo, es[0], es[1]):
                if o == 'pos':
                    return mkite(pos(neg(l)), lo, hi)
                l1 = sub(l, ONE)
                e1 = eqsubst(raw('eq0', l1), True)
                if e1 is not None and subst(hi, e1[0], e1[1]) is not subst(lo, e1[0], e1[1]):
                    return mkite(ge0(l1), hi, lo)
    return None


def tobdd(t):
    """boolean-valued term -> decision diagram"""
    if t.op == 'b' or t.op == 'ite':
        return t
    if t.op == 'n':
        return boolean(nval(t) != 0)
    if t is UNDEF:
        return raw('ite', raw('undefbool'), TRUE, FALSE)
    return raw('ite', t, TRUE, FALSE)


def b_not(a):
    return mkite(a, FALSE, TRUE)


def b_and(a, b):
    return mkite(a, b, FALSE)


def b_or(a, b):
    return mkite(a, TRUE, b)


def b_iff(a, b):
    return mkite(a, b, b_not(b))


# ------------------------------------------------------- implied literals

NUMATOM = ('ge0', 'eq0', 'pos', 'eq')
_eqarg = {}


def numarg(at):
    """the linear expression a numeric atom tests"""
    if at.op != 'eq':
        return at.a[0]
    r = _eqarg.get(at)
    if r is None:
        r = _eqarg[at] = sub(at.a[0], at.a[1])
    return r


def abase(at):
    """theory base of an atom (atoms with different bases are unrelated)"""
    o = at.op
    if o in NUMATOM:
        l = numarg(at)
        if l.op == 'lin':
            key = l.a[1:]
            # sign normalise for pos
            if len(key) and key[1] < 0:
                key = tuple(-x if not isinstance(x, T) else x for x in key)
            lead = abs(key[1])
            if lead != 1:
                key = tuple((Fraction(x) / lead if not isinstance(x, T) else x) for x in key)
            return ('L', key)
        return ('L', (l, 1))
    if o in ('prefix', 'contains', 'suffix'):
        return ('S', at.a[0])
    if o == 'seq':
        if at.a[1].op == 's':
            return ('S', at.a[0])
        return ('Q', at)
    return ('A', at)


def bases(t):
    r = t._bs
    if r is not None:
        return r
    if t.op == 'ite':
        r = frozenset([abase(t.a[0])]) | bases(t.a[1]) | bases(t.a[2])
    elif t.op == 'rec':
        s = frozenset()
        for x in t.a:
            if isinstance(x, T):
                s |= bases(x)
        r = s
    elif t in XINIT:
        r = bases(XINIT[t][0])
    else:
        r = frozenset()
    t._bs = r
    return r


XNUM = ('lin', 'xit')
XINIT = {}   # value left by a loop -> (the loop is left at once, what it started with)


def linparts(at):
    """atom -> (lead-normalised constant, op) meaning  lead-normalised expr + c  op 0"""
    l = numarg(at)
    if l.op == 'lin':
        c = l.a[0]
        k = l.a[2]
        return Fraction(c) / abs(k), (1 if k > 0 else -1)
    return Fraction(0), 1


def implied(a, val, b):
    """does literal (a==val) decide atom b?  returns True/False/None"""
    if a is b:
        return val
    ao, bo = a.op, b.op
    if ao in NUMATOM and bo in NUMATOM:
        if abase(a) != abase(b):
            return None
        # intervals over y = base expression
        ia = _interval(a, val)
        if ia is None:
            return None
        for bv in (True, False):
            ib = _interval(b, not bv)
            if ib is not None and _disjoint(ia, ib):
                return bv
            if ib is None:
                # complement of an equality: ia must be exactly that point
                pt = _point(b)
                if pt is not None and ia[0] == ia[1] == pt and not ia[2] and not ia[3]:
                    # a fixes y==pt, so eq0(b) is true
                    return True
        return None
    if abase(a) != abase(b):
        return None
    if ao in ('seq', 'prefix', 'contains', 'suffix') and bo in ('seq', 'prefix', 'contains', 'suffix'):
        ca = a.a[1]
        cb = b.a[1]
        if ca.op != 's' or cb.op != 's':
            return None
        x, y = ca.a[0], cb.a[0]
        if ao == 'seq':
            if val:
                return {'seq': x == y, 'prefix': x.startswith(y), 'contains': y in x, 'suffix': x.endswith(y)}[bo]
            return None
        if val:
            if ao == 'prefix':
                if bo == 'prefix':
                    if x.startswith(y):
                        return True
                    if not y.startswith(x):
                        return False
                if bo == 'contains' and y in x:
                    return True
                if bo == 'seq' and not y.startswith(x):
                    return False
            if ao == 'suffix':
                if bo == 'suffix':
                    if x.endswith(y):
                        return True
                    if not y.endswith(x):
                        return False
                if bo == 'contains' and y in x:
                    return True
                if bo == 'seq' and not y.endswith(x):
                    return False
            if ao == 'contains':
                if bo == 'contains' and y in x:
                    return True
                if bo == 'seq' and x not in y:
                    return False
        else:
            if ao == 'prefix':
                if bo == 'prefix' and y.startswith(x):
                    return False
                if bo == 'seq' and y.startswith(x):
                    return False
            if ao == 'suffix':
                if bo == 'suffix' and y.endswith(x):
                    return False
                if bo == 'seq' and y.endswith(x):
                    return False
            if ao == 'contains':
                if x in y and bo in ('contains', 'prefix', 'suffix', 'seq'):
                    return False
        return None
    return None


def _interval(at, val):
    """set of y (base expr) satisfying literal as (lo, hi, lo_open, hi_open); None if not an interval"""
    c, s = linparts(at)
    inf = float('inf')
    o = at.op
    if o == 'eq0' or o == 'eq':
        if not val:
            return None
        p = -c if s > 0 else c
        return (p, p, False, False)
    # s*y + c >= 0
    if o == 'ge0':
        l = at.a[0]
        k = abs(l.a[2]) if l.op == 'lin' else 1
        if val:
            return (-c, inf, False, True) if s > 0 else (-inf, c, True, False)
        # s*y + c <= -1/k
        d = Fraction(1, 1) / k
        return (-inf, -c - d, True, False) if s > 0 else (c + d, inf, False, True)
    if o == 'pos':
        if val:
            return (-c, inf, True, True) if s > 0 else (-inf, c, True, True)
        return (-inf, -c, True, False) if s > 0 else (c, inf, False, True)


def _point(at):
    if at.op != 'eq0' and at.op != 'eq':
        return None
    c, s = linparts(at)
    return -c if s > 0 else c


def _disjoint(a, b):
    if a[1] < b[0] or b[1] < a[0]:
        return True
    if a[1] == b[0] and (a[3] or b[2]):
        return True
    if b[1] == a[0] and (b[3] or a[2]):
        return True
    return False


def eqsubst(at, val):
    """x := t substitution implied by the literal, or None"""
    if not val:
        return None
    if at.op == 'eq0':
        l = at.a[0]
        if l.op != 'lin':
            if l.op != 'n':
                return (l, ZERO)
            return None
        if len(l.a) == 3:
            c, t, k = l.a
            v = Fraction(-c) / k
            return (t, num(v))
        if len(l.a) == 5:
            c, t1, k1, t2, k2 = l.a
            if k1 == -k2:
                # t1 = t2 - c/k1 ; replace the younger one
                if t2.id > t1.id:
                    return (t2, add(t1, num(Fraction(c) / k1)))
                return (t1, sub(t2, num(Fraction(c) / k1)))
        return None
    if at.op == 'seq' or at.op == 'eq':
        x, y = at.a
        if y.op in ('s', 'sym', 'null'):
            return (x, y)
        return (y, x) if y.id > x.id else (x, y)
    if at.op == 'isnull':
        return (at.a[0], NULL)
    return None


_may_memo = {}


def _may(t, at):
    if abase(at) in bases(t):
        return True
    return eqsubst(at, True) is not None


_assume = {}


def assume(t, at, val):
    if t.op in ('b', 'n', 's', 'undef', 'null'):
        return t
    k = (t, at, val)
    r = _assume.get(k)
    if r is not None:
        return r
    es = eqsubst(at, val)
    r = t
    if abase(at) in bases(t):
        r = _assume_lit(t, at, val)
    if es is not None and r.id > es[0].id:
        r = subst(r, es[0], es[1], skip=at)
    elif es is not None and r is es[0]:
        r = es[1]
    _assume[k] = r
    return r


_al = {}


def _assume_lit(t, at, val):
    if t.op == 'ite':
        k = (t, at, val)
        r = _al.get(k)
        if r is not None:
            return r
        if abase(at) not in bases(t):
            return t
        b = t.a[0]
        im = implied(at, val, b)
        if im is True:
            r = _assume_lit(t.a[1], at, val)
        elif im is False:
            r = _assume_lit(t.a[2], at, val)
        else:
            r = node(b, _assume_lit(t.a[1], at, val), _assume_lit(t.a[2], at, val))
        _al[k] = r
        return r
    if t.op == 'rec' and abase(at) in bases(t):
        return mkrec(_assume_lit(t.a[0], at, val),
                     {t.a[i]: _assume_lit(t.a[i + 1], at, val) for i in range(1, len(t.a), 2)})
    x = XINIT.get(t)
    if x is not None and assume(x[0], at, val) is TRUE:
        return assume(x[1], at, val)
    return t


# ------------------------------------------------------------------ substitution

_subst = {}


def subst(t, x, y, skip=None):
    """t[x:=y], rebuilt through the normalising constructors"""
    if t is x:
        return y
    if t.id < x.id or not t.a:
        return t
    k = (t, x, y)
    r = _subst.get(k)
    if r is not None:
        return r
    if t.op in BINDERS:
        if not mentions(t, x):
            r = t
        else:
            f, h, body = openb(t)
            r = closeb(t.op, tuple(subst(z, x, y) for z in h), subst(body, x, y), f)
    else:
        na = tuple(subst(z, x, y) if isinstance(z, T) else z for z in t.a)
        if na == t.a:
            r = t
        else:
            r = rebuild(t.op, na)
    _subst[k] = r
    return r


def substmap(t, m, memo):
    """simultaneous substitution m: T->T"""
    r = memo.get(t)
    if r is not None:
        return r
    r = m.get(t)
    if r is None:
        if not t.a:
            r = t
        elif t.op in BINDERS:
            r = mapb(t, lambda z: substmap(z, m, memo))
        else:
            na = tuple(substmap(z, m, memo) if isinstance(z, T) else z for z in t.a)
            if all(p is q or (not isinstance(p, T) and p == q) for p, q in zip(na, t.a)):
                r = t
            else:
                r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    f = BUILD.get(op)
    if f is None:
        return lift(('raw', op), lambda *x: raw(op, *x), a)
    return f(*a)


# a binder term is op(head..., body, level); bv(level) in body is bound
BINDERS = {'sum', 'collect', 'any', 'first', 'tab', 'catall', 'keys'}
_open = {}


def openb(t):
    r = _open.get(t)
    if r is None:
        f = raw('fv', t.id)
        r = (f, t.a[:-2], subst(t.a[-2], raw('bv', t.a[-1]), f))
        _open[t] = r
    return r


def closeb(op, head, body, f):
    lv, b = bind(body, f)
    return BUILD[op](*head, b, lv)


def mapb(t, g):
    """apply a term mapping below a binder"""
    f, h, body = openb(t)
    h2 = tuple(g(z) for z in h)
    b2 = g(body)
    if b2 is body and all(p is q for p, q in zip(h, h2)):
        return t
    return closeb(t.op, h2, b2, f)


def subterms(t, seen):
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for z in x.a:
            if isinstance(z, T):
                st.append(z)
    return seen


_contmemo = {}


def loops_in(t):
    """set of loop ids whose phi/it/xphi/xit occur in t"""
    r = t._phis
    if r is not None:
        return r
    s = set()
    if t.op in ('phi', 'it', 'xphi', 'xit'):
        s.add((t.op, t.a[0]))
    for z in t.a:
        if isinstance(z, T):
            s |= loops_in(z)
    t._phis = frozenset(s)
    return t._phis


def mentions_iter(t, L):
    s = loops_in(t)
    return ('phi', L) in s or ('it', L) in s


# ------------------------------------------------------------------ numbers

def tolin(t):
    if t.op == 'n':
        return nval(t), {}
    if t.op == 'lin':
        return t.a[0] if not isinstance(t.a[0], str) else Fraction(t.a[0]), {t.a[i]: t.a[i + 1] for i in range(1, len(t.a), 2)}
    return 0, {t: 1}


def fr(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def fromlin(c, d):
    c = fr(c)
    items = [(t, fr(k)) for t, k in d.items() if k != 0]
    if not items:
        return num(c)
    items.sort(key=lambda p: p[0].id)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    fl = []
    for t, k in items:
        fl.append(t)
        fl.append(k)
    return raw('lin', c, *fl)


def _add(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if a.op == 'fc' or b.op == 'fc':
        return raw('fadd', *sorted((a, b), key=lambda z: z.id))
    c, d = tolin(a)
    c2, d2 = tolin(b)
    d = dict(d)
    for t, k in d2.items():
        d[t] = d.get(t, 0) + k
    return fromlin(c + c2, d)


def add(a, b):
    return lift('add', _add, (a, b))


def _neg(a):
    if a is UNDEF:
        return UNDEF
    c, d = tolin(a)
    return fromlin(-c, {t: -k for t, k in d.items()})


def neg(a):
    return lift('neg', _neg, (a,))


def sub(a, b):
    return add(a, neg(b))


def _mul(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.op == 'n':
        a, b = b, a
    if a.op == 'n':
        k = nval(a)
        c, d = tolin(b)
        return fromlin(c * k, {t: q * k for t, q in d.items()})
    # distribute one level
    ca, da = tolin(a)
    cb, db = tolin(b)
    c = ca * cb
    d = {}
    for t, k in da.items():
        if cb:
            d[t] = d.get(t, 0) + k * cb
    for t, k in db.items():
        if ca:
            d[t] = d.get(t, 0) + k * ca
    for t, k in da.items():
        for u, q in db.items():
            fs = []
            for z in (t, u):
                if z.op == 'mul':
                    fs += list(z.a)
                else:
                    fs.append(z)
            fs.sort(key=lambda z: z.id)
            m = raw('mul', *fs)
            d[m] = d.get(m, 0) + k * q
    return fromlin(c, d)


def mul(a, b):
    return lift('mul', _mul, (a, b))


def _fdiv(a, b):
    if a is UNDEF or b is UNDEF:
        return UNDEF
    if b.op == 'n' and nval(b) != 0:
        return _mul(num(Fraction(1) / nval(b)), a)
    ca, da = tolin(a)
    if ca == 0 and len(da) == 1:
        (t, k), = da.items()
        if k != 1:
            return _mul(num(k), raw('fdiv', t, b))
    if a.op == 'n' and nval(a) == 0:
        return raw('fdiv', a, b)
    return raw('fdiv', a, b)


def fdiv(a, b):
    return lift('fdiv', _fdiv, (a, b))


def _idiv(a, b):
    if a.op == 'n' and b.op == 'n' and nval(b) != 0:
        x, y = nval(a), nval(b)
        q = abs(x) // abs(y)
        return num(q if (x >= 0) == (y >= 0) else -q)
    if b.op == 'n' and nval(b) == 1:
        return a
    return raw('idiv', a, b)


def idiv(a, b):
    return lift('idiv', _idiv, (a, b))


def _imod(a, b):
    if a.op == 'n' and b.op == 'n' and nval(b) != 0:
        x, y = nval(a), nval(b)
        r = abs(x) % abs(y)
        return num(r if x >= 0 else -r)
    return raw('imod', a, b)


def imod(a, b):
    return lift('imod', _imod, (a, b))


NONNEG = {'size', 'slen', 'it', 'xit', 'bv', 'imodu', 'nst', 'fpos', 'first', 'narcs'}


def nonneg(t):
    if t.op in NONNEG:
        return True
    if t.op == 'n':
        return nval(t) >= 0
    if t.op == 'sum':
        return nonnegv(t.a[1])
    if t.op == 'lin':
        c, d = tolin(t)
        return c >= 0 and all(k >= 0 and nonneg(x) for x, k in d.items())
    if t.op == 'idiv':
        return nonneg(t.a[0]) and nonneg(t.a[1])
    if t.op == 'min':
        return all(nonneg(x) for x in t.a)
    if t.op == 'max':
        return any(nonneg(x) for x in t.a)
    if t.op == 'ucall':
        return isinstance(t.a[0], str) and t.a[0].endswith('::size')
    return False


def nonnegv(t):
    if t.op == 'ite':
        return nonnegv(t.a[1]) and nonnegv(t.a[2])
    return nonneg(t)


def _lead_sign(l):
    return 1 if l.op != 'lin' or l.a[2] > 0 else -1


def _intnorm(c, d):
    """scale to coprime integers (positive scale); returns c,d,g"""
    den = 1
    for k in list(d.values()):
        k = Fraction(k)
        den = den * k.denominator // gcd(den, k.denominator)
    d = {t: int(Fraction(k) * den) for t, k in d.items()}
    c = Fraction(c) * den
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    return c, d, g


BOUND = {}    # exit counter -> upper bound of its loop
FIRSTB = {}   # first-index term -> (bound, exists-condition)


def _firsthook(n, d, eqz):
    for t in d:
        if t.op == 'first' and abs(d[t]) == 1:
            b, anyc = FIRSTB[t] if t in FIRSTB else (t.a[0], mkany(*t.a))
            e = sub(n if d[t] == 1 else neg(n), t)   # n = +-(t + e)
            if eqz:
                if add(e, b) is ZERO:
                    return b_not(anyc)
            elif d[t] == 1:
                if add(e, b) is ZERO:          # first - b >= 0
                    return b_not(anyc)
            else:
                # -(t+e) >= 0  <=>  t <= -e ; t <= b-1
                if add(add(e, b), num(-1)) is ZERO:
                    return anyc
        if eqz and t.op == 'xit' and t in BOUND and abs(d[t]) == 1:
            e = sub(n if d[t] == 1 else neg(n), t)
            if add(e, BOUND[t]) is ZERO:
                return ge0(sub(t, BOUND[t]))
    return None


def _ge0(l):
    if l is UNDEF:
        return raw('ite', raw('ge0', UNDEF), TRUE, FALSE)
    if l.op == 'n':
        return boolean(nval(l) >= 0)
    if l.op == 'fc':
        return boolean(float(l.a[0]) >= 0)
    c, d = tolin(l)
    c, d, g = _intnorm(c, d)
    d = {t: k // g for t, k in d.items()}
    c = floor(c / g)
    if all(k > 0 and nonneg(t) for t, k in d.items()):
        if c >= 0:
            return TRUE
        if c == -1 and len(d) == 1:
            (t, k), = d.items()
            return b_not(_eq0(t))
    if all(k < 0 and nonneg(t) for t, k in d.items()):
        if c < 0:
            return FALSE
        if c == 0 and len(d) == 1:
            (t, k), = d.items()
            return _eq0(t)
    # string search results: -1 is "not found"
    if len(d) == 1:
        (t, k), = d.items()
        if t.op == 'strfind' and abs(k) == 1:
            r = _strfind_ge(t, c) if k > 0 else b_not(_strfind_ge(t, -c - 1))
            if r is not None:
                return r
    h = _firsthook(fromlin(c, d), d, False)
    if h is not None:
        return h
    for t, k in d.items():
        if t.op in ('min', 'max') and abs(k) == 1:
            rest = fromlin(c, {z: q for z, q in d.items() if z is not t})
            allof = (t.op == 'min') == (k > 0)
            r = TRUE if allof else FALSE
            for z in t.a:
                g1 = ge0(add(rest, z) if k > 0 else sub(rest, z))
                r = b_and(r, g1) if allof else b_or(r, g1)
            return r
    n = fromlin(c, d)
    if _lead_sign(n) < 0:
        n2 = fromlin(-c - 1, {t: -k for t, k in d.items()})
        return b_not(_gatom(n2))
    return _gatom(n)


_gseen = {}
_gbusy = set()


def _gatom(l):
    """threshold test; the equalities at its boundary are ordered before it"""
    r = _gseen.get(l)
    if r is None:
        if l in _gbusy:
            return raw('ite', raw('ge0', l), TRUE, FALSE)
        _gbusy.add(l)
        eq0(l)
        eq0(sub(l, ONE))
        eq0(add(l, ONE))
        r = _gseen[l] = raw('ite', raw('ge0', l), TRUE, FALSE)
    return r


def _gof(l):
    """threshold atom over l if it is in use"""
    r = _gseen.get(l)
    return r.a[0] if r is not None else None


def _replat(t, x, y):
    """atom x replaced by atom y in a diagram"""
    p, q = _assume_lit(t, x, True), _assume_lit(t, x, False)
    if p is t and q is t:
        return t
    return mkite(raw('ite', y, TRUE, FALSE), p, q)


def trihook(at, hi, lo):
    """canonical tests for functions of the three cases l<0, l==0, l>0"""
    l = numarg(at)
    if at.op in ('eq0', 'eq'):
        if abase(at) not in bases(lo):
            return None
        if _lead_sign(l) < 0:
            l = neg(l)
        g, g1 = _gof(l), _gof(sub(l, ONE))
        if g1 is not None:
            if g is None:
                g = _gatom(l).a[0]
            z = _replat(lo, g1, g)
            if z is not lo:
                return mkite(raw('ite', at, TRUE, FALSE), hi, z)
        if g is not None:
            if g1 is None and not atomin(lo, g):
                return None
            if g1 is None:
                g1 = _gatom(sub(l, ONE)).a[0]
            z = _replat(lo, g, g1)
            if z is not lo and assume(z, at, True) is hi:
                return z
        return None
    if at.op == 'ge0':
        b = abase(at)
        if b in bases(hi):
            g1 = _gof(sub(l, ONE))
            if g1 is not None and atomin(hi, g1):
                e = eq0(l)
                return mkite(e, _assume_bool(hi, e), node(at, _assume_lit(hi, g1, True), lo))
        if b in bases(lo):
            g0 = _gof(add(l, ONE))
            if g0 is not None and atomin(lo, g0):
                e = eq0(add(l, ONE))
                return mkite(e, _assume_bool(lo, e), node(at, hi, _assume_lit(lo, g0, False)))
    return None


def _assume_bool(t, e):
    if e.op == 'ite' and e.a[1] is TRUE and e.a[2] is FALSE:
        return assume(t, e.a[0], True)
    return t


_atomin = {}


def atomin(t, at):
    if abase(at) not in bases(t):
        return False
    if t.op == 'ite' or t.op == 'rec':
        k = (t, at)
        r = _atomin.get(k)
        if r is None:
            if t.op == 'ite':
                r = t.a[0] is at or atomin(t.a[1], at) or atomin(t.a[2], at)
            else:
                r = any(isinstance(x, T) and atomin(x, at) for x in t.a)
            _atomin[k] = r
        return r
    return False


def _strfind_ge(t, c):
    """strfind + c >= 0"""
    s, p = t.a[0], t.a[1]
    if c >= 1:
        return TRUE
    if t.a[2] is ZERO:
        if c == 0:
            return contains(s, p)
        if c == -1:
            return b_and(contains(s, p), b_not(prefix(s, p)))
    return raw('ite', raw('ge0', fromlin(c, {t: 1})), TRUE, FALSE)


def ge0(l):
    return lift('ge0', _ge0, (l,))


def _leaves(t, out=None):
    out = set() if out is None else out
    if t.op == 'ite':
        _leaves(t.a[1], out)
        _leaves(t.a[2], out)
    else:
        out.add(t)
    return out


def _eq0(l):
    if l is UNDEF:
        return raw('ite', raw('eq0', UNDEF), TRUE, FALSE)
    if l.op == 'n':
        return boolean(nval(l) == 0)
    if l.op == 'fc':
        return FALSE
    c, d = tolin(l)
    c, d, g = _intnorm(c, d)
    d = {t: k // g for t, k in d.items()}
    c = c / g
    ints = c.denominator == 1
    c = fr(c)
    if all(k > 0 and nonneg(t) for t, k in d.items()) and c > 0:
        return FALSE
    if all(k < 0 and nonneg(t) for t, k in d.items()) and c < 0:
        return FALSE
    if len(d) == 1:
        (t, k), = d.items()
        if t.op == 'slen' and c == 0:
            return seq(t.a[0], EMPTY)
        if t.op == 'sum' and c == 0 and nonneg(t):
            return b_not(mkany(t.a[0], b_not(eq0(t.a[1])), t.a[2]))
        if t.op == 'strfind' and abs(k) == 1 and t.a[2] is ZERO:
            v = -c * k
            if v == 0:
                return prefix(t.a[0], t.a[1])
            if v == -1:
                return b_not(contains(t.a[0], t.a[1]))
        if t.op == 'strrfind' and abs(k) == 1:
            v = -c * k
            if v == -1 and t.a[2] is UNIT:
                return b_not(contains(t.a[0], t.a[1]))
            if t.a[2] is ZERO:
                if v == 0:
                    return prefix(t.a[0], t.a[1])
                if v == -1:
                    return b_not(prefix(t.a[0], t.a[1]))
        if t.op == 'ch' and abs(k) == 1 and 0 < -c * k < 128:
            x = string(chr(int(-c * k)))
            if t.a[1] is ZERO:
                return prefix(t.a[0], x)
            if t.a[1] is sub(slen(t.a[0]), ONE):
                return suffix(t.a[0], x)
        if t.op == 'strcmp' and c == 0:
            return seq(t.a[0], t.a[1])
    if len(d) == 2:
        # find(...) == end()
        (t1, k1), (t2, k2) = d.items()
        if k1 == -k2 and c == 0:
            for p, q in ((t1, t2), (t2, t1)):
                if p.op == 'fpos' and q.op == 'size':
                    return b_not(has(p.a[0], p.a[1]))
                if p.op == 'findif' and q.op == 'size' and p.a[0] is q.a[0]:
                    return b_not(p.a[1])
    for p, k in d.items():
        if p.op == 'fpos' and abs(k) == 1:
            m = p.a[0]
            other = sub(p, mul(num(k), fromlin(c, d)))
            z = size(m)
            if z.op != 'ite' and other is not z:
                continue
            absent = b_not(has(m, p.a[1]))

            def endat(x):
                if x is other:
                    return absent
                y = tolin(sub(other, x))
                if not y[1] and y[0] > 0:
                    return FALSE
                return None
            ls = _leaves(z)
            if all(endat(x) is not None for x in ls):
                return lift('endat', endat, (z,))
    h = _firsthook(fromlin(c, d), d, True)
    if h is not None:
        return h
    if len(d) == 2 and c == 0:
        (t1, k1), (t2, k2) = d.items()
        if k1 == -k2:
            if t2.id < t1.id:
                t1, t2 = t2, t1
            for p, q in ((t1, t2), (t2, t1)):
                if p.op in ('min', 'max') and q in p.a:
                    r = TRUE
                    for z in p.a:
                        if z is not q:
                            r = b_and(r, ile(q, z) if p.op == 'min' else ile(z, q))
                    return r
            return raw('ite', raw('eq', t1, t2), TRUE, FALSE)
    n = fromlin(c, d)
    if _lead_sign(n) < 0:
        n = fromlin(-c, {t: -k for t, k in d.items()})
    return raw('ite', raw('eq0', n), TRUE, FALSE)


# ------------------------------------------------------------------ minimum / maximum

def _minmax(op, args):
    mn = op == 'min'
    out = []
    for x in args:
        for y in (x.a if x.op == op else (x,)):
            keep = True
            for z in list(out):
                d = sub(y, z)
                if d.op == 'n':
                    v = nval(d)
                    if (v >= 0) == mn or v == 0:
                        keep = False
                        break
                    out.remove(z)
            if keep:
                out.append(y)
    if len(out) == 1:
        return out[0]
    sp = [_split(z) for z in out]
    c = min((v.id, k) for v, k in sp)[1]
    if c:
        out = [add(z, num(-c)) for z in out]
        return add(raw(op, *sorted(out, key=lambda z: z.id)), num(c))
    return raw(op, *sorted(out, key=lambda z: z.id))


def mmin(*a):
    return lift('min', lambda *x: _minmax('min', x), a)


def mmax(*a):
    return lift('max', lambda *x: _minmax('max', x), a)


def _split(t):
    """numeric term -> (variable term, constant)"""
    if t.op == 'n':
        return (ZERO, nval(t))
    if t.op == 'lin':
        c = t.a[0]
        return (add(t, num(-c)), c) if c else (t, 0)
    return (t, 0)


def _diffs(at, val):
    """literal -> list of (x, y, c) meaning x - y <= c over split variables; None if it is not one"""
    l = numarg(at)
    if l.op == 'lin':
        c = l.a[0]
        d = [(l.a[i], l.a[i + 1]) for i in range(1, len(l.a), 2)]
    else:
        c, d = 0, [(l, 1)]
    if len(d) == 1:
        (t, k), = d
        p, q = (t, ZERO) if k > 0 else (ZERO, t)
        if abs(k) != 1:
            return None
    elif len(d) == 2 and {d[0][1], d[1][1]} == {1, -1}:
        p, q = (d[0][0], d[1][0]) if d[0][1] == 1 else (d[1][0], d[0][0])
    else:
        return None
    # p - q + c  (>= | ==) 0
    if at.op == 'ge0':
        return [(q, p, c)] if val else [(p, q, -c - 1)]
    if at.op == 'pos':
        return [(q, p, c)] if val else [(p, q, -c)]
    return [(p, q, -c), (q, p, c)] if val else []


def _paths(t, lits, out):
    if len(out) > 8:
        return False
    if t.op == 'ite':
        at = t.a[0]
        if at.op not in NUMATOM:
            return False
        for v in (True, False):
            d = _diffs(at, v)
            if d is None or not _paths(t.a[1] if v else t.a[2], lits + d, out):
                return False
        return True
    if t.op in ('b', 'rec', 's', 'vnil', 'mnil', 'undef', 'null', 'fc', 'cat', 'push', 'store', 'tab'):
        return False
    out.append((lits, t))
    return True


def _closure(lits):
    vs = set()
    d = {}
    for x, y, c in lits:
        vs.add(x)
        vs.add(y)
        if d.get((x, y), c) >= c:
            d[x, y] = c
    for k in vs:
        for i in vs:
            a = d.get((i, k))
            if a is None:
                continue
            for j in vs:
                b = d.get((k, j))
                if b is not None and d.get((i, j), a + b + 1) > a + b:
                    d[i, j] = a + b
    return d


def _elems(op, t):
    v, c = _split(t)
    return {add(z, num(c)) for z in v.a} if v.op == op else {t}


def minmaxhook(at, hi, lo):
    """the value selected by comparing its own alternatives is their minimum or maximum"""
    ps = []
    d = _diffs(at, True)
    if d is None:
        return None
    for t, v in ((hi, True), (lo, False)):
        if not _paths(t, _diffs(at, v), ps):
            return None
    if len({x for _, x in ps}) < 2 and len(ps) > 1:
        return None
    for op in ('min', 'max'):
        els = set()
        for _, t in ps:
            els |= _elems(op, t)
        if len(els) < 2 or len(els) > 5:
            continue
        sp = {e: _split(e) for e in els}
        av = set()
        for ls, _ in ps:
            for x, y, c in ls:
                av.add(x)
                av.add(y)
        mv = {z for t in av if t.op == op for z in t.a}
        for _, t in ps:
            if _split(t)[0].op == op:
                mv |= _elems(op, t)
        if any(sp[e][0] not in av and e not in mv for e in els):
            continue
        ok = True
        for ls, t in ps:
            ex = []
            for m in av:
                if m.op == op:
                    for z in m.a:
                        zv, zc = _split(z)
                        # min(..) <= z,  max(..) >= z
                        ex.append((m, zv, zc) if op == 'min' else (zv, m, -zc))
            cl = _closure(ls + ex)
            if any(cl.get((x, x), 0) < 0 for x in av):
                continue
            mine = [sp[e] for e in _elems(op, t)]
            mine.append(_split(t))
            for e in els:
                y, cy = sp[e]
                good = False
                for x, cx in mine:
                    if x is y:
                        good = cx <= cy if op == 'min' else cx >= cy
                    elif op == 'min':
                        b = cl.get((x, y))
                        good = b is not None and cx + b <= cy
                    else:
                        b = cl.get((y, x))
                        good = b is not None and cy + b <= cx
                    if good:
                        break
                if not good:
                    ok = False
                    break
            if not ok:
                break
        if ok:
            return _minmax(op, sorted(els, key=lambda z: z.id))
    return None


def eq0(l):
    return lift('eq0', _eq0, (l,))


def _pos(l):
    if l is UNDEF:
        return raw('ite', raw('pos', UNDEF), TRUE, FALSE)
    if l.op == 'n':
        return boolean(nval(l) > 0)
    if l.op == 'fc':
        return boolean(float(l.a[0]) > 0)
    c, d = tolin(l)
    c, d, g = _intnorm(c, d)
    d = {t: k // g for t, k in d.items()}
    c = fr(c / g)
    return raw('ite', raw('pos', fromlin(c, d)), TRUE, FALSE)


def pos(l):
    return lift('pos', _pos, (l,))


def ilt(a, b):
    return ge0(sub(sub(b, a), ONE))


def ile(a, b):
    return ge0(sub(b, a))


def flt(a, b):
    return pos(sub(b, a))


def _hasfpos(t):
    return t.op == 'fpos' or (t.op == 'ite' and (_hasfpos(t.a[1]) or _hasfpos(t.a[2])))


def ieq(a, b):
    # find(k) == end() of one container
    for x, y in ((a, b), (b, a)):
        if x.op == 'fpos' and y is size(x.a[0]):
            return b_not(has(x.a[0], x.a[1]))
        if x.op == 'ite' and _hasfpos(x):
            at = x.a[0]
            return mkite(raw('ite', at, TRUE, FALSE), ieq(x.a[1], cof(assume(y, at, True), at, True)), ieq(x.a[2], cof(assume(y, at, False), at, False)))
    return eq0(sub(a, b))


def trunc(t):
    return lift('trunc', lambda x: x if x.op == 'n' and isinstance(nval(x), int) else raw('trunc', x), (t,))


def b2i(t):
    return mkite(tobdd(t), ONE, ZERO)


# ------------------------------------------------------------------ strings

def pieces(t):
    if t.op == 'cat':
        return list(t.a)
    if t.op == 's' and t.a[0] == '':
        return []
    return [t]


def _cat(*a):
    out = []
    for x in a:
        for p in pieces(x):
            if out and p.op == 's' and out[-1].op == 's':
                out[-1] = string(out[-1].a[0] + p.a[0])
            else:
                out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    for i, p in enumerate(out[:-1]):
        if p.op == 'catall':
            r = _rotate(p, out[i + 1:])
            if r is not None:
                return cat(*(out[:i] + [r[0]] + out[i + 1 + r[1]:]))
    return raw('cat', *out)


def cat(*a):
    if len(a) == 0:
        return EMPTY
    r = a[0]
    for x in a[1:]:
        r = lift('cat', _cat, (r, x))
    if len(a) == 1:
        r = lift('cat', _cat, (r,))
    return r


def _slen(s):
    if s.op == 's':
        return num(len(s.a[0].encode()))
    if s.op == 'cat':
        r = ZERO
        for p in s.a:
            r = add(r, slen(p))
        return r
    return raw('slen', s)


def slen(s):
    return lift('slen', _slen, (s,))


def _seq(a, b):
    if a is b:
        return TRUE
    if a.op == 's' and b.op == 's':
        return boolean(a.a[0] == b.a[0])
    pa, pb = pieces(a), pieces(b)
    if len(pa) > 1 or len(pb) > 1:
        while pa and pb and pa[0] is pb[0]:
            pa.pop(0)
            pb.pop(0)
        while pa and pb and pa[-1] is pb[-1]:
            pa.pop()
            pb.pop()
        if not pa and any(p.op == 's' for p in pb):
            return FALSE
        if not pb and any(p.op == 's' for p in pa):
            return FALSE
        if pa and pb and pa[0].op == 's' and pb[0].op == 's':
            x, y = pa[0].a[0], pb[0].a[0]
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return FALSE
        a, b = _cat(*pa), _cat(*pb)
        if a is b:
            return TRUE
    if a.op == 's' or (b.op != 's' and b.id < a.id):
        a, b = b, a
    if a.op == 'substr' and b.op == 's' and a.a[1] is ZERO and a.a[2].op == 'n' and nval(a.a[2]) == len(b.a[0].encode()):
        return prefix(a.a[0], b)
    return raw('ite', raw('seq', a, b), TRUE, FALSE)


def seq(a, b):
    return lift('seq', _seq, (a, b))


def _prefix(s, c):
    if c.op == 's' and c.a[0] == '':
        return TRUE
    if s.op == 's' and c.op == 's':
        return boolean(s.a[0].startswith(c.a[0]))
    if s.op == 'cat' and c.op == 's' and s.a[0].op == 's':
        x = s.a[0].a[0]
        if len(x) >= len(c.a[0]):
            return boolean(x.startswith(c.a[0]))
        if not c.a[0].startswith(x):
            return FALSE
        return prefix(_cat(*s.a[1:]), string(c.a[0][len(x):]))
    return raw('ite', raw('prefix', s, c), TRUE, FALSE)


def prefix(s, c):
    return lift('prefix', _prefix, (s, c))


def _suffix(s, c):
    if c.op == 's' and c.a[0] == '':
        return TRUE
    if s.op == 's' and c.op == 's':
        return boolean(s.a[0].endswith(c.a[0]))
    if s.op == 'cat' and c.op == 's' and s.a[-1].op == 's' and len(s.a[-1].a[0]) >= len(c.a[0]):
        return boolean(s.a[-1].a[0].endswith(c.a[0]))
    return raw('ite', raw('suffix', s, c), TRUE, FALSE)


def suffix(s, c):
    return lift('suffix', _suffix, (s, c))


def _contains(s, c):
    if c.op == 's' and c.a[0] == '':
        return TRUE
    if s.op == 's' and c.op == 's':
        return boolean(c.a[0] in s.a[0])
    if s.op == 'cat' and c.op == 's':
        if any(p.op == 's' and c.a[0] in p.a[0] for p in s.a):
            return TRUE
    return raw('ite', raw('contains', s, c), TRUE, FALSE)


def contains(s, c):
    return lift('contains', _contains, (s, c))


def _strfind(s, c, f):
    if s.op == 's' and c.op == 's' and f.op == 'n':
        return num(s.a[0].find(c.a[0], int(nval(f))))
    return raw('strfind', s, c, f)


def strfind(s, c, f=None):
    return lift('strfind', _strfind, (s, c, f or ZERO))


def strrfind(s, c, f=None):
    if f is None:
        f = UNIT
    return lift('strrfind', lambda s, c, f: raw('strrfind', s, c, f), (s, c, f))


def _substr(s, p, n):
    if s.op == 's' and p.op == 'n' and (n is UNIT or n.op == 'n'):
        a = int(nval(p))
        return string(s.a[0][a:] if n is UNIT else s.a[0][a:a + max(0, int(nval(n)))])
    if p is slen(s):
        return EMPTY
    if p is ZERO and n is UNIT:
        return s
    if n is not UNIT and p is ZERO and s.op not in ('s',) and n is slen(s):
        return s
    if n is not UNIT and s.op not in ('s',) and p.op == 'n' and add(n, p) is slen(s):
        n = UNIT
    if n.op == 'strfind' and n.a[0] is s:
        return mkite(contains(s, n.a[1]) if n.a[2] is ZERO else b_not(eq(n, num(-1))), raw('substr', s, p, n), substr(s, p))
    return raw('substr', s, p, n)


def substr(s, p, n=None):
    return lift('substr', _substr, (s, p, n or UNIT))


# ------------------------------------------------------------------ equality

NUMOPS = {'n', 'lin', 'min', 'max', 'fpos', 'size', 'slen', 'first', 'it', 'xit', 'itd', 'xitd'}


def _eq(a, b):
    if a is b:
        return TRUE
    if a is NULL or b is NULL:
        x = b if a is NULL else a
        if x.op in ('ptr', 'alloc', 'newobj', 'addr'):
            return FALSE
        return raw('ite', raw('isnull', x), TRUE, FALSE)
    if a.op == 'b' and b.op == 'b':
        return boolean(a is b)
    if a.op in NUMOPS or b.op in NUMOPS:
        return ieq(a, b)
    if a.op in ('s', 'cat') or b.op in ('s', 'cat'):
        return _seq(a, b)
    if a.op == 'ptr' and b.op == 'ptr':
        if len(a.a) == len(b.a) and a.a[0] == b.a[0]:
            r = TRUE
            for x, y in zip(a.a[1:], b.a[1:]):
                if isinstance(x, T) and isinstance(y, T) and x.op == 'ix' and y.op == 'ix':
                    r = b_and(r, ieq(x.a[0], y.a[0]))
                elif x is not y and x != y:
                    return FALSE
            return r
        return FALSE
    if {a.op, b.op} <= {'alloc', 'ptr'}:
        return FALSE
    if b.id < a.id:
        a, b = b, a
    return raw('ite', raw('eq', a, b), TRUE, FALSE)


def eq(a, b):
    """generic value equality"""
    if a.op == 'rec' and b.op == 'rec':
        fs = set()
        _allfields(a, fs)
        _allfields(b, fs)
        if a.a[0] is b.a[0] or (a.a[0] is UNDEF and b.a[0] is UNDEF):
            r = TRUE
            for f in sorted(fs):
                r = b_and(r, eq(fld(a, f), fld(b, f)))
            return r
    if a.op == 'ite' or b.op == 'ite':
        # booleans
        if _isbool(a) and _isbool(b):
            return b_iff(tobdd(a), tobdd(b))
        if _hasfpos(a) or _hasfpos(b):
            return ieq(a, b)
    return lift('eq', _eq, (a, b))


def _isbool(t):
    while t.op == 'ite':
        t = t.a[1]
    return t.op == 'b'


def isnull(p):
    return eq(p, NULL)


# ------------------------------------------------------------------ containers

SIZEOF = {}   # loop-carried containers of invariant length -> that length


def _size(v):
    o = v.op
    if o in ('vnil', 'mnil'):
        return ZERO
    if o == 'push':
        return add(size(v.a[0]), ONE)
    if o == 'store':
        return size(v.a[0])
    if o == 'vpop':
        return sub(size(v.a[0]), ONE)
    if o == 'vfill':
        return v.a[0]
    if o == 'vresize':
        return v.a[1]
    if o == 'vcat':
        return add(size(v.a[0]), size(v.a[1]))
    if o in ('vrev', 'vsort', 'tab'):
        return size(v.a[0])
    if o in ('phi', 'xphi', 'xphid') and v in SIZEOF:
        r = SIZEOF[v]
        return size(r.a[0]) if r.op == 'size' else r
    if o == 'vslice':
        return sub(v.a[2], v.a[1])
    if o == 'collect':
        b = v.a[1]
        if b.op == 'lst':
            return mul(v.a[0], num(len(b.a)))
        return raw('size', v)
    if o in ('s', 'cat'):
        return slen(v)
    if o in ('sadd',):
        return add(size(v.a[0]), mkite(has(v.a[0], v.a[1]), ZERO, ONE))
    if o == 'mstore':
        return add(size(v.a[0]), mkite(has(v.a[0], v.a[1]), ZERO, ONE))
    if v is UNDEF:
        return UNDEF
    return raw('size', v)


_sizeepoch = [0]


def setsize(v, n):
    SIZEOF[v] = n
    _sizeepoch[0] += 1


def size(v):
    return lift(('size', _sizeepoch[0]), _size, (v,))


def _push(v, x):
    return raw('push', v, x)


def push(v, x):
    return lift('push', _push, (v, x))


def _sel(v, i):
    o = v.op
    if v is UNDEF:
        return UNDEF
    if o == 'push':
        return mkite(ieq(i, size(v.a[0])), v.a[1], sel(v.a[0], i))
    if o == 'store':
        return mkite(ieq(i, v.a[1]), v.a[2], sel(v.a[0], i))
    if o == 'vfill':
        return v.a[1]
    if o == 'vresize':
        return mkite(ilt(i, size(v.a[0])), sel(v.a[0], i), v.a[2])
    if o == 'vslice':
        return sel(v.a[0], add(v.a[1], i))
    if o == 'vcat':
        return mkite(ilt(i, size(v.a[0])), sel(v.a[0], i), sel(v.a[1], sub(i, size(v.a[0]))))
    if o == 'vrev':
        return sel(v.a[0], sub(sub(size(v.a[0]), ONE), i))
    if o == 'vnil':
        return raw('sel', v, UNDEF)
    if o == 'collect' and v.a[1].op == 'lst' and len(v.a[1].a) == 1:
        return unbind(v.a[1].a[0], v.a[2], i)
    if o == 'tab':
        k = sub(i, v.a[1])
        return mkite(b_and(ge0(k), ilt(k, v.a[2])), unbind(v.a[3], v.a[4], k), sel(v.a[0], i))
    if o == 's' and i.op == 'n':
        k = int(nval(i))
        if 0 <= k < len(v.a[0]):
            return num(ord(v.a[0][k]))
    return raw('sel', v, i)


def sel(v, i):
    return lift('sel', _sel, (v, i))


def _store(v, i, x):
    if v.op == 'store' and v.a[1] is i:
        v = v.a[0]
    if v.op == 'push':
        d = sub(i, size(v.a[0]))
        if d is ZERO:
            return push(v.a[0], x)
        c, dd = tolin(d)
        if not dd and c < 0:
            return push(store(v.a[0], i, x), v.a[1])
    if v.op != 'ite' and sel(v, i) is x:
        return v
    return raw('store', v, i, x)


def store(v, i, x):
    return lift('store', _store, (v, i, x))


def _vpop(v):
    if v.op == 'push':
        return v.a[0]
    return raw('vpop', v)


def vpop(v):
    return lift('vpop', _vpop, (v,))


def _vcat(a, b):
    if a is VNIL:
        return b
    if b is VNIL:
        return a
    if b.op == 'push':
        return push(vcat(a, b.a[0]), b.a[1])
    return raw('vcat', a, b)


def vcat(a, b):
    return lift('vcat', _vcat, (a, b))


def _vfill(n, x):
    if n is ZERO:
        return VNIL
    return raw('vfill', n, x)


def vfill(n, x):
    return lift('vfill', _vfill, (n, x))


def _vresize(v, n, x):
    if n is ZERO:
        return VNIL
    if v is VNIL:
        return vfill(n, x)
    if size(v) is n:
        return v
    return raw('vresize', v, n, x)


def vresize(v, n, x):
    return lift('vresize', _vresize, (v, n, x))


def _vrev(v):
    if v.op == 'vrev':
        return v.a[0]
    if v is VNIL:
        return v
    return raw('vrev', v)


def vrev(v):
    return lift('vrev', _vrev, (v,))


def _vslice(v, a, b):
    if a is ZERO and b is size(v):
        return v
    return raw('vslice', v, a, b)


def vslice(v, a, b):
    return lift('vslice', _vslice, (v, a, b))


def _has(m, k):
    o = m.op
    if o == 'mnil':
        return FALSE
    if o in ('mstore', 'sadd'):
        return b_or(eq(k, m.a[1]), has(m.a[0], k))
    if o == 'mdel':
        return b_and(b_not(eq(k, m.a[1])), has(m.a[0], k))
    if k.op == 'kat' and k.a[0] is m:
        return TRUE
    if o == 'ofvec':
        pass
    return raw('ite', raw('has', m, k), TRUE, FALSE)


def has(m, k):
    return lift('has', _has, (m, k))


def _msel(m, k):
    o = m.op
    if o == 'mstore':
        return mkite(eq(k, m.a[1]), m.a[2], msel(m.a[0], k))
    if o in ('sadd',):
        return k
    if o == 'mdel':
        return msel(m.a[0], k)
    if o == 'mnil':
        return UNDEF
    return raw('msel', m, k)


def msel(m, k):
    return lift('msel', _msel, (m, k))


def _mstore(m, k, x):
    if m.op == 'mstore' and m.a[1] is k:
        m = m.a[0]
    if m.op == 'mstore' and m.a[1] is not k and m.a[1].op in ('n', 's') and k.op in ('n', 's') and m.a[1].id > k.id:
        return mstore(mstore(m.a[0], k, x), m.a[1], m.a[2])
    return raw('mstore', m, k, x)


def mstore(m, k, x):
    return lift('mstore', _mstore, (m, k, x))


def _addkeys(n, body, lv):
    """the set of the keys body(0) .. body(n-1)"""
    if n is ZERO or body.op == 'lst' and not body.a:
        return MNIL
    return raw('keys', n, body, lv)


def _sall(m, c):
    """set union: m with the members of c; additions commute and repeat freely"""
    if c is MNIL:
        return m
    if m.op == 'sadd':
        return sadd(sall(m.a[0], c), m.a[1])
    if m.op == 'sall':
        x = m
        while x.op == 'sall':
            if x.a[1] is c:
                return m
            x = x.a[0]
        if m.a[1].id > c.id:
            return sall(sall(m.a[0], c), m.a[1])
    return raw('sall', m, c)


def sall(m, c):
    return lift('sall', _sall, (m, c))


def addkeys(m, n, body, lv):
    """m with, for every position below n, the keys listed there"""
    ks = set()
    for x in _leaves(body):
        ks |= set(x.a)
    for k in sorted(ks, key=lambda x: x.id):
        b = lift(('haskey', k), lambda z: raw('lst', k) if k in z.a else raw('lst'), (body,))
        m = sall(m, mkkeys(n, b, lv))
    return m


def _sadd(m, k):
    if m.op == 'sadd':
        if m.a[1] is k:
            return m
        x = m
        while x.op == 'sadd':
            if x.a[1] is k:
                return m
            x = x.a[0]
        if m.a[1].id > k.id:
            return sadd(sadd(m.a[0], k), m.a[1])
    return raw('sadd', m, k)


def sadd(m, k):
    return lift('sadd', _sadd, (m, k))


def _mdel(m, k):
    if m is MNIL:
        return m
    if m.op in ('mstore', 'sadd') and m.a[1] is k:
        return mdel(m.a[0], k)
    return raw('mdel', m, k)


def mdel(m, k):
    return lift('mdel', _mdel, (m, k))


# ------------------------------------------------------------------ binders

def bvdepth(t, memo={}):
    """1 + the highest bound-variable level used in t (binders bind level = their last argument)"""
    r = memo.get(t)
    if r is not None:
        return r
    r = 0
    if t.op == 'bv':
        r = t.a[0] + 1
    for z in t.a:
        if isinstance(z, T):
            r = max(r, bvdepth(z))
    memo[t] = r
    return r


def bind(body, v, *extra):
    """abstract variable term v out of body; returns (level, body')"""
    lv = 0
    for t in (body,) + extra:
        lv = max(lv, bvdepth(t))
    b = raw('bv', lv)
    return lv, subst(body, v, b)


def unbind(body, lv, val):
    return subst(body, raw('bv', lv), val)


def relevel(body, lv):
    """the lowest level body can be bound at"""
    b = raw('bv', lv)
    if not mentions(body, b):
        return 0, body
    f = raw('fv', 'l%d' % lv)
    return bind(subst(body, b, f), f)


def unswitch(build):
    """conditions free of the bound variable move out of the binder; so do conditions in its head"""
    def go(*a):
        head, body, lv = a[:-2], a[-2], a[-1]
        lv, body = relevel(body, lv)
        b = raw('bv', lv)
        at = None
        for h in head:
            y = topatom(h)
            if y is not None and (at is None or y.id < at.id):
                at = y
        seen = set()
        st = [body]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == 'ite':
                if not mentions(x.a[0], b) and (at is None or x.a[0].id < at.id):
                    at = x.a[0]
                st.append(x.a[1])
                st.append(x.a[2])
            elif x.op in ('rec', 'lst'):
                st += [z for z in x.a if isinstance(z, T)]
        if at is not None:
            hi = go(*[assume(h, at, True) for h in head], atsplit(body, at, True), lv)
            lo = go(*[assume(h, at, False) for h in head], atsplit(body, at, False), lv)
            return mkite(node(at, TRUE, FALSE), hi, lo)
        return build(*head, body, lv)
    return go


def atsplit(t, at, val):
    """assume(t, at, val) also when at is not the top atom"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == 'ite':
            if x.a[0] is at:
                r = go(x.a[1] if val else x.a[2])
            else:
                r = mkite(node(x.a[0], TRUE, FALSE), go(x.a[1]), go(x.a[2]))
        elif x.op == 'rec':
            r = mkrec(go(x.a[0]), {x.a[i]: go(x.a[i + 1]) for i in range(1, len(x.a), 2)})
        elif x.op == 'lst':
            r = lift('lst', _lst, tuple(go(z) for z in x.a))
        else:
            r = x
        memo[x] = r
        return r
    return assume(go(t), at, val)


def _mksum(n, body, lv):
    b = raw('bv', lv)
    if n is ZERO:
        return ZERO
    # linear parts
    if body.op != 'ite':
        c, d = tolin(body)
        r = mul(n, num(c))
        for t, k in d.items():
            if not mentions(t, b):
                r = add(r, mul(mul(n, num(k)), t))
            else:
                l2, t2 = relevel(t, lv)
                r = add(r, mul(num(k), raw('sum', n, t2, l2)))
        return r
    return raw('sum', n, body, lv)


mksum = unswitch(_mksum)


def mentions(t, x):
    if t is x:
        return True
    if t.id < x.id:
        return False
    return x in subterms(t, set())


def _mkcollect(n, body, lv):
    b = raw('bv', lv)
    if n is ZERO:
        return VNIL
    if body.op == 'lst' and len(body.a) == 0:
        return VNIL
    if body.op == 'lst' and len(body.a) == 1:
        e = body.a[0]
        if e.op == 'sel' and e.a[1] is b and not mentions(e.a[0], b) and n is size(e.a[0]):
            return e.a[0]
        if not mentions(e, b):
            return vfill(n, e)
    return raw('collect', n, body, lv)


mkcollect = unswitch(_mkcollect)
mkkeys = unswitch(_addkeys)


def _mkcatall(n, body, lv):
    """the texts body(0) .. body(n-1) one after the other"""
    b = raw('bv', lv)
    if n is ZERO or body is EMPTY:
        return EMPTY
    if body.op == 'ite':
        at = body.a[0]
        if at.op == 'eq0' and at.a[0] is b:
            return mkite(ge0(sub(n, ONE)), cat(subst(body.a[1], b, ZERO), mkcatall(sub(n, ONE), subst(body.a[2], b, add(b, ONE)), lv)), EMPTY)
        if at.op == 'ge0' and at.a[0] is sub(b, ONE):
            return mkite(ge0(sub(n, ONE)), cat(subst(body.a[2], b, ZERO), mkcatall(sub(n, ONE), subst(body.a[1], b, add(b, ONE)), lv)), EMPTY)
    if body.op == 'chstr' and body.a[0].op == 'ch' and body.a[0].a[1] is b and not mentions(body.a[0].a[0], b) and n is slen(body.a[0].a[0]):
        return body.a[0].a[0]
    if n.op == 'lin':
        # what becomes of a character of a concatenation depends on the character alone: piece by piece
        for x in subterms(body, set()):
            if x.op == 'ch' and x.a[1] is b and x.a[0].op == 'cat' and n is slen(x.a[0]):
                c = raw('fv', 'char')
                g = subst(body, x, c)
                if mentions(g, b):
                    break
                r = EMPTY
                for p in pieces(x.a[0]):
                    if p.op == 's':
                        r = cat(r, *[subst(g, c, num(k)) for k in p.a[0].encode()])
                    else:
                        f = raw('fv', 'at')
                        lv2, b2 = bind(subst(g, c, BUILD['ch'](p, f)), f)
                        r = cat(r, mkcatall(slen(p), b2, lv2))
                return r
    return raw('catall', n, body, lv)


mkcatall = unswitch(_mkcatall)


def _rotate(c, rest):
    """x(0) S x(1) S .. x(n-1) S followed by x(n): the separator moves to the front; (pieces, pieces consumed)"""
    n, body, lv = c.a
    if body.op != 'cat':
        return None
    b = raw('bv', lv)
    x = list(body.a)
    tail = []
    while x and not mentions(x[-1], b):
        tail.insert(0, x.pop())
    if not x or not tail or x[0].op == 's' or len(rest) < len(x):
        return None
    if any(subst(p, b, n) is not q for p, q in zip(x, rest)):
        return None
    first = cat(*[subst(p, b, ZERO) for p in x])
    return mkite(ge0(n), cat(first, mkcatall(n, cat(*(tail + [subst(p, b, add(b, ONE)) for p in x])), lv)), cat(*rest[:len(x)])), len(x)


def _mkany(n, g, lv):
    """exists bv in [0,n): g"""
    if g is FALSE or n is ZERO:
        return FALSE
    if g is TRUE:
        return ge0(sub(n, ONE))
    b = raw('bv', lv)
    if _downward(g, b):
        g2 = subst(g, b, sub(sub(n, ONE), b))
        if not _downward(g2, b):
            return mkany(n, g2, lv)
    return raw('ite', raw('any', n, g, lv), TRUE, FALSE)


def _downward(g, b):
    """some position in g runs against the bound variable"""
    for x in subterms(g, set()):
        if x.op == 'lin' and tolin(x)[1].get(b, 0) < 0:
            return True
    return False


mkany = unswitch(_mkany)


def _mkfirst(n, g, lv):
    if g is FALSE:
        return n if nonneg(n) else raw('first', n, g, lv)
    return raw('first', n, g, lv)


mkfirst = unswitch(_mkfirst)


def _mktab(base, lo, n, body, lv):
    """base with the n elements from lo on replaced by body"""
    b = raw('bv', lv)
    if n is ZERO or base is UNDEF:
        return base
    if lo is ZERO and n is size(base):
        return mkcollect(n, lst(body), lv)
    if body.op == 'sel' and body.a[0] is base and body.a[1] is add(lo, b):
        return base
    return raw('tab', base, lo, n, body, lv)


mktab = unswitch(_mktab)


def lst(*a):
    return lift('lst', _lst, a)


def _lst(*a):
    return raw('lst', *a)


BUILD = {
    'ite': lambda c, x, y: mkite(tobdd(c), x, y),
    'lin': None,
    'add': add, 'mul': lambda *a: _foldmul(a), 'fdiv': fdiv, 'idiv': idiv, 'imod': imod, 'trunc': trunc,
    'ge0': ge0, 'eq0': eq0, 'pos': pos, 'min': mmin, 'max': mmax,
    'cat': cat, 'slen': slen, 'seq': seq, 'prefix': prefix, 'suffix': suffix, 'contains': contains, 'strfind': strfind,
    'strrfind': strrfind, 'substr': substr,
    'eq': eq, 'isnull': isnull, 'fld': fld, 'size': size, 'push': push, 'sel': sel, 'store': store,
    'vpop': vpop, 'vcat': vcat, 'vfill': vfill, 'vresize': vresize, 'vrev': vrev, 'vslice': vslice,
    'has': has, 'msel': msel, 'mstore': mstore, 'sadd': sadd, 'mdel': mdel,
    'sum': mksum, 'catall': mkcatall, 'collect': mkcollect, 'any': mkany, 'first': mkfirst, 'tab': mktab,
    'keys': mkkeys, 'sall': sall,
}


def _foldmul(a):
    r = a[0]
    for x in a[1:]:
        r = mul(r, x)
    return r


def _buildlin(c, *a):
    r = num(c)
    for i in range(0, len(a), 2):
        r = add(r, mul(num(a[i + 1]), a[i]))
    return r


def _buildrec(base, *a):
    return mkrec(base, {a[i]: a[i + 1] for i in range(0, len(a), 2)})


BUILD['lin'] = _buildlin
BUILD['rec'] = _buildrec
BUILD['lst'] = lambda *a: lift('lst', _lst, a)


# ------------------------------------------------------------------ printing

def show(t, d=6):
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return '..'
    o = t.op
    if o == 'b':
        return 'true' if t is TRUE else 'false'
    if o == 'n':
        return str(nval(t))
    if o == 's':
        return repr(t.a[0])
    if o == 'sym':
        return str(t.a[0])
    if o == 'ite':
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return show(t.a[0], d)
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return '!' + show(t.a[0], d)
        return '(%s ? %s : %s)' % (show(t.a[0], d - 1), show(t.a[1], d - 1), show(t.a[2], d - 1))
    if o == 'lin':
        return '(' + ' + '.join([str(t.a[0])] + ['%s*%s' % (t.a[i + 1], show(t.a[i], d - 1)) for i in range(1, len(t.a), 2)]) + ')'
    if o == 'fld':
        return '%s.%s' % (show(t.a[0], d), t.a[1])
    if o == 'sel':
        return '%s[%s]' % (show(t.a[0], d), show(t.a[1], d - 1))
    if o == 'rec':
        return '{' + show(t.a[0], d - 1) + ' with ' + ', '.join('%s=%s' % (t.a[i], show(t.a[i + 1], d - 1)) for i in range(1, len(t.a), 2)) + '}'
    if o == 'cat':
        return '+'.join(show(x, d - 1) for x in t.a)
    if o == 'phi':
        return 'phi%s(%s)' % (t.a[0], t.a[1])
    if o == 'xphi':
        return 'exit%s(%s)' % (t.a[0], t.a[1])
    return o + '(' + ', '.join(show(x, d - 1) for x in t.a) + ')'


# ------------------------------------------------------------------ difference-constraint reduction

_tri = {}


def _numatoms(t):
    out, seen, st = set(), set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            if x.a[0].op in ('ge0', 'eq0', 'eq'):
                out.add(x.a[0])
            st.append(x.a[1])
            st.append(x.a[2])
        elif x.op in ('rec', 'pair'):
            st.extend(z for z in x.a if isinstance(z, T))
    return out


def _edges(t):
    """atoms lying on a cycle of the graph of compared pairs"""
    r = _tri.get(t)
    if r is not None:
        return r
    g = {}
    ats = _numatoms(t)
    if any(_diffs(at, True) is None for at in ats):
        r = _tri[t] = _dependent(sorted(ats, key=lambda z: z.id))
        return r
    for at in ats:
        d = _diffs(at, True)
        if not d:
            continue
        x, y, _ = d[0]
        g.setdefault(frozenset((x, y)), []).append(at)
    es = [e for e in g if len(e) == 2]
    # strip leaves until only the 2-core remains
    while True:
        deg = {}
        for e in es:
            for v in e:
                deg[v] = deg.get(v, 0) + 1
        k = [e for e in es if all(deg[v] > 1 for v in e)]
        if len(k) == len(es):
            break
        es = k
    r = _tri[t] = frozenset(at for e in es for at in g[e])
    return r


def _form(at):
    l = numarg(at)
    if l.op == 'lin':
        return l.a[0], {l.a[i]: l.a[i + 1] for i in range(1, len(l.a), 2)}
    if l.op == 'n':
        return nval(l), {}
    return 0, {l: 1}


def _dependent(ats):
    """atoms whose linear form is determined by those of the others, up to a constant"""
    rows = []
    core = set()
    for at in ats:
        v = {x: Fraction(k) for x, k in _form(at)[1].items()}
        w = {at: Fraction(1)}
        for piv, rv, rw in rows:
            k = v.get(piv)
            if k:
                for x, c in rv.items():
                    z = v.get(x, 0) - k * c
                    if z:
                        v[x] = z
                    else:
                        v.pop(x, None)
                for x, c in rw.items():
                    z = w.get(x, 0) - k * c
                    if z:
                        w[x] = z
                    else:
                        w.pop(x, None)
        if not v:
            core |= set(w)
            continue
        piv = min(v, key=lambda z: z.id)
        k = v[piv]
        v = {x: c / k for x, c in v.items()}
        w = {x: c / k for x, c in w.items()}
        rows.append((piv, v, w))
    return frozenset(core)


def _linfeasible(lits):
    """order and equality constraints over linear forms: equalities eliminated, each remaining form compared with constants"""
    eqs = []

    def red(c, d):
        c, d = Fraction(c), {x: Fraction(k) for x, k in d.items()}
        for piv, ec, ed in eqs:
            k = d.get(piv)
            if k:
                c -= k * ec
                for x, z in ed.items():
                    y = d.get(x, 0) - k * z
                    if y:
                        d[x] = y
                    else:
                        d.pop(x, None)
        return c, d
    for at, v in lits:
        if v and at.op in ('eq0', 'eq'):
            c, d = red(*_form(at))
            if not d:
                if c != 0:
                    return False
                continue
            piv = min(d, key=lambda z: z.id)
            k = d[piv]
            eqs.append((piv, c / k, {x: z / k for x, z in d.items()}))
    ds = []
    ne = []
    for at, v in lits:
        if at.op in ('eq0', 'eq'):
            if not v:
                c, d = red(*_form(at))
                if not d:
                    if c == 0:
                        return False
                else:
                    ne.append((c, d))
            continue
        if at.op != 'ge0':
            continue
        c, d = red(*_form(at))
        if not v:
            c, d = -c - 1, {x: -k for x, k in d.items()}
        # c + d >= 0
        if not d:
            if c < 0:
                return False
            continue
        ds.append(_asdiff(c, d))
    for x in {z for l in (ds, ()) for y in l for z in y[:2]}:
        if isinstance(x, T) and x is not ZERO and nonneg(x):
            ds.append((ZERO, x, 0))
    cl = _closure(ds)
    if any(c < 0 for (a, b), c in cl.items() if a is b or a == b):
        return False
    for c, d in ne:
        # d + c == 0 excluded
        x, y, k = _asdiff(-c, {z: -w for z, w in d.items()})   # x - y <= k   <=>   d <= -c
        if cl.get((x, y), k + 1) <= k and cl.get((y, x), -k + 1) <= -k:
            return False
    return True


def _asdiff(c, d):
    """c + d >= 0 as x - y <= k; a compound form is one unknown, whatever its sign"""
    it = sorted(d.items(), key=lambda z: z[0].id)
    if len(it) == 1 and abs(it[0][1]) == 1:
        t, k = it[0]
        return (ZERO, t, c) if k > 0 else (t, ZERO, c)
    if len(it) == 2 and {it[0][1], it[1][1]} == {1, -1}:
        p, q = (it[0][0], it[1][0]) if it[0][1] == 1 else (it[1][0], it[0][0])
        return (q, p, c)
    s = abs(it[0][1])
    sg = 1 if it[0][1] > 0 else -1
    key = tuple((x, k * sg / s) for x, k in it)
    return (ZERO, key, c / s) if sg > 0 else (key, ZERO, c / s)


def dreduce(t):
    """drop tests decided, or made irrelevant, by the order constraints met on the way"""
    if t.op not in ('ite', 'rec'):
        return t
    core = _edges(t)
    if not core:
        return t
    memo = {}
    budget = [20000]

    def go(x, lits):
        if x.op == 'rec':
            return mkrec(go(x.a[0], lits), {x.a[i]: go(x.a[i + 1], lits) for i in range(1, len(x.a), 2)})
        if x.op != 'ite' or not any(atomin(x, a) for a in core):
            return x
        k = (x, lits)
        r = memo.get(k)
        if r is not None:
            return r
        budget[0] -= 1
        if budget[0] < 0:
            return x
        at, hi, lo = x.a
        if at not in core:
            r = mkite(raw('ite', at, TRUE, FALSE), go(hi, lits), go(lo, lits))
        else:
            lt, lf = lits | {(at, True)}, lits | {(at, False)}
            ct, cf = feasible(lt), feasible(lf)
            if not ct:
                r = go(lo, lits)
            elif not cf:
                r = go(hi, lits)
            else:
                h, l = go(hi, lt), go(lo, lf)
                if h is l:
                    r = h
                elif go(l, lt) is h:
                    r = l
                elif go(h, lf) is l:
                    r = h
                else:
                    r = mkite(raw('ite', at, TRUE, FALSE), h, l)
        memo[k] = r
        return r

    return go(t, frozenset())


_feas = {}


def feasible(lits):
    r = _feas.get(lits)
    if r is None:
        if any(at.op in ('ge0', 'eq0', 'eq') and _diffs(at, True) is None for at, v in lits):
            r = _feas[lits] = _linfeasible(lits)
            return r
        ls = []
        for at, v in lits:
            d = _diffs(at, v)
            if d:
                ls += d
        cl = _closure(ls)
        r = all(c >= 0 for (a, b), c in cl.items() if a is b)
        if r:
            # excluded equalities
            for at, v in lits:
                if at.op in ('eq0', 'eq') and not v:
                    (x, y, c), _ = _diffs(at, True)
                    if cl.get((x, y), c + 1) <= c and cl.get((y, x), -c + 1) <= -c:
                        r = False
                        break
        _feas[lits] = r
    return r


def isnumeric(t):
    return t.op in ('lin', 'n', 'phi', 'xphi', 'it', 'xit', 'xitd', 'itd', 'size', 'scan', 'sum', 'slen', 'first') or t.op == 'ucall' or t.op in ('sel', 'fld', 'sym')


def theory_eq(x, y):
    """are the two diagrams equal at every point satisfying the order constraints?"""
    if x is y:
        return True
    if x.op != 'ite' or y.op != 'ite':
        return False
    core = _edges(raw('pair', x, y))
    if not core:
        return False
    memo = {}
    budget = [20000]

    def go(p, q, lits):
        if p is q:
            return True
        if p.op == 'rec' or q.op == 'rec':
            return False
        k = (p, q, lits)
        r = memo.get(k)
        if r is not None:
            return r
        budget[0] -= 1
        if budget[0] < 0:
            return False
        at = None
        for z in (p, q):
            if z.op == 'ite' and (at is None or z.a[0].id < at.id):
                at = z.a[0]
        if at is None:
            # sums equal where the path's equalities hold
            r = False
            if p.op in ('lin', 'n') or q.op in ('lin', 'n'):
                if isnumeric(p) and isnumeric(q):
                    d = eq0(sub(p, q))
                    if d.op == 'ite':
                        r = not feasible(lits | {(d.a[0], d.a[1] is not TRUE)})
            memo[k] = r
            return r
        r = True
        for v in (True, False):
            l2 = lits
            if at in core:
                l2 = lits | {(at, v)}
                if not feasible(l2):
                    continue
            if not go(cof(p, at, v), cof(q, at, v), l2):
                r = False
                break
        memo[k] = r
        return r
    return go(x, y, frozenset())


_treps = {}
_tcan = {}


def tcanon(t):
    """representative of t among the diagrams equal to it under the order constraints"""
    t = dreduce(t)
    if t.op != 'ite':
        return t
    r = _tcan.get(t)
    if r is None:
        ls = set()
        for x in ([t]):
            st = [x]
            seen = set()
            while st:
                z = st.pop()
                if z in seen:
                    continue
                seen.add(z)
                if z.op == 'ite':
                    st += [z.a[1], z.a[2]]
                else:
                    ls.add(z)
        k = frozenset(z for z in ls if z.op not in ('lin', 'n')) | {None for z in ls if z.op in ('lin', 'n')}
        reps = _treps.setdefault(k, [])
        for o in reps:
            if theory_eq(o, t):
                r = o
                break
        else:
            reps.append(t)
            r = t
        _tcan[t] = r
    return r

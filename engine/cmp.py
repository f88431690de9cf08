"""Congruence of two value graphs (Alpern-Wegman-Zadeck optimistic partition refinement
over the loop-carried values, on top of hash-consed guarded terms)."""
from terms import *
import terms as TM
from interp import constrain, HEAP, atoms_of

SORTS = {'n', 's', 'b', 'vnil', 'mnil', 'null'}


class Diff:
    def __init__(self, what, guard, a, b, where=None):
        self.what, self.guard, self.a, self.b, self.where = what, guard, a, b, where


class Congruence:
    def __init__(self, ips, pairs, care=TRUE, mode=0, watch=(), graph=None):
        """ips: analyses the terms come from; pairs: list of (name, a, b)"""
        self.loops = {}
        self.phiname = {}
        for ip in ips:
            self.loops.update(ip.loops)
            self.phiname.update(ip.phiname)
        self.graph = graph
        if graph is not None:
            # a rewriting of those analyses' loops
            self.loops, self.phiname = graph.loops, graph.phiname
        self.pairs = pairs
        self.ips = ips
        self.care = care
        self.xkeys = {}
        self.xinfo = {}
        self.rounds = 0
        self.mode = mode
        self.watch = watch
        self.log = []
        self.collect([t for _, a, b in pairs for t in (a, b)] + [care])
        self.solve()

    def collect(self, terms):
        self.phis = []
        self.used = set()
        seen = set()
        seent = set()
        work = list(terms)
        pseen = set()
        while work:
            t = work.pop()
            for x in subterms(t, seent) if t not in seent else ():
                if x in seen:
                    continue
                seen.add(x)
                L = None
                if x.op in ('phi', 'it', 'xphi', 'xit'):
                    L = x.a[0]
                if L is None:
                    continue
                lp = self.loops.get(L)
                if lp is None:
                    raise KeyError('value of an unsummarised loop %s' % (x,))
                if L not in self.used:
                    self.used.add(L)
                    work.append(lp.exit)
                    work.append(lp.exit0)
                p = x if x.op == 'phi' else x.a[1] if x.op == 'xphi' else None
                if p is not None and p not in pseen:
                    pseen.add(p)
                    self.phis.append(p)
                    if p in lp.sub:
                        if x.op == 'xphi':
                            raise KeyError('exit value of an eliminated loop value %s' % TM.show(p))
                        self.phis.pop()
                        work.append(lp.sub[p])
                    elif p in lp.next:
                        work.append(lp.init[p])
                        work.append(lp.next[p])
                    else:
                        raise KeyError('unsummarised loop value %s' % TM.show(p))

    def loop(self, p):
        return self.loops[p.a[0]]

    def solve(self):
        cls = {}
        for p in self.phis:
            lp = self.loop(p)
            i = lp.init[p]
            cls[p] = (lp.depth, i.op, i) if i.op in SORTS else (lp.depth, 'o')
            if self.mode & 1:
                cls[p] = (lp.depth, shape(i, {}))
        self.number(cls)
        while True:
            self.rounds += 1
            if self.rounds > 200:
                raise RuntimeError('congruence does not stabilise')
            self.setreps()
            new = {}
            for p in self.phis:
                lp = self.loop(p)
                i = self.canon(lp.init[p])
                n = self.canon(lp.next[p])
                b = tcanon(self.canon(b_not(lp.exit)))
                n = constrain(tcanon(n), b)
                if TM._edges(raw('pair', n, b)):
                    n = mkite(b, n, UNDEF)
                new[p] = (self.cls[p], tcanon(i), tcanon(n))
            old = len(set(self.cls.values()))
            if self.watch:
                self.watching(new)
            self.number(new)
            if len(set(self.cls.values())) == old:
                break
        self.setreps()

    def watching(self, new):
        """why values assumed equal so far are told apart"""
        for p, q in list(self.watch):
            if self.cls[p] == self.cls[q] and new[p] != new[q]:
                for what, x, y in (('start', new[p][1], new[q][1]), ('step', new[p][2], new[q][2])):
                    if x is y:
                        continue
                    g, a, b = self.narrow(x, y)
                    self.log.append((self.rounds, p, q, what, g, a, b))
                    for t, u in zip(leaves(a), leaves(b)):
                        if t.op == 'xphid' and u.op == 'xphid' and t.a[1] is not u.a[1]:
                            self.log.append((self.rounds, t.a[1], u.a[1], 'earlier', [], t, u))
                        elif t.op == 'phi' and u.op == 'phi' and t is not u and t in self.cls and u in self.cls:
                            self.log.append((self.rounds, t, u, 'earlier', [], t, u))

    def number(self, keyed):
        ids = {}
        self.cls = {}
        for p in self.phis:
            k = keyed[p]
            self.cls[p] = ids.setdefault(k, len(ids))

    def setreps(self):
        self.rep = {}
        first = {}
        for p in self.phis:
            self.rep[p] = first.setdefault(self.cls[p], p)
        self.memo = {}
        self.exk = {}

    def exitkey(self, L):
        k = self.exk.get(L)
        if k is None:
            lp = self.loops[L]
            x = tcanon(self.canon(lp.exit))
            k = self.xkeys.setdefault((lp.depth, x), len(self.xkeys))
            self.xinfo[k] = L
            self.exk[L] = k
        return k

    def canon(self, t):
        r = self.memo.get(t)
        if r is not None:
            return r
        if not loops_in(t):
            self.memo[t] = t
            return t
        if t.op == 'phi':
            lp = self.loops[t.a[0]]
            r = self.canon(lp.sub[t]) if t in lp.sub else self.rep[t]
        elif t.op == 'it':
            r = raw('itd', self.loops[t.a[0]].depth)
        elif t.op == 'xphi':
            r = raw('xphid', self.exitkey(t.a[0]), self.rep[t.a[1]])
            if t in TM.SIZEOF:
                z = self.canon(TM.SIZEOF[t])
                if TM.SIZEOF.get(r) is not z:
                    TM.setsize(r, z)
        elif t.op == 'xit':
            r = raw('xitd', self.exitkey(t.a[0]))
            if t in TM.BOUND:
                TM.BOUND[r] = self.canon(TM.BOUND[t])
        elif t.op in TM.BINDERS:
            r = TM.mapb(t, self.canon)
            if t.op == 'first' and t in TM.FIRSTB and r.op == 'first':
                b, c = TM.FIRSTB[t]
                TM.FIRSTB.setdefault(r, (self.canon(b), self.canon(c)))
        else:
            na = tuple(self.canon(z) if isinstance(z, T) else z for z in t.a)
            if all(p is q or (not isinstance(p, T) and p == q) for p, q in zip(na, t.a)):
                r = t
            else:
                r = rebuild(t.op, na)
        self.memo[t] = r
        return r

    # ------------------------------------------------------------ verdict
    def diffs(self):
        out = []
        for name, a, b in self.pairs:
            x, y = self.canon(a), self.canon(b)
            if self.care is not TRUE:
                c = self.canon(self.care)
                x, y = constrain(x, c), constrain(y, c)
            if x is y:
                continue
            x, y = tcanon(x), tcanon(y)
            if x is y:
                continue
            # what is known when a loop has been left
            c = TRUE
            for L in sorted({l for t in (a, b) for k, l in loops_in(t) if k in ('xphi', 'xit')}):
                lp = self.loops[L]
                e = substmap(lp.exit, lp.m, {})
                if e is lp.exit and not (lp.exit0 is TRUE):
                    continue  # no value the loop changes decides whether it is left: it runs forever unless it is left at once
                c = b_and(c, self.canon(e))
            if c is not TRUE:
                x, y = constrain(x, c), constrain(y, c)
                if x is y or theory_eq(mkite(c, x, UNDEF), mkite(c, y, UNDEF)):
                    continue
            g, p, q, x, y = self.settle(x, y)
            if g is None:
                continue
            out.append(Diff(name, g, p, q))
        return out

    def settle(self, x, y):
        """narrows down a difference; a loop left at once leaves what it started with"""
        for _ in range(24):
            g, p, q = self.narrow(x, y)
            cond = TRUE
            for at, v in g:
                if at in ('field', 'in'):
                    break
                cond = b_and(cond, at if v else b_not(at))
            else:
                m = {}
                work = sorted((t for t in subterms(p, set()) | subterms(q, set()) if t.op == 'xphid'), key=lambda t: t.id)
                extra = set()
                again = True
                while again:
                    again = False
                    for t in work:
                        if t in m:
                            continue
                        lp = self.loops[self.xinfo[t.a[0]]]
                        lq = self.loops[t.a[1].a[0]]
                        i = lq.init0[t.a[1]] if t.a[1] in lq.init0 else None
                        if i is None or i is UNDEF:
                            continue
                        e0 = self.canon(lp.exit0)
                        i = self.canon(i)
                        for z in (e0, i):
                            for y2 in subterms(z, set()):
                                if y2.op == 'xphid' and y2 not in extra:
                                    extra.add(y2)
                                    if y2 not in work:
                                        work.append(y2)
                                        again = True
                        if m:
                            e0 = substmap(e0, m, {})
                        if e0 is not FALSE and (e0 is TRUE or TM.dreduce(b_or(b_not(cond), e0)) is TRUE):
                            m[t] = substmap(i, m, {}) if m else i
                            again = True
                if m:
                    x2 = mkite(cond, substmap(x, m, {}), x)
                    y2 = mkite(cond, substmap(y, m, {}), y)
                    if x2 is y2:
                        return None, None, None, x2, y2
                    if x2 is x and y2 is y:
                        return g, p, q, x, y
                    x, y = tcanon(x2), tcanon(y2)
                    if x is y:
                        return None, None, None, x, y
                    continue
            return g, p, q, x, y
        return g, p, q, x, y

    def narrow(self, x, y):
        """a valuation of the guards under which the two values differ"""
        g = []
        while True:
            if x is y:
                return g, x, y
            a = TM.topatom(x) if x.op != 'rec' else None
            b = TM.topatom(y) if y.op != 'rec' else None
            if x.op == 'rec' or y.op == 'rec':
                fs = set()
                TM._allfields(x, fs)
                TM._allfields(y, fs)
                hit = None
                for f in sorted(fs):
                    p, q = fld(x, f), fld(y, f)
                    if p is not q:
                        hit = (f, p, q)
                        break
                if hit is None:
                    return g, x, y
                g.append(('field', hit[0]))
                x, y = hit[1], hit[2]
                continue
            if a is None and b is None:
                if x.op == y.op and len(x.a) == len(y.a) and x.op != 'lin':
                    d = [(p, q) for p, q in zip(x.a, y.a) if p is not q and p != q]
                    if x.op == 'mstore' and x.a[1] is y.a[1] and x.a[2] is not y.a[2]:
                        d = [(x.a[2], y.a[2])]
                    elif x.op in ('fdiv', 'sum', 'fmul', 'fadd') and d:
                        d = d[:1]
                    elif x.op == 'b':
                        d = []
                    if len(d) == 1 and isinstance(d[0][0], T) and isinstance(d[0][1], T):
                        g.append(('in', x.op))
                        x, y = d[0]
                        continue
                if x.op == 'lin' and y.op == 'lin' and x.a[0] == y.a[0]:
                    xs = {t: c for t, c in zip(x.a[1::2], x.a[2::2])}
                    ys = {t: c for t, c in zip(y.a[1::2], y.a[2::2])}
                    dx = [t for t in xs if ys.get(t) != xs[t]]
                    dy = [t for t in ys if xs.get(t) != ys[t]]
                    if len(dx) == 1 and len(dy) == 1 and dx[0] is not dy[0] and xs[dx[0]] == ys[dy[0]]:
                        g.append(('in', 'lin'))
                        x, y = dx[0], dy[0]
                        continue
                return g, x, y
            at = a if b is None or (a is not None and a.id < b.id) else b
            for v in (True, False):
                p, q = TM.cof(x, at, v), TM.cof(y, at, v)
                if p is not q:
                    g.append((at, v))
                    x, y = p, q
                    break
            else:
                return g, x, y


def leaves(t):
    if t.op == 'ite':
        return leaves(t.a[1]) + leaves(t.a[2])
    return [t]


def shape(t, memo):
    """a term with its loop-carried parts left open"""
    if not loops_in(t):
        return t
    if t.op in ('phi', 'xphi', 'it', 'xit', 'xphid', 'xitd', 'itd'):
        return t.op
    r = memo.get(t)
    if r is None:
        r = memo[t] = (t.op,) + tuple(shape(x, memo) if isinstance(x, T) else x for x in t.a)
    return r


def observables(rs, rc, fields=None, skip=()):
    """pairs (name, code value, specification value) over everything the function may change"""
    out = []
    if rc.ret is not None or rs.ret is not None:
        out.append(('return value', rc.ret, rs.ret))
    roots = set(rc.env) | set(rs.env)
    for r in sorted(roots, key=lambda z: z.id):
        if r.op not in ('par', 'this', 'g', 'root', 'hroot'):
            continue
        a = rc.env.get(r)
        b = rs.env.get(r)
        if a is None:
            a = rc.ip.initial(r)
        if b is None:
            b = rs.ip.initial(r)
        if a is None or b is None:
            continue
        a, b = rc.ip.reify(a), rs.ip.reify(b)
        if r.op == 'par':
            n = 'parameter %d' % r.a[0]
        elif r.op == 'this':
            n = 'object state'
        elif r.op == 'hroot':
            n = 'object ' + TM.show(r.a[0], 4)
        else:
            n = '%s' % (r.a[0],)
        if n in skip:
            continue
        if a is b:
            out.append((n, a, b))
        else:
            fieldpairs(n, a, b, out, skip)
    return out


def fieldpairs(n, a, b, out, skip):
    fs = set()
    if (a.op == 'rec' or b.op == 'rec') and TM._bases(a) is TM._bases(b):
        TM._allfields(a, fs)
        TM._allfields(b, fs)
        for f in sorted(fs, key=str):
            if '%s.%s' % (n, f) in skip:
                continue
            out.append(('%s.%s' % (n, f), fld(a, f), fld(b, f)))
        return
    out.append((n, a, b))


def throwterm(r):
    """condition under which an exception leaves the function, and its value"""
    c = FALSE
    v = UNDEF
    for p, e, x in r.throws:
        c = b_or(c, p)
    return c

"""Loop unswitching on value graphs: a loop whose recurrences test a condition that no iteration
changes is replaced by one loop per outcome of that condition.  Applied to both sides of a
comparison it makes 'one loop after the branch' and 'one loop in each branch' the same graph."""
import copy
from terms import *
import terms as TM
import interp
from interp import replace_atom

MAXATOMS = 3


def freeloops(t, memo):
    """loops whose running values (not merely exit values) occur in t"""
    r = memo.get(t)
    if r is not None:
        return r
    s = set()
    if t.op in ('phi', 'it'):
        s.add(t.a[0])
    elif t.op not in ('xphi', 'xit'):
        for z in t.a:
            if isinstance(z, T) and loops_in(z):
                s |= freeloops(z, memo)
    r = memo[t] = frozenset(s)
    return r


def tables(lp):
    return [lp.exit, lp.exit0] + list(lp.init.values()) + list(lp.next.values()) + list(lp.sub.values()) + list(lp.m.values())


class Unswitch:
    def __init__(self, c):
        self.loops = {L: copy.copy(c.loops[L]) for L in c.used}
        for lp in self.loops.values():
            lp.m = dict(lp.m)
        self.phiname = dict(c.phiname)
        self.names = [p[0] for p in c.pairs]
        self.terms = [t for p in c.pairs for t in p[1:3]] + [c.care]
        self.fm = {}
        self.changed = False
        for L in sorted(self.loops, key=lambda l: (-self.loops[l].depth, l)):
            self.split(L)

    def result(self):
        it = iter(self.terms)
        return [(n, next(it), next(it)) for n in self.names], self.terms[-1]

    def inner(self, L):
        r = {L}
        again = True
        while again:
            again = False
            for M, lp in self.loops.items():
                if M not in r and any(freeloops(t, self.fm) & r for t in tables(lp) if t is not None):
                    r.add(M)
                    again = True
        return r

    def split(self, L):
        lp = self.loops[L]
        inn = self.inner(L)
        ats = set()
        for t in [lp.exit] + list(lp.next.values()):
            st, seen = [t], set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x.op == 'ite':
                    ats.add(x.a[0])
                    st += [x.a[1], x.a[2]]
                elif x.op == 'rec':
                    st += [z for z in x.a if isinstance(z, T)]
        ats = sorted((a for a in ats if not any(l in inn for _, l in loops_in(a))), key=lambda a: a.id)
        if not ats or len(ats) > MAXATOMS:
            return
        self.changed = True
        trees = None
        vers = []
        for k in range(1 << len(ats)):
            v = [(a, bool(k >> i & 1)) for i, a in enumerate(ats)]
            cond = TRUE
            for a, b in v:
                cond = b_and(cond, node_(a) if b else b_not(node_(a)))
            if cond is FALSE or TM.dreduce(cond) is FALSE:
                continue
            vers.append((cond, self.clone(L, inn, v)))
        m = {}
        xs = {}
        for t in self.alltable(set(inn)):
            for x in subterms(t, set()):
                if x.op in ('xphi', 'xit') and x.a[0] in inn:
                    xs[x] = None
        for x in xs:
            r = UNDEF
            for cond, mp in vers:
                r = mkite(cond, mp(x), r)
            m[x] = r
        memo = {}
        f = lambda t: substmap(t, m, memo) if isinstance(t, T) and loops_in(t) else t
        self.terms = [f(t) for t in self.terms]
        for M in list(self.loops):
            if M in inn:
                del self.loops[M]
                continue
            self.apply(self.loops[M], f)

    def apply(self, q, f):
        q.exit, q.exit0 = f(q.exit), f(q.exit0)
        q.init = {p: f(t) for p, t in q.init.items()}
        q.init0 = {p: f(t) for p, t in q.init0.items()}
        q.next = {p: f(t) for p, t in q.next.items()}
        q.sub = {p: f(t) for p, t in q.sub.items()}
        q.m = {p: f(t) for p, t in q.m.items()}

    def alltable(self, without):
        for t in self.terms:
            yield t
        for M, q in self.loops.items():
            if M in without:
                continue
            for t in tables(q):
                if t is not None:
                    yield t

    def clone(self, L, inn, v):
        ids = {}
        for M in inn:
            interp.NLOOP[0] += 1
            ids[M] = interp.NLOOP[0]
        m = {}

        def newphi(p):
            r = m.get(p)
            if r is None:
                r = m[p] = raw('phi', ids[p.a[0]], p.a[1])
                self.phiname[r] = self.phiname.get(p)
            return r
        for M in inn:
            q = self.loops[M]
            m[raw('it', M)] = raw('it', ids[M])
            m[raw('xit', M)] = raw('xit', ids[M])
            for p in set(q.next) | set(q.sub) | set(q.init) | {z for z in q.m if z.op == 'phi'}:
                newphi(p)
                m[raw('xphi', M, p)] = raw('xphi', ids[M], m[p])
        memo = {}

        def f(t):
            if not isinstance(t, T):
                return t
            t = substmap(t, m, memo) if loops_in(t) else t
            for a, b in v:
                t = replace_atom(t, a, TRUE if b else FALSE)
            return t
        for p, q in list(m.items()):
            if p in TM.SIZEOF and q not in TM.SIZEOF:
                TM.setsize(q, f(TM.SIZEOF[p]))
            if p in TM.XINIT and q not in TM.XINIT:
                TM.XINIT[q] = tuple(f(z) for z in TM.XINIT[p])
            if p in TM.BOUND and q not in TM.BOUND:
                TM.BOUND[q] = f(TM.BOUND[p])
        for M in inn:
            q = copy.copy(self.loops[M])
            q.L = ids[M]
            q.exit, q.exit0 = f(q.exit), f(q.exit0)
            for k in ('init', 'init0', 'next', 'sub', 'm'):
                setattr(q, k, {f0(p, m): f(t) for p, t in getattr(q, k).items()})
            self.loops[ids[M]] = q
        return f


def f0(p, m):
    return m.get(p, p)


def node_(a):
    return mkite(raw('ite', a, TRUE, FALSE), TRUE, FALSE)

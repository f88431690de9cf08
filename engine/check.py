#!/usr/bin/env python3
"""check.py <property>: decides one property from /repo's current sources.
exit 0 holds; exit 1 + VIOLATION line; exit 3: the analysis could not decide."""
import json
import os
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)

import ir
import terms as TM
from terms import *
from interp import Unsupported
import interp
import analyze
import cmp as congr
import unswitch

VERIF = ir.VERIF
EVID = os.environ.get('FSTALIGN_EVIDENCE', VERIF + '/evidence')


class Broken(Exception):
    """an anchor vanished or an obligation cannot be stated on this tree"""


def changed(v, base):
    """the members in which a value of the object differs from the object at entry"""
    if v is base:
        return set()
    if v.op == 'ite':
        return changed(v.a[1], base) | changed(v.a[2], base)
    if v.op == 'rec' and v.a[0] is base:
        return {v.a[i] for i in range(1, len(v.a), 2)}
    return {'(all)'}


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.prog = ir.load_repo()
        self.nrepo = len([f for f in self.prog.fns.values() if f.body is not None])
        self.violations = []
        self.obls = []
        self.fnset = set()
        self.stats = {'call_sites': 0, 'branches': 0, 'loops': 0, 'stores': 0, 'loop_values': 0, 'refinement_rounds': 0,
                      'observables_compared': 0}
        self.rules = set()
        self.open = []
        self.wcache = {}

    # ------------------------------------------------------------ anchors
    def fn(self, q, nparams=None, pick=None, optional=False):
        fs = [f for f in self.prog.byq(q) if f.body is not None and (nparams is None or len(f.params) == nparams)]
        if pick:
            fs = [f for f in fs if pick(f)]
        if len(fs) != 1:
            if optional:
                return None
            raise Broken('anchor %s: %d definitions found' % (q, len(fs)))
        return fs[0]

    def loadspec(self, name):
        ir.load(self.prog, VERIF + '/specs', [VERIF + '/specs/' + name])
        ir.link(self.prog)

    def run(self, fn, opts=None, noinline=(), args=None, thisval=None):
        r = analyze.run(self.prog, fn, opts, noinline, args, thisval)
        st = r.ip.stats
        self.fnset |= {k for k in st['functions'] if not k.startswith('spec::')}
        self.stats['call_sites'] += st['calls']
        self.stats['branches'] += st['branches']
        self.stats['loops'] += len(st['loops'])
        self.stats['stores'] += st['stores']
        return r

    def violation(self, what, where, detail):
        self.violations.append({'what': what, 'where': where, 'detail': detail})

    # ------------------------------------------------------------ reference-model equality
    def equiv(self, code, spec, noinline=(), opts=None, select=None, nparams=None, pick=None, title=None, skip=(), args=None, sopts=None, ctor=None, empty=False):
        """the observables of the repository function equal those of the reference model (or of one of several
        reference models that are different ways to write the same function)"""
        if isinstance(spec, (list, tuple)):
            first = None
            for sp in spec:
                n = len(self.violations), len(self.obls), len(self.open)
                self.equiv(code, sp, noinline, opts, select, nparams, pick, title, skip, args, sopts, ctor, empty)
                new = self.violations[n[0]:], self.obls[n[1]:], self.open[n[2]:]
                if not new[0] and not new[2]:
                    return
                del self.violations[n[0]:], self.obls[n[1]:], self.open[n[2]:]
                first = first or new
            self.violations += first[0]
            self.obls += first[1]
            self.open += first[2]
            return
        f = self.fn(code, nparams, pick) if isinstance(code, str) else code
        g = self.fn(spec) if isinstance(spec, str) else spec
        noinline = set(noinline)
        tc = ts = None
        if ctor:
            tc, ts = self.afterctor(*ctor)

        def attempt(names):
            rc = self.run(f, opts, names - {f.q}, args=args, thisval=tc)
            rs = self.run(g, sopts if sopts is not None else opts, names | {'=' + f.q}, args=args, thisval=ts)
            pairs = congr.observables(rs, rc, skip=skip)
            pairs.append(('exceptions', congr.throwterm(rc), congr.throwterm(rs)))
            if select:
                pairs = [p for p in pairs if select(p[0])]
            return rc, rs, pairs, self.diffs(rc, rs, pairs, title or f.q, empty)
        try:
            r = attempt(noinline)
        except Unsupported as ex:
            # this obligation stays open; the others are still decided
            self.open.append('%s: %s' % (title or f.q, ex))
            return
        soft = {n for n in noinline if n not in (opts or {}).get('frames', {}) and n not in (opts or {}).get('events', ()) and n not in (opts or {}).get('models', {})}
        if r[3][1]:
            # calls taken as uninterpreted change only what an effect check of their bodies shows they may change
            opts = dict(opts or {}, writes=self.writes)
            if sopts is not None:
                sopts = dict(sopts, writes=self.writes)
            try:
                with TM.budget(1_500_000, 150):
                    r2 = attempt(noinline)
                if not r2[3][1]:
                    r = r2
            except (TM.Blowup, Unsupported, RuntimeError, KeyError):
                pass
        if r[3][1] and soft:
            # helpers taken as uninterpreted may have been inlined, or replaced by equals: look into them
            try:
                with TM.budget(1_500_000, 150):
                    r2 = attempt(noinline - soft)
                if not r2[3][1]:
                    r = r2
            except (TM.Blowup, Unsupported, RuntimeError, KeyError):
                pass
        rc, rs, pairs, (c, ds) = r
        self.record(f, rc, rs, pairs, title or f.q, c, ds)

    def writes(self, fn, what, noinline):
        """may a call of the function change this argument (or its object)?  Decided from the value its body
        leaves there; a recursive call is assumed to obey (induction on the call depth)"""
        k = (fn.key, frozenset(noinline))
        w = self.wcache.get(k)
        if w is None:
            self.wcache[k] = set()
            w = {'this'} | set(range(len(fn.params)))
            try:
                r = analyze.run(self.prog, fn, {'writes': self.writes}, set(noinline) - {fn.q})
                w = {i for i, p in enumerate(fn.params) if '*' in p['t'] or p.get('ref') and r.env.get(raw('par', i)) is not sym('P%d' % i)}
                if fn.cls and not fn.d.get('static') and r.env[raw('this')] is not sym('this'):
                    w.add('this')
            except (TM.Blowup, Unsupported, RuntimeError, KeyError):
                pass
            self.wcache[k] = w
        return what in w

    def afterctor(self, q, fields):
        """this object as the constructor leaves its pointer members into itself; everything else is arbitrary"""
        f = self.fn(q)
        r = self.run(f)
        v = r.env[raw('this')]
        base = sym('this')
        code = TM.mkrec(base, {n: TM.fld(v, n) for n in fields})
        ref = TM.mkrec(base, {n: raw('ptr', raw('this'), t) for n, t in fields.items()})
        return code, ref

    def frames(self, table, noinline=()):
        """which members each member function may change, decided by an effect check of its body;
        recursive and opaque calls obey the table (induction on the call depth)"""
        opts = {'frames': table}
        self.rules.add('frame: a member function changes no member outside its declared set')
        for q, fields in table.items():
            f = self.fn(q)
            r = self.run(f, opts, set(noinline) | (set(table) - {q}))
            bad = sorted(changed(r.env[raw('this')], sym('this')) - set(fields))
            self.obls.append({'function': f.q, 'file': os.path.relpath(f.file, ir.REPO), 'line': f.line, 'observables': 1, 'loops': len(r.ip.loops), 'ok': not bad})
            for b in bad:
                self.violation('%s changes %s' % (f.q, b), '%s:%d' % (f.file, f.line), 'outside its declared effect {%s}' % ', '.join(fields))
        return opts

    def diffs(self, rc, rs, pairs, title, empty=False):
        care = TRUE
        for a in rs.ip.assumes:
            care = b_and(care, a)
        if not empty and all(b is UNDEF or b is FALSE or b is TRUE or b.op in ('sym', 'par') for _, _, b in pairs):
            raise Broken('the reference model of %s has no effect to compare' % title)
        c = congr.Congruence([rc.ip, rs.ip], pairs, care)
        ds = c.diffs()
        if ds:
            c2 = congr.Congruence([rc.ip, rs.ip], pairs, care, mode=1)
            ds2 = c2.diffs()
            if len(ds2) < len(ds):
                c, ds = c2, ds2
        if ds:
            try:
                with TM.budget(1_500_000, 150):
                    u = unswitch.Unswitch(c)
                    if u.changed:
                        ps, care2 = u.result()
                        for mode in (0, 1):
                            c2 = congr.Congruence([rc.ip, rs.ip], ps, care2, mode=mode, graph=u)
                            if not c2.diffs():
                                ds = []
                                break
            except (TM.Blowup, RuntimeError, KeyError):
                pass
        return c, ds

    def record(self, f, rc, rs, pairs, title, c, ds):
        self.rules.add('value-graph congruence with the reference model')
        self.stats['loop_values'] += len(c.phis)
        self.stats['refinement_rounds'] += c.rounds
        self.stats['observables_compared'] += len(pairs)
        self.obls.append({'function': f.q, 'file': os.path.relpath(f.file, ir.REPO), 'line': f.line, 'observables': len(pairs),
                          'loops': len(c.used), 'ok': not ds})
        for d in ds:
            self.violation('%s: %s differs from the reference model' % (title, d.what), '%s:%d' % (f.file, f.line), self.explain(c, rc, rs, d))

    def explain(self, c, rc, rs, d):
        o = []
        o.append('observable: ' + d.what)
        for at, v in d.guard:
            if at == 'field':
                o.append('  in field ' + v)
            elif at == 'in':
                o.append('  inside ' + v)
            else:
                o.append('  when %s%s' % ('' if v else 'not ', TM.show(at, 8)))
        o.append('code value:      ' + TM.show(d.a, int(os.environ.get('SHOWD', '7'))))
        o.append('reference value: ' + TM.show(d.b, int(os.environ.get('SHOWD', '7'))))
        o += self.loopdiff(c, rc, rs, d.a, d.b)
        return '\n'.join(o)

    def loopdiff(self, c, rc, rs, a, b):
        """explains values carried by different loops: where their recurrences part"""
        o = []
        la = [p for p in c.phis if p.a[0] in rc.ip.loops]
        lb = {c.rep[p] for p in c.phis if p.a[0] in rs.ip.loops}
        want = set()
        for t in subterms(a, set()):
            if t.op == 'phi':
                want.add(t)
            elif t.op == 'xphid':
                want.add(t.a[1])
        if a.op == 'xphid' and b.op == 'xphid' and a.a[1] is not b.a[1]:
            o += self.why(c, a.a[1], b.a[1])
        keys = {}
        sk = {c.exitkey(L): L for L in c.used if L in rs.ip.loops}
        ck = {c.exitkey(L) for L in c.used if L in rc.ip.loops}
        for k, L in sk.items():
            if k not in ck:
                lp = c.loops[L]
                o.append('reference loop at %s:%s leaves when %s' % (os.path.basename(str(lp.where[0])), lp.where[1], TM.show(TM.dreduce(c.canon(lp.exit)), int(os.environ.get('SHOWD', '7')))))
        for L in c.used:
            keys.setdefault(c.exitkey(L), []).append(L)
        for k, Ls in keys.items():
            if all(L in rc.ip.loops for L in Ls):
                lp = c.loops[Ls[0]]
                o.append('loop at %s:%s has no counterpart; leaves when %s' % (lp.where[0], lp.where[1], TM.show(TM.dreduce(c.canon(lp.exit)), int(os.environ.get('SHOWD', '7')))))
        for p in la:
            if c.rep[p] not in lb:
                lp = c.loops[p.a[0]]
                o.append('value `%s` of the loop at %s:%s: starts %s, becomes %s' % (
                    c.phiname.get(p), lp.where[0], lp.where[1], TM.show(c.canon(lp.init[p]), 5), TM.show(constr(c, lp, p), int(os.environ.get('SHOWD', '7')))))
        sp = [p for p in c.phis if p.a[0] in rs.ip.loops]
        la2 = {c.rep[p] for p in la}
        for p in sp:
            if c.rep[p] not in la2:
                lp = c.loops[p.a[0]]
                o.append('reference value `%s` (%s:%s): starts %s, becomes %s' % (
                    c.phiname.get(p), os.path.basename(str(lp.where[0])), lp.where[1], TM.show(c.canon(lp.init[p]), 5), TM.show(constr(c, lp, p), int(os.environ.get('SHOWD', '7')))))
        return o[:60]


def _why(self, c, p, q):
    o = []
    seen = set()
    work = [(p, q)]
    n = 0
    while work and n < 4:
        p, q = work.pop()
        if (p, q) in seen:
            continue
        seen.add((p, q))
        n += 1
        try:
            w = congr.Congruence(list(c.ips), c.pairs, c.care, mode=c.mode, watch=[(p, q)])
        except KeyError:
            break
        for r, p1, q1, what, g, x, y in w.log:
            if what == 'earlier':
                work.append((p1, q1))
                continue
            o.append('`%s` / `%s` part in round %d, %s:' % (c.phiname.get(p1), c.phiname.get(q1), r, what))
            for at, v in g:
                o.append('    when %s%s' % ('' if v is True else 'not ' if v is False else at + ' ', TM.show(at, int(os.environ.get('SHOWD', '7'))) if isinstance(at, T) else v))
            o.append('    code ' + TM.show(x, int(os.environ.get('SHOWD', '7'))))
            o.append('    reference ' + TM.show(y, int(os.environ.get('SHOWD', '7'))))
    return o


Ctx.why = _why


def constr(c, lp, p):
    return TM.dreduce(interp.constrain(TM.dreduce(c.canon(lp.next[p])), TM.dreduce(c.canon(b_not(lp.exit)))))


def known(pid):
    p = VERIF + '/known-findings.json'
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == pid]


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import props
    p = props.PROPS[pid]
    rc = 3
    try:
        ctx = Ctx(pid, tier)
        try:
            p['run'](ctx)
        except (Unsupported, Broken, TM.Blowup, KeyError) as ex:
            # what was found before stands
            if not ctx.violations:
                raise
            ctx.open.append(str(ex))
        n = len(ctx.obls)
        if n < p['floor'] and not ctx.open and not ctx.violations:
            raise Broken('only %d obligations, expected at least %d' % (n, p['floor']))
        kn = known(pid)
        vs = []
        for v in ctx.violations:
            k = [x for x in kn if x['what'] == v['what'] and x.get('match', '') in v['detail']]
            if k:
                print('KNOWN-FINDING: property=%s %s' % (pid, v['what']))
            else:
                vs.append(v)
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': p['explanation'],
                'rule': sorted(ctx.rules),
                'obligations': n,
                'discharged': sum(1 for o in ctx.obls if o['ok']),
                'functions_parsed': ctx.nrepo,
                'translation_units': len(ctx.prog.units),
                'functions_analysed': len(ctx.fnset),
                'functions': sorted(ctx.fnset),
                'detail': ctx.obls,
                **ctx.stats,
            },
            'assumptions': p['assumptions'],
            'violations': [v['what'] for v in vs],
            'wall_s': round(time.time() - t0, 2),
        }
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(EVID + '/%s.json' % pid, 'w'), indent=1)
        for o in ctx.open:
            print('UNDECIDED property=%s %s' % (pid, o))
        if vs:
            rp = '%s/%s.violation.txt' % (EVID, pid)
            with open(rp, 'w') as f:
                for v in vs:
                    f.write('%s\n%s\n%s\n\n' % (v['what'], v['where'], v['detail']))
            for v in vs:
                print('%s\n  %s\n%s' % (v['what'], v['where'], v['detail'][:4000]))
                print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
        elif not ctx.open:
            print('%s holds: %d obligations over %d functions, %.1fs' % (pid, n, len(ctx.fnset), time.time() - t0))
            rc = 0
    except (Unsupported, Broken, ir.FrontEndError, TM.Blowup, KeyError) as ex:
        print('UNDECIDED property=%s %s: %s' % (pid, type(ex).__name__, ex))
        if os.environ.get('VERIF_DEBUG'):
            print(traceback.format_exc()[-3000:])
    except Exception as ex:
        print('ERROR property=%s' % pid)
        print(traceback.format_exc()[-3000:])
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    threading.stack_size(1024 * 1024 * 1024)
    t = threading.Thread(target=main)
    t.start()
    t.join()

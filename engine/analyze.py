"""Entry points: builds the value graph of one function from symbolic inputs."""
from interp import *
import ir
import models


class Result:
    pass


def setup(prog, fn, opts=None, noinline=(), args=None, thisval=None):
    ip = Interp(prog, noinline, opts)
    ip.frame = Frame(0, fn)
    obj = None
    if fn.cls and not fn.d.get('static'):
        obj = LV(raw('this'))
        ip.env[raw('this')] = thisval if thisval is not None else sym('this')
    a = []
    for i, p in enumerate(fn.params):
        v = None
        if args and i in args:
            v = args[i]
        r = raw('par', i)
        if p.get('ref'):
            if v is not None:
                ip.env[r] = v
            else:
                ip.env[r] = sym('P%d' % i)
            a.append(LV(r))
        else:
            t = strip(p['t'])
            x = v if v is not None else sym('P%d' % i)
            if t == 'bool' and v is None:
                x = TM.tobdd(x)
            a.append(x)
    return ip, obj, a


def run(prog, fn, opts=None, noinline=(), args=None, thisval=None):
    ip, obj, a = setup(prog, fn, opts, noinline, args, thisval)
    ip.stats['functions'].add(fn.key)
    ip.stack.append(fn.key)
    ip.reference = fn.q.startswith('spec::')
    fr = Frame(ip.subpath(fn.d, 'top'), fn, obj, ip.frame)
    if fn.d.get('ctor'):
        for f in ip.allfields(fn.cls):
            pass
        v = ip.dflt(fn.cls)
        ip.env[raw('this')] = v if thisval is None else thisval
    val = ip.runbody(fr, fn.params, a, fn.body, fn.d.get('rt', ''), fn.d.get('inits', []))
    r = Result()
    r.ip = ip
    r.fn = fn
    if isinstance(val, LVS):
        val = ip.load(val)
    if val is not UNDEF and strip(fn.d.get('rt', '')) == 'bool':
        val = TM.tobdd(val)
    r.ret = ip.reify(val) if ip.pc is not FALSE or val is not UNDEF else UNDEF
    r.pc = ip.pc
    r.env = ip.env
    r.throws = ip.throws
    return r

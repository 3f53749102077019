"""Shared machinery of the rules: anchors, path queries, obligations."""
import json, os, sys, time
from .engine import *
from .terms import *

HANDLER = 'actix::handler::Handler'
ACTOR = 'actix::actor::Actor'
M = 'crate::master::messages::'
CM = 'crate::cache::messages::'
CNT = 'crate::master::embedded::counter::'
EMB = 'crate::master::embedded::master::'
HASH = 'crate::cache::hashcache::HashCache'
RCACHE = 'crate::cache::redis::RedisCache'
COUNTER = CNT + 'Counter'
MASTER = EMB + 'Master'
RMASTER = 'crate::master::redis::master::Master'
ERR = 'crate::errors::CaptchaError'

SELF = ('sym', 'self')

class Missing(Exception): pass

class Ck:
    """obligations of one property on one engine"""
    def __init__(self, e, pid):
        self.e = e; self.pid = pid
        self.obs = []          # (rule, instance, ok)
        self.viol = {}         # key -> dict
        self.roots = set()
        self.notes = {}
        self.samples = []
        self.pcache = e.__dict__.setdefault('_pcache', {})

    # ------------------------------------------------ obligations
    def ob(self, rule, inst, good, msg='', span=None, key=None):
        self.obs.append((rule, inst, bool(good)))
        if good:
            if len(self.samples) < 12 and not any(s['rule'] == rule for s in self.samples):
                self.samples.append({'rule': rule, 'instance': inst, 'verdict': 'holds'})
        else:
            k = key or '%s | %s' % (rule, inst)
            if k not in self.viol:
                self.viol[k] = {'rule': rule, 'instance': inst, 'message': msg, 'location': span, 'key': k}
        return bool(good)

    def need(self, x, what):
        """an anchor the rules hang on; its absence is a violation, not a pass"""
        if not x:
            self.ob('anchor present', what, False, 'the construct this property is decided on was not found')
            raise Missing(what)
        return x

    # ------------------------------------------------ anchors
    def field(self, adt, name, variant=0):
        a = self.need(self.e.adts.get(adt), 'type ' + adt)
        fs = a['variants'][variant]['fields']
        if name not in fs: self.need(None, 'field %s of %s' % (name, adt))
        return fs.index(name)

    def fld(self, v, adt, name, variant=None):
        return get(v, ('f', self.field(adt, name, variant or 0), variant))

    def errvar(self, name):
        vs = [v['name'] for v in self.need(self.e.adts.get(ERR), ERR)['variants']]
        if name not in vs: self.need(None, 'error ' + name)
        return vs.index(name)

    def handler(self, actor, msg):
        l = [f for f in self.e.fns if f.get('impl') and f['impl'].get('trait') == HANDLER and f['impl'].get('self_adt') == actor
             and f['impl'].get('trait_args', [None, None])[1] == msg and f['name'] == 'handle']
        return self.need(l, 'handler of %s in %s' % (msg, actor))[0]

    def handlers(self, actor=None):
        return [f for f in self.e.fns if f.get('impl') and f['impl'].get('trait') == HANDLER and f['name'] == 'handle'
                and (actor is None or f['impl'].get('self_adt') == actor)]

    def method(self, adt, name, optional=False):
        l = [f for f in self.e.fns if f['name'] == name and f.get('impl') and f['impl'].get('self_adt') == adt and not f['impl'].get('trait')]
        if not l and optional: return None
        return self.need(l, 'method %s::%s' % (adt, name))[0]

    def methods(self, adt):
        return [f for f in self.e.fns if f.get('impl') and f['impl'].get('self_adt') == adt and not f['impl'].get('trait')]

    def tmethod(self, adt, trait, name, optional=False):
        l = [f for f in self.e.fns if f['name'] == name and f.get('impl') and f['impl'].get('self_adt') == adt and f['impl'].get('trait') == trait]
        if not l and optional: return None
        return self.need(l, '%s for %s' % (trait, adt))[0]

    # ------------------------------------------------ paths
    def argnames(self, f):
        b = self.e.bodies[f['key']]
        return [self.e.types[b['locals'][i][0]] for i in range(1, b['argc'] + 1)]

    def paths(self, f, args=None, setup=None, tag=None):
        """abstract paths of f; parameters are named by position: self, a1, a2 ..."""
        self.roots.add(f['key'])
        b = self.e.bodies[f['key']]
        if args is None:
            args = []
            for i in range(1, b['argc'] + 1):
                nm = b['locals'][i][1] if len(b['locals'][i]) > 1 else None
                args.append(('sym', 'self' if nm == 'self' else 'a%d' % i))
        ck = (f['key'], tuple(args), tag)
        if tag is not None or setup is None:
            if ck in self.pcache: return self.pcache[ck]
        r = self.e.analyse(f['key'], args=args, setup=setup)
        if f.get('async'):
            out = []
            for p in r:
                if p.kind != 'ret': out.append(p); continue
                for q in self.e.future_paths(p.st, p.val):
                    out.append(q)
            r = out
        if tag is not None or setup is None: self.pcache[ck] = r
        return r

    def hpaths(self, f):
        """paths of a message handler: parameters self, msg, ctx"""
        return self.paths(f, args=[SELF, ('sym', 'msg'), ('sym', 'ctx')])

    def futures(self, p):
        """[(event, [paths])] of what a path hands to an executor"""
        c = self.__dict__.setdefault('_fc', {})
        if id(p) in c: return c[id(p)][1]
        out = []
        for ev in p.ev:
            if ev[0] == 'spawn':
                out.append((ev, self.e.future_paths(p.st, ev[3])))
        c[id(p)] = (p, out)
        return out

    # ------------------------------------------------ loops
    def unroll(self, ev):
        """all events of a timeline, those inside loops included (each loop body as alternatives)"""
        for x in ev:
            yield x
            if x[0] == 'loop':
                for s in self.e.loops[x[1]].iters:
                    yield from self.unroll(s.ev)

def selfval(st, base=SELF): return st.snap(st.root(('P', base)))

def diffs(v, base, path=()):
    """[(path, new value)] of the parts of v that differ from base"""
    if v == base: return []
    if v[0] == 'upd' and v[1] == base:
        out = []
        for p, x in v[2]: out += diffs(x, get(base, p), path + (p,))
        return out
    return [(path, v)]

def at(v, path):
    for p in path: v = get(v, p)
    return v

def mapops(v, base):
    """{key: ('set', val) | ('del',)} turning base into v, or None"""
    ops = []
    while v != base:
        if v[0] in ('minsert', 'mset'): ops.append((v[2], ('set', v[3])))
        elif v[0] == 'mremove': ops.append((v[2], ('del',)))
        elif v[0] == 'mempty' or True:
            return None
        v = v[1]
    d = {}
    for k, o in reversed(ops): d[k] = o
    return d

def ev_of(evs, *kinds): return [x for x in evs if x[0] in kinds]

def where(ev):
    for x in reversed(ev):
        if isinstance(x, str) and ('.rs:' in x): return x
    return None

def pspan(p):
    """a source position for a path"""
    if p.kind == 'panic' and p.info: return p.info.get('span')
    for x in reversed(p.ev):
        w = where(x)
        if w: return w
    return None

class Deferred:
    """something scheduled for later: delay term and what happens then"""
    def __init__(self, delay, kind, action, ev, how): self.delay, self.kind, self.action, self.ev, self.how = delay, kind, action, ev, how

EFFECTS = ('send', 'send_chan', 'map', 'seq', 'redis', 'stop', 'start', 'spawn', 'notify_later', 'run_later', 'run_interval', 'thread', 'join', 'recv')

def is_own(addr, ctx=('sym', 'ctx')): return addr == ('addr_of', ctx)

# ---------------------------------------------------------------- what a path does beyond its state
def reply_of(p):
    """(kind, term) of what a handler path answers: ('now', value) or ('later', sender id)"""
    v = p.st.snap(p.val)
    if v[0] == 'agg' and v[1].endswith('MessageResult') and v[3]: v = v[3][0]
    if v[0] == 'agg' and v[1].endswith('Ok') : v = v[3][0]
    if v[0] == 'rx': return ('later', v)
    return ('now', v)

def replies(ck, p, actor=None):
    """answers sent on the channel of a handler path: [(where, event, path)], where in ('now', spawn event)"""
    k, v = reply_of(p)
    if k == 'now': return [('direct', v, p)]
    out = []
    for ev in ck.unroll(p.ev):
        if ev[0] == 'send_chan' and ev[2][:2] == ('tx', v[1]): out.append(('now', ev, p))
    for sp, fps in ck.futures(p):
        for q in fps:
            if q.kind != 'ret': continue
            for ev in ck.unroll(q.ev):
                if ev[0] == 'send_chan' and ev[2][:2] == ('tx', v[1]): out.append((sp, ev, q))
    return out

def own_reply_ok(ck, actor, msg):
    """the actor's own handler of msg always answers Ok at once"""
    c = ck.e.__dict__.setdefault('_ownok', {})
    if (actor, msg) in c: return c[(actor, msg)]
    c[(actor, msg)] = False
    l = [f for f in ck.handlers(actor) if f['impl']['trait_args'][1] == msg]
    good = bool(l)
    for f in l:
        for p in ck.hpaths(f):
            if p.kind != 'ret': good = False; continue
            k, v = reply_of(p)
            if not (k == 'now' and v[0] == 'agg' and v[1] == RES and v[2] == 0): good = False
    c[(actor, msg)] = good
    return good

def infeasible(ck, q, actor, ctx=('sym', 'ctx'), how='spawn'):
    """a path of a future on the actor's own context that needs the actor itself to be gone"""
    if how not in ('spawn', 'wait', 'sync'): return False
    return infeasible_ev(ck, q.ev, q.st.facts, actor, ctx)

def infeasible_ev(ck, evs, facts, actor, ctx=('sym', 'ctx')):
    sends = {x[4]: x for x in evs if x[0] == 'send' and x[4] is not None}
    for x in evs:
        if x[0] == 'loop':
            pass
        if x[0] == 'await' and x[1] == 'send' and x[2] in sends:
            s = sends[x[2]]
            if not is_own(s[2], ctx): continue
            if facts.var.get(x[3]) == 1: return True
            inner = ('fld', x[3], 0, 0)
            if facts.var.get(inner) == 1 and own_reply_ok(ck, actor, s[6]): return True
    return False

def fpaths(ck, actor, sp, fps, ctx=('sym', 'ctx')):
    """the feasible ones among a spawned future's paths"""
    how = sp[1] if sp[2] == ctx else 'task'
    return [q for q in fps if not infeasible(ck, q, actor, ctx, how)]

NOISE = ('drop', 'forget', 'send_failed', 'unsent', 'borrow', 'check')
def effects(ev): return [x for x in ev if x[0] not in NOISE and not (x[0] == 'call' and x[1] in ('rand::rng::rng', 'rng', 'rand::rng::Rng::sample'))]

def scheduled(ck, p, actor, ctx=('sym', 'ctx')):
    """[Deferred] and the spawned futures that are not timers: (deferred, [(spawn event, paths)])"""
    ds = []; others = []
    for x in ck.unroll(p.ev):
        if x[0] == 'notify_later':
            ds.append(Deferred(x[3], 'send', [[('send', 'notify', x[1], x[2], None, x[4], tag_of(x[2]))]], x, 'notify_later'))
        elif x[0] == 'run_later':
            ds.append(Deferred(x[2], 'closure', x[3], x, 'run_later'))
        elif x[0] == 'run_interval':
            ds.append(Deferred(x[2], 'interval', x[3], x, 'run_interval'))
    for sp, fps in ck.futures(p):
        qs = fpaths(ck, actor, sp, fps, ctx)
        first = [next((x for x in effects(q.ev)), None) for q in qs]
        if qs and all(f is not None and f[0] == 'await' and f[1] == 'sleep' for f in first) and len({f[2] for f in first}) == 1:
            ds.append(Deferred(first[0][2], 'future', qs, sp, sp[1] if sp[2] == ctx else 'task'))
        else: others.append((sp, qs))
    return ds, others

def tag_of(v): return v[1] if v[0] == 'agg' else None

def secs(t): return ('dur', t, 10 ** 9)
def norm_delay(d): return d

LATER = ('sym', 'later')
def background(ck, p, actor, ctx=('sym', 'ctx'), depth=3):
    """[(event, path, [state diffs on LATER])] of all that a path sets off on its own actor: closures and futures that
    get at the actor's state when they run"""
    out = []
    def walk(ev, st, n):
        if n == 0: return
        for x in ev:
            if x[0] == 'loop':
                for s in ck.e.loops[x[1]].iters: walk(s.ev, s, n)
            elif x[0] in ('run_later', 'run_interval'):
                s = st.copy(); s.ev = ()
                for q in ck.e.paths(ck.e.call_value(s, x[3], [LATER, ctx])): take(x, q, n)
            elif x[0] == 'spawn':
                how = x[1] if x[2] == ctx else 'task'
                for q in ck.e.future_paths(st, x[3]):
                    if not infeasible(ck, q, actor, ctx, how): take(x, q, n)
    def take(x, q, n):
        out.append((x, q, diffs(selfval(q.st, LATER), LATER) if q.kind == 'ret' else []))
        walk(q.ev, q.st, n - 1)
    walk(p.ev, p.st, depth)
    return out

def own_effects(ck, p, d, actor, ctx=('sym', 'ctx'), base=LATER):
    """What a Deferred of path p does to the actor when it fires: list of alternatives, each a list of
    (facts, [state diffs]) for the messages it sends to the actor itself; None when it does something else."""
    alts = []
    if d.kind == 'closure' or d.kind == 'interval':
        st = p.st.copy(); st.ev = ()
        res = []
        for q in ck.e.paths(ck.e.call_value(st, d.action, [base, ctx])):
            if q.kind != 'ret': return None
            res.append([(q, diffs(selfval(q.st, base), base))])
        return res
    seqs = d.action if d.kind == 'send' else [effects(q.ev)[1:] for q in d.action]
    for i, evs in enumerate(seqs):
        if d.kind == 'future' and d.action[i].kind != 'ret': return None
        msgs = []
        for x in evs:
            if x[0] == 'send':
                if not is_own(x[2], ctx): return None
                msgs.append((x[6], x[3]))
            elif x[0] == 'await' and x[1] == 'send': pass
            elif x[0] == 'own' and d.how != 'task': pass
            else: return None
        cur = [[]]
        if d.kind == 'future':
            # what it does to the actor it was made for, without a message
            q = d.action[i]; df = diffs(selfval(q.st, base), base)
            if df or not msgs: cur = [[(q, df)]]
        for mt, mv in msgs:
            f = ck.handler(actor, mt)
            nxt = []
            for q in ck.paths(f, args=[base, mv, ctx]):
                if q.kind != 'ret': return None
                nxt.append((q, diffs(selfval(q.st, base), base)))
            cur = [c + [n] for c in cur for n in nxt]
        alts += cur
    return alts

"""C35: every submission and every challenge request is answered, as long as what it waits for goes on."""
from ..core import *
from ..loops import counters, phi_slots
from . import queue, system, safety
from . import counter as cnt
from .safety import STORES, segments, hname

class Only:
    """the part of another property's rules this one rests on"""
    def __init__(self, ck, keep):
        self.__dict__['_ck'] = ck; self.__dict__['_keep'] = keep
    def __getattr__(self, n): return getattr(self._ck, n)
    def ob(self, rule, inst, good, *a, **k):
        if self._keep(rule, inst): return self._ck.ob(rule, inst, good, *a, **k)
        return good

# what of C12, C13, C14, C16 and C19 decides whether an answer comes
NOT12 = {'a worker asks only when free', 'no worker gets a job that does not exist', 'only work changes the queue'}
OF13 = {'the submitter gets one decision', 'submitted once', 'the decision is awaited', 'no panic'}
OF14 = {'round-robin among addresses', 'jobs of one address wait in order', 'the first job of the first address is next'}
OF16 = {'the worker survives', 'exactly one verdict', 'without blocking'}
OF19 = {'answered on every path', 'answered exactly once', 'answered', 'no request waits for its own actor', 'a store or registry never stops by itself'}
USED = {CM + 'CachePoW', CM + 'RetrivePoW', CM + 'CacheResult', M + 'AddVisitor'}

def replyto(ev, x):
    """whether what an await waits for is the answer to a message sent before"""
    for y in ev:
        if y is x: return False
        if y[0] == 'await' and y[1] == 'send' and x[2] == get(y[3], ('f', 0, 0)): return True
        if y[0] == 'send' and x[2] == y[4]: return True
    return False

def bounded(e, L):
    """whether something goes up by one in every iteration and never beyond what was there before the loop"""
    own = {q for _, q, _ in phi_slots(L)}
    fixed = lambda t: t is None or not any(q == t or contains(t, q) for q in own)
    def upto(f, q): return any(a == q and fixed(b) and (b is not None and c < 0 or b is None and c < 2**31 - 1) for (a, b), c in f.le.items())
    return any(all(upto(s.facts, q) for s in L.iters) for q, _ in counters(e, L))
def counted(e, L): return bool(queue.overall(L)) or bounded(e, L)

def request(ck, name, ps, known):
    e = ck.e; n = 0
    for p in ps:
        evs = list(p.ev)
        for x in evs:
            if x[0] == 'loop':
                L = e.loops[x[1]]
                inner = [y for s in L.iters for y in ck.unroll(s.ev)]
                does = [y for y in inner if y[0] in ('await', 'send', 'send_chan', 'recv')]
                ck.ob('a request is not repeated until it succeeds', name, not does or counted(e, L), 'the request goes round again until something happens', (where(does[0]) if does else None) or L.span)
                awaits = [y for s in L.iters for y in s.ev if y[0] == 'await']
                for y in awaits: waitsfor(ck, name, [z for s in L.iters for z in s.ev], y, ()); n += 1
            elif x[0] == 'await': waitsfor(ck, name, evs, x, known(p)); n += 1
            elif x[0] in ('recv', 'join'): ck.ob('waits only for who answers', name, False, 'the request waits for a thread', where(x))
    ck.need(n, 'what %s waits for' % name)
    return n

def waitsfor(ck, name, ev, x, more):
    good = x[1] in ('send', 'sleep') or replyto(ev, x) or any(x is y for y in more)
    ck.ob('waits only for who answers', '%s, %s' % (name, x[1]), good, '%s waits for something other than the store, the registry, the queue and its verdict' % name, where(x))

def c35(ck):
    e = ck.e
    # ---- the requests: what they wait for, and how often
    f, vs = system.verify_paths(ck)
    sub = {id(p): s for p, s in vs}
    n = request(ck, 'verify_pow', [p for p, _ in vs], lambda p: [y for y in (sub[id(p)].verdict, sub[id(p)].decision) if y])
    f, ps = system.pow_paths(ck)
    n += request(ck, 'get_pow', ps, lambda p: ())
    ck.notes['waits of the requests'] = n
    # ---- the queue and its workers
    queue.c12(Only(ck, lambda r, i: r not in NOT12))
    queue.c13(Only(ck, lambda r, i: r in OF13))
    queue.c14(Only(ck, lambda r, i: r in OF14))
    system.c16(Only(ck, lambda r, i: r in OF16))
    Q = queue.system(ck)
    for lo in Q.loops:
        for it in lo.feasible:
            own = {id(x) for x in it.recvs}
            bad = [x for x in ck.unroll(it.ev) if x[0] in ('recv', 'join') and id(x) not in own and it.f.ev(('received', x[2])) is not False]
            ck.ob('the manager waits only for messages to it', queue.inst(it), not bad or it.kind not in ('sched', 'name'), 'the manager waits for a thread while it handles a message', where(bad[0]) if bad else None)
    # ---- the store and the registry
    names = {'%s %s' % (a.replace('crate::', ''), m.split('::')[-1]) for a in STORES for m in USED}
    safety.c19(Only(ck, lambda r, i: r in OF19 and (r == 'a store or registry never stops by itself' or i.split(',')[0].split(': ')[0] in names)))
    handles = {}; site = cnt.Site(ck)
    for a in safety.actors(ck):
        for g in ck.handlers(a): handles.setdefault(g['impl']['trait_args'][1], set()).add(a)
    first = {}; holds = {}; k = 0
    for a in safety.actors(ck):
        for g in ck.handlers(a):
            m = g['impl']['trait_args'][1]; to = first.setdefault((a, m), {})
            ps = site.paths(g) if a == COUNTER else ck.hpaths(g)
            for s in segments(ck, hname(g), a, ps, site=site):
                flat = list(ck.unroll(s.ev))
                for x in flat:
                    if x[0] != 'await': continue
                    y = next((z for z in flat if z[0] == 'send' and z[4] == x[2]), None)
                    if y is None:
                        if m in USED or a == COUNTER: ck.ob('waits only for who answers', '%s, %s' % (hname(g), x[1]), x[1] in ('sleep', 'redis', 'send') or replyto(flat, x) or redisawait(x), 'the answer waits for something nobody is known to bring about', where(x))
                        continue
                    k += 1
                    for b in handles.get(y[6], ()):
                        if is_own(y[2]) and b != a: continue
                        to.setdefault((b, y[6]), where(x))
                        if s.how == 'wait': holds.setdefault(a, {}).setdefault(b, where(x))
            if m in USED or a == COUNTER and m.endswith('::AddVisitor'):
                ck.ob('answered on every path', hname(g) + ' ends', all(p.kind == 'ret' for p in ps), 'a path panics', g.get('span'), key='answered on every path | %s ends' % hname(g))
    for graph, rule, what in ((first, 'no two requests wait for each other', 'the answer waits, in the end, for itself'), (holds, 'no two actors wait for each other', 'the actor stands still until an actor answers that waits for it')):
        for v in sorted(graph, key=repr):
            seen = set(); todo = list(graph[v])
            while todo:
                x = todo.pop()
                if x in seen: continue
                seen.add(x); todo += [y for y in graph.get(x, ()) if y != x or x == v]
            if graph is first and v[1].endswith('::CleanUp'): continue
            ck.ob(rule, ' '.join(y.split('::')[-1] for y in v) if isinstance(v, tuple) else v, v not in seen, what, next((w for w in graph[v].values() if w), None))
    ck.notes['waits of the actors'] = k

def redisawait(x):
    return 'redis' in repr(x[2])[:400]

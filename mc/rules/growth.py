"""C43: what requests leave behind goes away again."""
import re
from ..core import *
from ..loops import phi_slots, loop_ids
from . import registry, queue, store, indep
from .queue import at_path
S = lambda n: ('sym', n)

COLL = re.compile(r'\b(Vec|VecDeque|HashMap|BTreeMap|HashSet|BTreeSet|BinaryHeap|LinkedList|String|BytesMut|Slab|IndexMap|LruCache|Sender|Mutex|RwLock|RefCell|Box<dyn|Rc|Arc)\b')
HELD = re.compile(r'\b(Mutex|RwLock|RefCell|UnsafeCell|DashMap|SegQueue|ArrayQueue)\b')
LESS = {'mremove', 'mfilt', 'vfilt', 'vtail', 'vinit', 'vdel', 'vslice', 'vrev', 'sorted', 'moved', 'vset'}
MORE = {'minsert', 'mset', 'vpush', 'vcons', 'vinsert', 'strop'}
ARITH = {'add', 'sub', 'mul', 'int', 'bool', 'eq', 'le', 'not', 'saturating', 'and', 'or', 'ite'}
LEAK = re.compile(r'(::(leak|into_raw|into_raw_parts|into_raw_with_allocator)$)|^core::mem::forget$|ManuallyDrop(::<[^>]*>|<[^>]*>)?::new$')

def grew(v, old, f):
    """whether a collection old became a larger one (None: cannot be told)"""
    more = False
    while v != old:
        if not isinstance(v, tuple) or not v: return None
        h = v[0]
        if h in LESS: v = v[1]
        elif h in ('minsert', 'mset'):
            if h == 'minsert' and f.ev(('has', v[1], v[2])) is not True and f.ev(('has', old, v[2])) is not True: return True
            if h == 'mset':
                o = get(old, ('key', v[2]))
                for p, x in diffs(v[3], o):
                    if grew(x, at(o, p), f) is not False and any(t[0] in MORE for t in parts(x)): return True
            v = v[1]
        elif h in ('vpush', 'vcons', 'vinsert'):
            if f.ev(le(vlen(v), vlen(old))) is True: return False
            more = True; v = v[2] if h == 'vcons' else v[1]
        elif h in ('vempty', 'mempty'): return False
        elif h in ARITH: return False
        elif not contains(v, old): return False     # replaced, by something that does not hold what was there
        else: return None
    return more

def parts(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str): yield t
        for x in t:
            if isinstance(x, tuple): yield from parts(x)

class Kinds:
    """the declared type of a part of an actor's state"""
    def __init__(self, e):
        self.items = {}
        for i in e.F['items']: self.items.setdefault(i['path'], i)
        self.e = e
    def ty(self, adt, path):
        t = adt
        for p in path:
            i = self.items.get(t)
            if i is None or p[0] != 'f': return t
            fs = i['fields']
            a = self.e.adts.get(t)
            if a and a.get('kind') == 'struct' and p[1] < len(fs): t = fs[p[1]]['ty']
            else: return t
        return t

def larger(ck, K, adt, p, base, ds):
    """[(path, certain)] the parts of the state a path made larger"""
    f = p.st.facts; out = []
    for path, v in ds:
        old = at(base, path); ty = K.ty(adt, path)
        g = grew(v, old, f)
        if v[0] == 'phi': g = any(grew(at_path(s, sp) or q, q, s.facts) is not False for L in ck.e.loops.values() for sp, q, i in phi_slots(L) if q == v for s in L.iters)
        if g is True and any(x[0] in MORE for x in parts(v)): out.append((path, 'an entry is added'))
        elif g is None and COLL.search(ty): out.append((path, 'it changes in a way that is not followed'))
        elif g is False and v[0] == 'agg' and any(x[0] in MORE and contains(x, base) for x in parts(v)): out.append((path, 'an entry is added'))
    return out

def kind(x, m):
    """the type of the message an event sends"""
    if x[0] == 'send': return x[6]
    return m if x[2] == S('msg') else tag_of(x[2])

def spawned(ck, p, actor, ctx=('sym', 'ctx'), depth=4):
    """[(event, [paths])] of the futures a path hands to an executor, and of those these hand on"""
    out = []
    def walk(ev, st, n):
        if n == 0: return
        for x in ev:
            if x[0] == 'loop':
                for s in ck.e.loops[x[1]].iters: walk(s.ev, s, n)
            elif x[0] in ('run_later', 'run_interval'):
                s = st.copy(); s.ev = ()
                for q in ck.e.paths(ck.e.call_value(s, x[3], [LATER, ctx])): walk(q.ev, q.st, n - 1)
            elif x[0] == 'spawn':
                qs = fpaths(ck, actor, x, ck.e.future_paths(st, x[3]))
                out.append((x, qs))
                for q in qs: walk(q.ev, q.st, n - 1)
    walk(p.ev, p.st, depth)
    return out

def reached(e, key):
    """[(terminator, callee)] of the calls that start a thread or an executor in a body and in the bodies of the crate it calls or makes"""
    seen = set(); todo = [key]
    while todo:
        k = todo.pop()
        if k in seen or k not in e.bodies or not e.bodies[k].get('local'): continue
        seen.add(k)
        for blk in e.bodies[k]['blocks']:
            for s in blk[0]:
                if isinstance(s, dict) and 'r' in s and s['r'][0] == 'agg' and isinstance(s['r'][1], dict) and s['r'][1].get('inst'): todo.append(s['r'][1]['inst'])
        for t, fn in indep.calls(e.bodies[k]):
            q = indep.plain(fn['path'])
            if q in queue.SPAWNS and 'blocking' not in q: yield t, q
            if fn.get('inst'): todo.append(fn['inst'])

def name(m): return m.split('::')[-1]

def c43(ck):
    e = ck.e; K = Kinds(e)
    # ---- the tables of the actors
    r = registry.Reg(ck)
    stored = {}
    for m, k in ((CM + 'CachePoW', 'string'), (CM + 'CacheResult', 'token')):
        out, key = store.store_step(ck, m, k, 'what is stored')
        stored[m] = out[0][1]
        for p, l in out:
            ds, others = scheduled(ck, p, HASH)
            gone = False
            for d in ds:
                alts = own_effects(ck, p, d, HASH)
                if alts and d.kind != 'interval' and all(any(((l, ('del',)) in [(path, (mapops(v, at(LATER, path)) or {}).get(key)) for path, v in df]) or (not [1 for y, _ in df if store.touches(y, store.tables(ck))] and store.hasno(q, at(LATER, l), key)) for q, df in a) for a in alts): gone = True
            ck.ob('what a request stores is removed again', name(m), gone, 'an entry is stored and nothing is scheduled to remove it', pspan(p))
    owner = {M + 'AddSite', M + 'Rename', M + 'SetInternalData'}
    for actor in (HASH, COUNTER, MASTER, RCACHE, RMASTER):
        for f in ck.handlers(actor):
            m = f['impl']['trait_args'][1]
            for p in ck.hpaths(f):
                if p.kind != 'ret': continue
                for path, why in larger(ck, K, actor, p, SELF, diffs(selfval(p.st), SELF)):
                    good = actor == HASH and stored.get(m) == path or actor == MASTER and m in owner and path == r.sites
                    ck.ob('no request makes anything else grow', '%s %s' % (name(actor), name(m)), good, '%s of %s grows with every %s: %s' % (K.ty(actor, path), name(actor), name(m), why), pspan(p) or f.get('span'))
                for x, q, df in background(ck, p, actor):
                    if q.kind != 'ret': continue
                    for path, why in larger(ck, K, actor, q, LATER, df):
                        good = actor == MASTER and m in owner and path == r.sites
                        ck.ob('no request makes anything else grow', '%s %s, set off' % (name(actor), name(m)), good, '%s of %s grows later on: %s' % (K.ty(actor, path), name(actor), why), where(x))
            ck.ob('no request makes anything else grow', '%s %s' % (name(actor), name(m)), True)
    # ---- what is set off ends
    sends = {}
    for actor in (HASH, COUNTER, MASTER, RCACHE, RMASTER):
        for f in ck.handlers(actor):
            m = f['impl']['trait_args'][1]
            to = sends.setdefault(m, {})
            for p in ck.hpaths(f):
                if p.kind != 'ret': continue
                for x in ck.unroll(p.ev):
                    if x[0] == 'run_interval': ck.ob('nothing a request sets off goes on for ever', '%s %s' % (name(actor), name(m)), False, 'a request starts something that is repeated for ever', where(x))
                    if x[0] == 'thread': ck.ob('nothing a request sets off goes on for ever', '%s %s' % (name(actor), name(m)), False, 'a request starts a thread', where(x))
                    if x[0] in ('send', 'notify_later'): to.setdefault(kind(x, m), x)
                for sp, qs in spawned(ck, p, actor):
                    ck.ob('nothing a request sets off goes on for ever', '%s %s, future' % (name(actor), name(m)), bool(qs), 'a request starts a future that never ends', where(sp))
                for x, q, df in background(ck, p, actor):
                    for y in ck.unroll(q.ev):
                        if y[0] == 'run_interval' or y[0] == 'thread': ck.ob('nothing a request sets off goes on for ever', '%s %s' % (name(actor), name(m)), False, 'a request starts something that goes on for ever', where(y))
                        if y[0] in ('send', 'notify_later'): to.setdefault(kind(y, m), y)
    for m, to in sends.items():
        # a message that in the end leads to itself
        seen = set(); todo = [x for x in to if x]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            todo += [y for y in sends.get(x, ()) if y and not (x == registry.CLEANUP and y == x)]
        if m == registry.CLEANUP: continue
        ck.ob('no request keeps itself going', name(m), m not in seen, 'handling %s leads to another %s, without end' % (name(m), name(m)), next((where(x) for x in to.values() if where(x)), None))
        ck.ob('no request starts another round of clean-ups', name(m), registry.CLEANUP not in seen, 'every %s starts clean-ups that never end' % name(m), next((where(x) for k, x in to.items() if k == registry.CLEANUP), None))
    # ---- threads and executors are started where a system or actor is made, not by what an actor is asked
    for f in [f for a in (HASH, COUNTER, MASTER, RCACHE, RMASTER) for f in ck.handlers(a)]:
        for t, k in reached(e, f['key']):
            ck.ob('nothing a request sets off goes on for ever', '%s starts %s' % (f['key'], k), False, 'a request starts a thread or an executor (%s)' % k, t.get('s'))
    # ---- the queue and its workers
    Q = queue.system(ck)
    queue.drained(ck, Q, 'an address with no waiting job is forgotten')
    for lo in Q.loops:
        known = {lo.wait[0], lo.rot[0], lo.idle[0]}
        for path, phi, init in lo.slots:
            if path in known: continue
            for it in lo.feasible:
                v = at_path(it.st, path)
                if v is None: continue
                g = grew(v, phi, it.f)
                ck.ob('the queue keeps nothing else', queue.inst(it), g is False or g is None and not any(x[0] in MORE for x in parts(v)), 'something grows with every message to the queue', queue.span(it))
    for L, s, x, ins, rs in queue.worker_runs(Q):
        for q in rs:
            for lid in loop_ids(q.ev):
                W = e.loops[lid]
                for path, phi, init in phi_slots(W):
                    for s2 in W.iters:
                        v = at_path(s2, path)
                        if v is None: continue
                        g = grew(v, phi, s2.facts)
                        ck.ob('a worker keeps nothing', 'worker', g is False or g is None and not any(y[0] in MORE for y in parts(v)), 'something grows with every job', where(x))
    # ---- the system itself keeps nothing, and nothing is leaked
    s = K.items.get('crate::system::System')
    for fl in ck.need(s, 'the system')['fields']:
        ty = fl['ty']; ck.ob('a system keeps nothing of a request', fl['name'], not (HELD.search(ty) and COLL.search(HELD.sub('', ty))), 'the field %s: %s can grow with every request' % (fl['name'], ty), s['span'])
    n = 0
    for k, b in e.bodies.items():
        if not b.get('local'): continue
        for t, fn in indep.calls(b):
            n += 1
            q = indep.plain(fn['path'])
            if LEAK.search(q): ck.ob('nothing is leaked', k, False, '%s calls %s' % (b['path'], q), t.get('s'))
    ck.ob('nothing is leaked', 'all calls', n > 0, 'no calls')
    ck.notes['calls looked at'] = n

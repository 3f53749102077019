"""The work queue: C12 (exactly once), C13 (admission), C14 (fairness), C15 (shutdown).

The manager thread's loop is compared, one abstract iteration at a time, with what the queue is meant to do to
(waiting jobs, rotation of addresses, idle workers). The invariant behind that comparison - the rotation holds
exactly the addresses with waiting jobs, no address waits without a job, a worker is idle only while nothing
waits, idle workers are workers - holds initially and is preserved by exactly those steps."""
from ..core import *
from ..loops import phi_slots, loop_ids
MGR = 'crate::queue::Manager'
RUNNABLE = 'crate::queue::Runnable'
S = lambda n: ('sym', n)

def locate(e, v, x, path=()):
    """path of x inside the constructed value v, enum variants included"""
    if v == x: return path
    if v[0] == 'agg':
        a = e.adts.get(v[1]) if isinstance(v[1], str) else None
        en = bool(a) and len(a['variants']) > 1
        for i, y in enumerate(v[3]):
            r = locate(e, y, x, path + (('f', i, v[2] if en or v[1] in (OPT, RES) else None),))
            if r is not None: return r
    if v[0] == 'upd':
        for p, y in v[2]:
            r = locate(e, y, x, path + (p,))
            if r is not None: return r
    return None

def find(v, tag, out=None):
    out = [] if out is None else out
    if isinstance(v, tuple):
        if v and v[0] == tag:
            out.append(v); return out
        for y in v:
            if isinstance(y, tuple): find(y, tag, out)
    return out

def chanid(v): return v[1]

class Queue:
    """what the manager thread and the workers do, taken apart"""
    def __init__(self, ck):
        self.ck = ck; e = self.e = ck.e
        f = self.newf = ck.method(MGR, 'new')
        ps = ck.paths(f, args=[S('workers'), S('limit')])
        ck.ob('no panic', 'Manager::new', all(p.kind == 'ret' for p in ps), 'a path panics', f.get('span'))
        self.runs = []          # (path of new, thread event, paths of the manager thread)
        self.handle = None
        for p in ps:
            if p.kind != 'ret': continue
            th = [x for x in p.ev if x[0] == 'thread']
            v = p.st.snap(p.val)
            if not ck.ob('one manager thread', 'Manager::new', len(th) == 1, '%d threads are started' % len(th), f.get('span')): continue
            st = p.st.copy(); st.ev = ()
            self.runs.append((p, v, th[0], e.paths(e.call_value(st, th[0][2], []))))
        ck.need(self.runs, 'the queue manager\'s thread')
        self.addf = ck.method(MGR, 'add')
        self.adds = ck.paths(self.addf, args=[SELF, S('ip'), S('job')])
        # ---- the message that submits a job, and where its parts sit
        self.sched = self.rjob = self.rip = self.rtx = None
        for p in self.adds:
            for x in p.ev:
                if x[0] == 'send_chan' and contains(x[3], S('job')):
                    v = x[3]
                    self.sched = v[2] if v[0] == 'agg' else None
                    self.rjob, self.rip = locate(e, v, S('job')), locate(e, v, S('ip'))
                    t = find(v, 'tx')
                    self.rtx = locate(e, v, t[0]) if t else None
                    self.mgrtx = x[2]
        ck.need(self.rjob and self.rip and self.rtx, 'the message that submits a job, its address and its answer channel')
        self.loops = []
        for p, v, th, qs in self.runs: self.dissect(p, v, th, qs)
        ck.need(self.loops, 'the queue manager\'s loop')

    def dissect(self, p, v, th, qs):
        ck, e = self.ck, self.e
        tx = find(v, 'tx')
        t = locate(e, v, tx[0]) if tx else None
        # the manager's sending half is the one add() and drop() use
        g = ck.ob('jobs go to the manager thread', 'Manager', t is not None and len({x[1] for x in tx}) == 1 and at(SELF, t) == self.mgrtx, 'the channel jobs are sent on is not the one the manager was started with', self.newf.get('span'))
        if not g: return
        ch = tx[0][1]
        seen = set()
        for q in qs:
            for lid in loop_ids(q.ev):
                if lid in seen: continue
                L = e.loops[lid]
                if any(x[0] == 'recv' and x[1][:2] == ('rx', ch) for s in L.iters for x in s.ev):
                    if retry(L): continue
                    seen.add(lid); self.loops.append(Loop(self, L, ch, qs, p))
        if not seen: ck.need(None, 'the loop that receives what is sent to the queue manager')

def retry(L):
    """a loop that does nothing but receive again when nothing was received"""
    if list(phi_slots(L)) or not L.iters: return False
    for s in L.iters:
        ev = effects(s.ev)
        if not ev or any(x[0] != 'recv' or s.facts.ev(('received', x[2])) is not False for x in ev): return False
    return True

def registered(P, s, x):
    """where an iteration of a set-up loop keeps the thread x it starts: [(.., .., registry, name, record)]"""
    out = [y for y in s.ev if y[0] == 'map' and y[1] in ('insert', 'replace') and contains(y[4], x[1])]
    slots = list(phi_slots(P))
    for path, phi, init in slots:
        v = at_path(s, path)
        if v is None or v[0] != 'vpush' or v[1] != phi or init != ('vempty',) or not contains(v[2], x[1]): continue
        # a list: the name is the position, as counted along
        for p2, q, i in slots:
            if i == I(0) and at_path(s, p2) == add(q, 1) and s.facts.ev(ieq(vlen(phi), q)) is True and contains(x[2], q): out.append(('vec', 'push', phi, q, v[2])); break
    return out

class Loop:
    def __init__(self, Q, L, ch, qs, p):
        self.Q, self.L, self.ch, self.qs = Q, L, ch, qs
        ck, e = Q.ck, Q.e
        # ---- workers: what was started in set-up loops before this one
        self.workers = []       # (setup loop, iteration, thread event, key, record, tx)
        pre = []
        for q in qs:
            for lid in loop_ids(q.ev):
                if lid == L.id: break
                if lid not in pre: pre.append(lid)
        self.regs = None
        for lid in pre:
            P = e.loops[lid]
            for s in P.iters:
                for x in s.ev:
                    if x[0] != 'thread': continue
                    ins = registered(P, s, x)
                    self.workers.append((P, s, x, ins[0] if ins else None))
        # ---- the registry of workers as the loop sees it, and the changing parts of the state
        self.slots = [(path, phi, init) for path, phi, init in phi_slots(L)]
        self.iters = []
        for s in L.iters: self.iters.append(Iter(self, s, s.ev, False))
        # paths that leave or blow up inside the loop
        self.exits = []
        for q in qs:
            evs = list(q.ev)
            i = next((n for n, x in enumerate(evs) if x[0] == 'loop' and x[1] == L.id), None)
            if i is None: continue
            it = Iter(self, q.st, evs[i + 1:], True); it.path = q
            self.exits.append(it)
        self.roles()

    def roles(self):
        ck = self.Q.ck
        cand = {'wait': [], 'rot': [], 'idle': []}
        for path, phi, init in self.slots:
            for it in self.iters:
                v = at_path(it.st, path)
                if v is None or v == phi: continue
                if it.kind == 'sched':
                    if init == ('mempty',) or v[0] in ('minsert', 'mset', 'mremove'):
                        o = mapops(v, phi)
                        if o and it.ip in o: cand['wait'].append(((path, phi, init), contains(o[it.ip], it.job)))
                    n = seqnf(it, v)
                    if n and n[0] and n[0][0] == phi and it.ip in n[1]: cand['rot'].append(((path, phi, init), self.taken(path, phi)))
                if it.kind == 'name':
                    n = seqnf(it, v)
                    if n and n[0] and n[0][0] == phi and n[1] == [it.name]: cand['idle'].append(((path, phi, init), self.taken(path, phi)))
        # something else may be kept beside them: the waiting jobs hold the jobs, the others are taken from again
        for r, l in cand.items():
            setattr(self, r, next((x for x, sure in reversed(l) if sure), l[-1][0] if l else None))
        for r, what in ((self.wait, 'the waiting jobs by address'), (self.rot, 'the rotation of addresses'), (self.idle, 'the idle workers')):
            ck.need(r, what)
        # the worker registry is a map the loop only reads
        self.reg = None
        for P, s, x, ins in self.workers:
            if ins is None: continue
            for path, phi, init in phi_slots(P):
                v = at_path(s, path)
                if v is not None and v[0] in ('minsert', 'mset') and v[1] == phi and contains(v[3], x[1]):
                    self.reg = phi
            if ins[0] == 'vec': self.reg = ins[2]
        ck.need(self.reg, 'the registry of workers')
        self.list = any(ins is not None and ins[0] == 'vec' for P, s, x, ins in self.workers)
        self.feasible = [it for it in self.iters if not it.impossible()]
        self.leaving = [it for it in self.exits if not it.impossible()]

    def taken(self, path, phi):
        """some iteration takes from the front of this list"""
        for it in self.iters:
            v = at_path(it.st, path)
            n = seqnf(it, v) if v is not None and v != phi else None
            if v is not None and v != phi and (n is None or n[0] is None or n[0][1] > 0): return True
        return False

class Iter:
    """one abstract iteration of the manager's loop"""
    def __init__(self, loop, st, ev, leaving):
        self.loop, self.st, self.ev, self.leaving = loop, st, ev, leaving
        Q = loop.Q; f = self.f = st.facts
        rs = [x for x in ev if x[0] == 'recv' and x[1][:2] == ('rx', loop.ch)]
        self.recvs = rs
        self.kind = 'none'; self.msg = None
        if rs:
            m = self.msg = rs[0][2]
            if f.ev(('received', m)) is False: self.kind = 'closed'
            else:
                v = f.var.get(m)
                if v == Q.sched:
                    self.kind = 'sched'
                    self.ip, self.job, self.tx = at(m, Q.rip), at(m, Q.rjob), at(m, Q.rtx)
                else:
                    a = Q.e.adts.get(Q.e_msg()) if hasattr(Q, 'e_msg') else None
                    self.kind = 'other'; self.variant = v
                    w = Q.wmsg(v)
                    if w is not None: self.kind = 'name'; self.name = at(m, w)
        self.sends = [x for x in ev if x[0] == 'send_chan']
    def to(self, path): return at_path(self.st, path)
    # -------- the invariant at the loop head rules this iteration out
    def impossible(self):
        lo = self.loop; f = self.f
        W, R, I_, G = lo.wait[1], lo.rot[1], lo.idle[1], lo.reg
        pos = lambda t: f.ev(le(I(1), vlen(t))) is True
        zero = lambda t: f.ev(le(vlen(t), I(0))) is True
        waits = pos(W) or pos(R); empty = zero(W) or zero(R)
        for b, v in f.bools.items():
            if b[0] == 'has':
                if b[1] == W:
                    if v: waits = True
                    if not v and b[2][0] == 'fld' or not v and self.elem(b[2], R): 
                        if self.elem(b[2], R): return True
                if b[1] == G and not v:
                    if self.elem(b[2], I_) or (self.kind == 'name' and b[2] == self.name): return True
            if b[0] == 'eq' and v:
                for x, y in ((b[1], b[2]), (b[2], b[1])):
                    if self.elem(x, R) and f.ev(('has', W, y)) is False: return True
            if b[0] == 'delivered' and not v and self.wsend(b[1]): return True
            if b[0] == 'panicked' and v: return True
        # every worker's name is registered
        if any(f.ev(le(vlen(G), n)) is True for n in list(self.elems(I_)) + ([self.name] if self.kind == 'name' else [])) and self.loop.list: return True
        if waits and empty: return True
        if waits and pos(I_): return True
        for k in [b[2] for b, v in f.bools.items() if b[0] == 'has' and b[1] == W and v] + [x for x in self.elems(R)]:
            if f.ev(le(vlen(get(W, ('key', k))), I(0))) is True: return True
        return False
    def elem(self, t, base):
        return t[0] == 'elem' and t[1] == base
    def elems(self, base):
        out = set()
        for b in list(self.f.bools) + [x for k in self.f.le for x in k if x is not None]:
            for t in subterms(b):
                if isinstance(t, tuple) and t and t[0] == 'elem' and t[1] == base: out.add(t)
        return out
    def wsend(self, r):
        """the failed send was one to a worker, which lives until it is told to stop"""
        for n, x in enumerate(self.ev):
            if x[0] == 'send_failed':
                # the send before it
                y = next((z for z in reversed(self.ev[:n]) if z[0] == 'send_chan'), None)
                if y is not None and contains(y[2], self.loop.reg):
                    # trying to hand a job over fails when nobody waits for it at that moment
                    return y[1] != 'thread_try' or not bounded(self.loop)
        return False
    def canon(self, t):
        """one name for terms the facts make equal"""
        if self.kind == 'sched' and t != self.ip and self.f.ev(eq(t, self.ip)) is True: return self.ip
        return t

def bounded(lo):
    from .safety import bounded_channels
    return any(True for _ in bounded_channels(lo.Q.ck))

def seqnf(it, v):
    """((base, elements dropped in front) | None when nothing of it is left, [pushed at the back])"""
    if v[0] == 'vempty': return (None, [])
    if v[0] == 'vpush':
        n = seqnf(it, v[1])
        return None if n is None else (n[0], n[1] + [it.canon(v[2])])
    if v[0] == 'vtail':
        n = seqnf(it, v[1])
        if n is None: return None
        return tail(it, n)
    if v[0] in ('phi', 'mapval', 'fld', 'sym'):
        return rest(it, (v, 0), [])
    return None

def rest(it, b, pushed):
    if b is not None and it.f.ev(le(vlen(b[0]), I(b[1]))) is True: b = None
    return (b, pushed)

def tail(it, n):
    b, ps = n
    if b is None: return (None, ps[1:]) if ps else None
    return rest(it, (b[0], b[1] + 1), ps)

def bag(it, v):
    """(base, taken from the front, taken from the back, [added]) of the idle workers"""
    if v[0] == 'vempty': return (None, 0, 0, [])
    if v[0] == 'vpush':
        n = bag(it, v[1])
        return None if n is None else n[:3] + (n[3] + [it.canon(v[2])],)
    if v[0] in ('vtail', 'vinit'):
        n = bag(it, v[1])
        if n is None: return None
        b, i, j, ps = n
        here = b is not None and it.f.ev(le(vlen(b), I(i + j))) is not True
        if v[0] == 'vinit' and ps: return (b, i, j, ps[:-1])
        if v[0] == 'vtail' and ps and not here: return (b, i, j, ps[1:])
        return (b, i + 1, j, ps) if v[0] == 'vtail' else (b, i, j + 1, ps)
    if v[0] in ('phi', 'mapval', 'fld', 'sym'): return (v, 0, 0, [])
    return None

def idles(it):
    """(workers taken from the idle ones, [worker added]) in an iteration, or None if not understood"""
    B = it.loop.idle[1]
    n = bag(it, it.to(it.loop.idle[0]))
    if n is None: return None
    b, i, j, ps = n
    if b is None: return ((), ps) if it.f.ev(le(vlen(B), I(0))) is True else None
    if b != B or i + j > 1: return None
    if i: return ((get(B, ('at', I(0))),), ps)
    if j: return ((('elem', B, add(vlen(B), -1)),), ps)
    return ((), ps)

def head(it, n):
    b, ps = n
    if b is None: return ps[0] if ps else None
    return it.canon(get(b[0], ('at', I(b[1]))))

def isempty(it, n):
    """True / False / None"""
    b, ps = n
    if ps: return False
    if b is None: return True
    return False if it.f.ev(le(I(b[1] + 1), vlen(b[0]))) is True else None

def samekey(it, a, b): return it.canon(a) == it.canon(b)

def waiting_after(it, W, ops):
    """normal form of a change to the waiting jobs: {address: sequence or None}, no-ops left out"""
    out = {}
    for k, o in ops.items():
        k = it.canon(k)
        out[k] = None if o[0] == 'del' else seqnf(it, o[1])
        if o[0] != 'del' and out[k] is None: out[k] = ('?', o[1])
    for k in list(out):
        h = it.f.ev(('has', W, k))
        n = out[k]
        if n is None and h is False: del out[k]
        elif n is not None and h is True and n == rest(it, (get(W, ('key', k)), 0), []): del out[k]
    return out

def step(it, worker, enqueue):
    """what the invariant demands after an iteration: (waiting, rotation, job handed over) or None if unclear"""
    lo = it.loop; f = it.f
    W, R = lo.wait[1], lo.rot[1]
    wait = {}
    rot = rest(it, (R, 0), [])
    if enqueue:
        h = f.ev(('has', W, it.ip))
        if h is None: return None
        cur = rest(it, (get(W, ('key', it.ip)), 0), []) if h else (None, [])
        wait[it.ip] = (cur[0], cur[1] + [it.job])
        if not h: rot = (rot[0], rot[1] + [it.ip])
    job = None
    if worker:
        e = isempty(it, rot)
        if e is not False: return None
        ip = head(it, rot)
        if ip is None: return None
        q = wait.get(ip)
        if q is None: q = rest(it, (get(W, ('key', ip)), 0), [])
        if isempty(it, q) is None: 
            # an address in the rotation has a job waiting
            pass
        job = head(it, q)
        q2 = tail(it, q)
        e = isempty(it, q2)
        rot = tail(it, rot)
        if e is None: return None
        if e: wait[ip] = None
        else:
            wait[ip] = q2
            rot = (rot[0], rot[1] + [ip])
    for k in list(wait):
        h = f.ev(('has', W, k))
        if wait[k] is None and h is False: del wait[k]
    return wait, rot, job

def Queue_wmsg(self, v):
    """path of the worker's name in variant v of the manager's message, as the workers send it"""
    return self.wpaths.get(v)

def worker_runs(Q):
    """[(setup loop, iteration, thread event, registration, paths, loops)] of the workers"""
    e = Q.e; out = []
    for p, v, th, qs in Q.runs:
        seen = set()
        for q in qs:
            for lid in loop_ids(q.ev):
                L = e.loops[lid]
                for n, s in enumerate(L.iters):
                    for x in s.ev:
                        if x[0] == 'thread' and (lid, n) not in seen:
                            seen.add((lid, n))
                            st = s.copy(); st.ev = ()
                            rs = e.paths(e.call_value(st, x[2], []))
                            ins = registered(L, s, x)
                            out.append((L, s, x, ins, rs))
            for x in q.ev:
                if x[0] == 'thread': out.append((None, q.st, x, [y for y in q.ev if y[0] == 'map' and contains(y[4], x[1])], []))
    return out

def system(ck):
    c = ck.e.__dict__.setdefault('_queue', {})
    Q = Queue.__new__(Queue)
    Q.wpaths = {}; Q.wmsg = lambda v: Q.wpaths.get(v)
    # a first look at the workers tells what they send
    e = ck.e
    f = ck.method(MGR, 'new')
    for p in ck.paths(f, args=[S('workers'), S('limit')]):
        if p.kind != 'ret': continue
        v = p.st.snap(p.val); tx = find(v, 'tx')
        for x in p.ev:
            if x[0] != 'thread': continue
            st = p.st.copy(); st.ev = ()
            for q in e.paths(e.call_value(st, x[2], [])):
                for lid in loop_ids(q.ev):
                    for s in e.loops[lid].iters:
                        for y in s.ev:
                            if y[0] != 'thread': continue
                            ins = registered(e.loops[lid], s, y)
                            if not ins: continue
                            name = ins[0][3]
                            s2 = s.copy(); s2.ev = ()
                            for r in e.paths(e.call_value(s2, y[2], [])):
                                evs = list(r.ev)
                                for l2 in loop_ids(r.ev):
                                    for s3 in e.loops[l2].iters: evs += list(s3.ev)
                                for z in evs:
                                    if z[0] == 'send_chan' and tx and z[2][:2] == tx[0][:2] and z[3][0] == 'agg':
                                        w = locate(e, z[3], name)
                                        if w is not None: Q.wpaths[z[3][2]] = w
    Queue.__init__(Q, ck)
    return Q

def inst(it):
    lo = it.loop; f = it.f
    if it.kind == 'sched':
        h = f.ev(('has', lo.wait[1], it.ip))
        return 'submission, %s, %s' % ({True: 'address already waiting', False: 'new address', None: 'rejected'}[h], 'idle worker' if f.ev(le(I(1), vlen(lo.idle[1]))) is True else 'no idle worker')
    if it.kind == 'name': return 'worker asks for work, %s' % ('jobs waiting' if f.ev(le(I(1), vlen(lo.rot[1]))) is True else 'nothing waiting')
    return it.kind

def span(it):
    for x in reversed(it.ev):
        w = where(x)
        if w: return w
    return None

def answer(it):
    return [x for x in it.sends if it.kind == 'sched' and x[2] == it.tx]

def handed(it):
    """[(event, worker, job)] of the jobs given to workers in this iteration"""
    lo = it.loop
    out = []
    refused = {id(x) for x, y in zip(it.ev, it.ev[1:]) if x[0] == 'send_chan' and y[0] == 'send_failed' and y[1] == x[2]}
    for x in it.sends:
        if contains(x[2], lo.reg) and id(x) not in refused:
            k = [t for t in subterms(x[2]) if isinstance(t, tuple) and t and t[0] in ('mapval', 'elem') and t[1] == lo.reg]
            out.append((x, k[0][2] if k else None, x[3]))
    return out

def jobin(v): 
    return v[3][0] if v[0] == 'agg' and len(v[3]) == 1 else None

def rejected(it):
    a = answer(it)
    return any(x[3][0] == 'agg' and x[3][1] == RES and x[3][2] == 1 for x in a)

def changed(it):
    lo = it.loop
    return [w for w, r in (('the waiting jobs', lo.wait), ('the rotation', lo.rot), ('the idle workers', lo.idle)) if it.to(r[0]) != r[1]]

def invariant(ck, Q, rule):
    """the initial state and the fact that each worker is registered once under its own name"""
    for lo in Q.loops:
        g1 = lo.wait[2] == ('mempty',)
        ck.ob(rule, 'initially nothing waits', g1 and lo.rot[2] == ('vempty',), 'the manager starts with jobs or addresses of unknown origin', lo.L.span)
        ok = False
        i = lo.idle[2]
        for P, s, x, ins in lo.workers:
            if ins is None: continue
            k = ins[3]
            rng = [(path, phi, init) for path, phi, init in phi_slots(P) if k == phi]
            for path, phi, init in rng:
                up = at_path(s, path)
                n = S('workers')
                one = up == add(phi, 1) and init == I(0)
                full = s.facts.ev(lt(phi, n)) is True
                left = any(q.st.facts.ev(le(n, phi)) is True for q in lo.qs)
                if one and full and left and i == ('vrange', I(0), n): ok = True
            # or filled along with the registry
            for path, phi, init in phi_slots(P):
                if i == phi and init == ('vempty',) and at_path(s, path) == ('vpush', phi, k): ok = True
                # or the names the registry holds in the end, which the loop put there
                if init == ('mempty',) and (ins[2] is None or path == (ins[2][0],) + tuple(ins[2][1])) and i == ('vmap', ('len', phi), ('mkey', phi, ('sym', '$i'))): ok = True
        ck.ob(rule, 'initially every worker is idle', ok, 'the workers remembered as idle at the start are not exactly the workers started', lo.L.span)

# ---------------------------------------------------------------- C12
def c12(ck):
    Q = system(ck)
    invariant(ck, Q, 'nothing lost at the start')
    n = {'given': 0, 'kept': 0, 'idle': 0}
    for lo in Q.loops:
        ck.notes['iterations'] = len(lo.iters); ck.notes['feasible iterations'] = len(lo.feasible)
        for it in lo.leaving:
            if it.kind in ('sched', 'name'):
                ck.ob('the manager outlives its work', inst(it), False, 'the manager thread ends or panics while handling a job (%s)' % (it.path.info and it.path.info.get('msg')), pspan(it.path))
        for it in lo.feasible:
            w = inst(it); sp = span(it)
            ck.ob('one message at a time', w, len(it.recvs) == 1, 'an iteration takes %d messages, so one may be lost' % len(it.recvs), sp)
            hs = handed(it)
            js = [(x, k, jobin(v)) for x, k, v in hs]
            if it.kind == 'sched':
                if rejected(it): continue
                idle = it.f.ev(le(I(1), vlen(lo.idle[1])))
                if idle is None: ck.ob('idle workers considered', w, False, 'a job is accepted without looking whether a worker is idle', sp); continue
                exp = step(it, idle, True)
                idl = idles(it)
                who = (idl[0][0] if idl and idl[0] else ('?',)) if idle else None
                good = idl is not None and not idl[1] and len(idl[0]) == (1 if idle else 0)
            elif it.kind == 'name':
                has = it.f.ev(le(I(1), vlen(lo.rot[1])))
                if has is None: ck.ob('waiting jobs considered', w, False, 'a worker that asks for work is served without looking whether jobs wait', sp); continue
                exp = step(it, has, False)
                who = it.name if has else None
                good = idles(it) == ((), [] if has else [it.name])
            else:
                ck.ob('only work changes the queue', w, not changed(it) and not hs, '%s change without a job or a free worker' % ' and '.join(changed(it)), sp)
                continue
            if exp is None:
                ck.ob('job accounted for', w, False, 'an address is served without looking whether it has more jobs waiting', sp); continue
            wait, rot, job = exp
            if who is None:
                ck.ob('no worker gets a job that does not exist', w, not hs, 'a worker is given something although none is idle or nothing waits', sp)
                n['idle' if it.kind == 'name' else 'kept'] += 1
            else:
                n['given'] += 1
                ck.ob('one job to one worker', w, len(js) == 1 and js[0][2] is not None, '%d jobs are handed over' % len(js), sp)
                if len(js) == 1:
                    ck.ob('to the free worker', w, js[0][1] == who, 'the job goes to %s' % show(js[0][1]), sp)
                    ck.ob('a job that was waiting', w, js[0][2] == job, 'what is handed over is %s' % show(js[0][2]), sp)
            got = waiting_after(it, lo.wait[1], mapops(it.to(lo.wait[0]), lo.wait[1]) or {}) if mapops(it.to(lo.wait[0]), lo.wait[1]) is not None else None
            ck.ob('waiting jobs are exactly those accepted and not handed over', w, got == {k: v for k, v in wait.items()}, 'the waiting jobs become %s' % show(it.to(lo.wait[0]))[:300], sp)
            gr = seqnf(it, it.to(lo.rot[0]))
            ck.ob('every address with waiting jobs stays in rotation', w, gr is not None and gr[0] == rot[0] and sorted(map(repr, gr[1])) == sorted(map(repr, rot[1])), 'the rotation becomes %s' % show(it.to(lo.rot[0]))[:300], sp)
            ck.ob('a worker without a job is remembered as idle', w, good, 'the idle workers become %s' % show(it.to(lo.idle[0]))[:300], sp)
    ck.need(n['given'] and n['kept'] and n['idle'], 'iterations that hand over, keep and find no job')
    workers(ck, Q)

def workers(ck, Q):
    """a worker runs what it is given once and asks for more after it"""
    W = worker_runs(Q)
    ck.need(W, 'the worker threads')
    for L, s, x, ins, rs in W:
        sp = where(x)
        if not ck.ob('worker registered', 'worker', len(ins) == 1, 'a worker is started but not registered', sp): continue
        name, rec = ins[0][3], ins[0][4]
        tx = find(rec, 'tx')
        mch = [lo.ch for lo in Q.loops]
        if not ck.ob('worker reachable', 'worker', len(tx) == 1, 'the registered worker has no channel of its own', sp): continue
        # what the manager sends on is this worker's channel
        for lo in Q.loops:
            for it in lo.feasible:
                for ev, k, v in handed(it):
                    ck.ob('the registered worker\'s own channel', 'worker', ev[2] == at(('elem' if lo.list else 'mapval', lo.reg, k), locate(Q.e, rec, tx[0])), 'jobs are sent on %s' % show(ev[2]), where(ev))
        ls = []
        for r in rs:
            for lid in loop_ids(r.ev):
                if lid not in ls: ls.append(lid)
        ran = 0
        items = []
        for lid in ls:
            for s2 in Q.e.loops[lid].iters: items.append((s2.ev, s2.facts, None))
        for r in rs:
            evs = list(r.ev)
            k = max([n for n, y in enumerate(evs) if y[0] == 'loop'] or [-1])
            items.append((evs[k + 1:], r.st.facts, r))
        if not ck.ob('workers loop', 'worker', bool(ls), 'a worker ends after its first message', sp): continue
        for evs, f, r in items:
            rv = [y for y in evs if y[0] == 'recv']
            runs = [y for y in evs if y[0] == 'call' and y[1].split('::')[-1].split('#')[0] == 'run' or y[0] == 'call' and y[1] == RUNNABLE + '::run' or y[0] == 'run']
            asks = [y for y in evs if y[0] == 'send_chan' and y[2][:2] in [('tx', c) for c in mch]]
            if not rv:
                ck.ob('runs only what it is given', 'worker', not runs, 'a job is run that was not received', sp); continue
            m = rv[0][2]
            g = ck.ob('listens on its own channel', 'worker', rv[0][1][:2] == ('rx', tx[0][1]) and len(rv) == 1, 'it receives from %s' % show(rv[0][1]), where(rv[0]))
            if f.ev(('received', m)) is False:
                ck.ob('runs only what it is given', 'worker, channel closed', not runs and not asks, 'a job is run that was not received', sp); continue
            v = f.var.get(m)
            jobs = [(i, fl) for i, fl in jobvariants(Q)]
            if v in [i for i, _ in jobs]:
                ran += 1
                j = get(m, ('f', [fl for i, fl in jobs if i == v][0], v))
                ck.ob('runs a received job exactly once', 'worker', len(runs) == 1 and runarg(runs[0]) == j, 'a received job is run %d times' % len(runs), sp)
                if r is not None and r.kind == 'panic':
                    ck.ob('worker survives', 'worker', False, 'a worker panics (%s)' % r.info.get('msg'), pspan(r)); continue
                good = len(asks) == 1 and Q.wmsg(asks[0][3][2] if asks[0][3][0] == 'agg' else None) is not None and at(asks[0][3], Q.wmsg(asks[0][3][2])) == name
                ck.ob('asks for more work after every job', 'worker', good and bool(runs) and evs.index(asks[0]) > evs.index(runs[0]), 'after a job the manager is asked for work %d times' % len(asks), sp)
                if r is not None:
                    ck.ob('leaves only when the manager is gone', 'worker', any(y[0] == 'send_failed' for y in evs), 'a worker ends after a job although the manager still counts on it', pspan(r))
            else:
                ck.ob('runs only what it is given', 'worker, told to stop', not runs, 'a job is run that was not received', sp)
        ck.ob('workers run jobs', 'worker', ran > 0, 'no path of the worker runs a job', sp)

def runarg(y):
    a = y[2] if y[0] == 'call' else y[2:]
    return a[0] if a else None

def jobvariants(Q):
    """(variant, field) of the workers' messages that carry a job"""
    out = set()
    for lo in Q.loops:
        for it in lo.feasible:
            for ev, k, v in handed(it):
                if v[0] == 'agg':
                    for i, x in enumerate(v[3]): out.add((v[2], i))
    return sorted(out)

# ---------------------------------------------------------------- C13
def drained(ck, Q, rule='counted addresses have jobs'):
    for lo in Q.loops:
        W = lo.wait[1]
        # an address stops counting with its last job; every queue left in the table has a job
        for it in lo.feasible:
            ops = mapops(it.to(lo.wait[0]), W)
            if ops is None:
                ck.ob(rule, inst(it), False, 'the waiting jobs change beyond what the analysis follows', span(it)); continue
            for k, q in waiting_after(it, W, ops).items():
                if q is None:
                    # removed: only when its last job was handed over
                    e = step(it, bool(handed(it)), it.kind == 'sched') if it.kind in ('sched', 'name') else None
                    ck.ob('only drained addresses stop counting', inst(it), e is not None and k in e[0] and e[0][k] is None, 'address %s stops counting with jobs left' % show(k), span(it))
                else:
                    ck.ob(rule, inst(it), q[0] != '?' and isempty(it, q) is False, 'address %s keeps counting without a waiting job' % show(k), span(it))

def c13(ck):
    Q = system(ck)
    full = ck.errvar('QueueFull')
    invariant(ck, Q, 'counting starts at zero')
    n = [0, 0]
    for lo in Q.loops:
        W = lo.wait[1]
        lim = S('limit')
        for it in lo.feasible + lo.leaving:
            if it.kind != 'sched': continue
            sp = span(it); f = it.f
            a = answer(it)
            w = inst(it)
            g = ck.ob('the submitter gets one decision', w, len(a) == 1, 'the submitter gets %d answers' % len(a), sp)
            if not g: continue
            v = a[0][3]
            if rejected(it):
                n[0] += 1
                ck.ob('rejected as queue full', w, v[3][0][0] == 'agg' and v[3][0][1] == ERR and v[3][0][2] == full, 'the rejection reads %s' % show(v), sp)
                # the number of waiting addresses never exceeds the limit, so equality and excess are one; the rotation
                # holds every waiting address once (C12), so its length counts the same
                ck.ob('rejected only when full', w, any(f.ev(le(lim, vlen(x))) is True for x in (W, lo.rot[1])), 'a submission is rejected although fewer addresses wait than allowed', sp)
                ck.ob('a rejection changes nothing', w, not changed(it) and not handed(it), 'a rejection changes %s' % (' and '.join(changed(it)) or 'what the workers do'), sp)
            else:
                n[1] += 1
                ck.ob('accepted is answered so', w, v[0] == 'agg' and v[1] == RES and v[2] == 0, 'an accepted job is answered with %s' % show(v), sp)
                ck.ob('accepted only when not full', w, any(f.ev(ieq(vlen(x), lim)) is False or f.ev(lt(vlen(x), lim)) is True for x in (W, lo.rot[1])), 'a submission is accepted without comparing the number of waiting addresses with the limit', sp)
                ops = mapops(it.to(lo.wait[0]), W)
                ck.ob('accepted is queued', w, ops is not None and (it.ip in [it.canon(k) for k in ops] or any(jobin(x[2]) == it.job for x in handed(it))), 'a job is answered as accepted but not queued', sp)
    drained(ck, Q)
    ck.need(n[0] and n[1], 'accepted and rejected submissions')
    # the submitter's answer is what the manager decided
    f = Q.addf
    for p in Q.adds:
        if p.kind == 'panic':
            # the manager thread lives as long as the Manager does
            sf = [x for x in p.ev if x[0] == 'send_failed']
            ck.ob('no panic', 'Manager::add', bool(sf) and sf[-1][1] == Q.mgrtx, 'a submission panics', pspan(p)); continue
        v = p.st.snap(p.val)
        sent = [x for x in p.ev if x[0] == 'send_chan']
        g = ck.ob('submitted once', 'Manager::add', len(sent) == 1 and at(sent[0][3], Q.rjob) == S('job'), 'the job is sent %d times' % len(sent), f.get('span'))
        if not g: continue
        tx = at(sent[0][3], Q.rtx)
        aw = [x for x in p.ev if x[0] == 'await']
        dec = [x for x in aw if x[2][:2] == ('rx', tx[1]) or contains(x[2], ('rx', tx[1]) + tx[2:])]
        g = ck.ob('the decision is awaited', 'Manager::add', len(dec) == 1, 'the submission does not wait for the queue\'s decision', f.get('span'))
        if not g: continue
        r = dec[0][3]
        if p.st.facts.var.get(r) == 0:
            inner = get(r, ('f', 0, 0))
            iv = p.st.facts.var.get(inner)
            same = v == inner or (iv == 0 and v[0] == 'agg' and v[2] == 0) or (iv == 1 and v[0] == 'agg' and v[1] == RES and v[2] == 1 and v[3][0] == get(inner, ('f', 0, 1)))
            ck.ob('the submitter gets the queue\'s decision', 'Manager::add', same, 'the answer is %s' % show(v), f.get('span'))
        else:
            ck.ob('no decision is not acceptance', 'Manager::add', v[0] == 'agg' and v[1] == RES and v[2] == 1, 'the answer is %s' % show(v), f.get('span'))
    # the limit configured is the limit used, and verify_pow names the client's address
    b = ck.method('crate::system::SystemBuilder', 'build')
    ql = ck.field('crate::system::SystemBuilder', 'queue_length')
    m = 0
    for p in ck.paths(b):
        if p.kind != 'ret': continue
        for x in ck.unroll(p.ev):
            if x[0] != 'thread': continue
            for q, w, th, qs in Q.runs:
                t = locate(ck.e, th[2], S('limit'))
                if t is not None and at(x[2], t) == get(get(SELF, ('f', ql, None)), ('f', 0, 1)): m += 1
    g = ck.method('crate::system::SystemBuilder', 'queue_length', optional=True)
    if g:
        for p in ck.paths(g, args=[SELF, S('n')]):
            st = p.st.snap(p.val) if p.kind == 'ret' else None
            if st is not None and st[0] == 'ref': st = selfval(p.st)
            ck.ob('the configured limit', 'SystemBuilder::queue_length', st is not None and get(st, ('f', ql, None)) == some(S('n')), 'the queue length set becomes %s' % (show(get(st, ('f', ql, None))) if st is not None else 'a panic'), g.get('span'))
    ck.ob('the configured limit', 'SystemBuilder::build', m > 0, 'the queue is not built with the configured queue length', b.get('span'))

# ---------------------------------------------------------------- C14
def c14(ck):
    Q = system(ck)
    n = 0
    invariant(ck, Q, 'a fair start')
    for lo in Q.loops:
        for it in lo.feasible:
            w = inst(it); sp = span(it)
            if it.kind == 'sched' and rejected(it): continue
            if it.kind not in ('sched', 'name'): continue
            free = it.f.ev(le(I(1), vlen((lo.idle if it.kind == 'sched' else lo.rot)[1])))
            exp = step(it, bool(free), it.kind == 'sched') if free is not None else None
            if exp is None:
                ck.ob('order decidable', w, False, 'an address is served without looking whether it has more jobs waiting', sp); continue
            wait, rot, job = exp
            ops = mapops(it.to(lo.wait[0]), lo.wait[1])
            got = waiting_after(it, lo.wait[1], ops) if ops is not None else None
            n += 1
            ck.ob('jobs of one address wait in order', w, got is not None and all(got.get(k) == v for k, v in wait.items()) and set(got) == set(wait), 'the waiting jobs become %s' % show(it.to(lo.wait[0]))[:300], sp)
            gr = seqnf(it, it.to(lo.rot[0]))
            ck.ob('round-robin among addresses', w, gr == rot, 'the rotation becomes %s instead of front to back' % show(it.to(lo.rot[0]))[:300], sp)
            hs = handed(it)
            if free:
                ck.ob('the first job of the first address is next', w, len(hs) == 1 and jobin(hs[0][2]) == job, 'the job handed over is %s' % (show(hs[0][2]) if hs else 'none'), sp)
                idl = idles(it)
                who = it.name if it.kind == 'name' else idl[0][0] if idl and idl[0] else ('?',)
                gone = idl is not None and who not in idl[1] and (it.kind == 'name' or len(idl[0]) == 1)
                ck.ob('one job per worker at a time', w, len(hs) == 1 and hs[0][1] == who and gone, 'a worker that was given a job still counts as idle, or a busy one is given a job', sp)
            else:
                ck.ob('one job per worker at a time', w, not hs, 'a worker that is not free is given a job', sp)
    ck.need(n >= 4, 'iterations that accept or hand over jobs')
    for L, s, x, ins, rs in worker_runs(Q):
        for r in rs:
            for lid in loop_ids(r.ev):
                for s2 in Q.e.loops[lid].iters:
                    asks = [y for y in s2.ev if y[0] == 'send_chan' and y[2][:2] in [('tx', lo.ch) for lo in Q.loops]]
                    runs = [y for y in s2.ev if y[0] in ('call', 'run') and (y[0] == 'run' or y[1].split('::')[-1] == 'run')]
                    ck.ob('a worker asks only when free', 'worker', len(asks) == len(runs) <= 1, 'a worker asks for work %d times for %d jobs' % (len(asks), len(runs)), where(x))
    # the address jobs wait under is the client's
    f, ps = None, []
    from .system import verify_paths
    f, ps = verify_paths(ck)
    m = 0
    for p, s in ps:
        for ev, j in s.handed:
            m += 1
            ip = at(ev[3], Q.rip)
            ck.ob('queued under the client\'s address', 'verify_pow', ip == S('ip'), 'the job waits under %s' % show(ip), where(ev))
    ck.need(m, 'the submission that queues a job')

# ---------------------------------------------------------------- C15
def c15(ck):
    Q = system(ck)
    e = ck.e
    spawned = 0
    # every thread started is kept in a place that is joined
    for p, v, th, qs in Q.runs:
        spawned += 1
        hp = locate(e, v, th[1])
        ck.ob('the manager thread is kept', 'Manager::new', hp is not None, 'the handle of the manager thread is dropped', Q.newf.get('span'))
        if hp is None: continue
        # dropping the Manager tells the thread to stop and joins it
        df = ck.tmethod(MGR, 'core::ops::drop::Drop', 'drop')
        stopv = None; nret = 0
        for d in ck.paths(df):
            ss = [x for x in d.ev if x[0] == 'send_chan']; js = [x for x in d.ev if x[0] == 'join']
            if d.kind == 'panic':
                # only when the thread is already gone, or its handle was taken before
                opt = d.st.facts.var.get(at(SELF, hp[:-1]))
                ok = any(x[0] == 'send_failed' and x[1] == Q.mgrtx for x in d.ev) or (hp[-1] == ('f', 0, 1) and opt == 0) or (js and js[-1][1] == at(SELF, hp)) 
                ck.ob('dropping the queue does not fail', 'Manager::drop', ok, 'dropping the queue panics: %s' % d.info.get('msg'), pspan(d)); continue
            opt = d.st.facts.var.get(at(SELF, hp[:-1])) if hp[-1] == ('f', 0, 1) else 1
            if opt == 0: continue   # the handle is present until the drop
            nret += 1
            ck.ob('the manager is told to stop', 'Manager::drop', len(ss) == 1 and ss[0][2] == Q.mgrtx, 'the manager thread is not told to stop', df.get('span'))
            ck.ob('the manager is joined', 'Manager::drop', len(js) == 1 and js[0][1] == at(SELF, hp), 'the manager thread is not joined', df.get('span'))
            if ss and js: ck.ob('told before joined', 'Manager::drop', d.ev.index(ss[0]) < d.ev.index(js[0]), 'the manager is joined before it is told to stop', df.get('span'))
            if ss and ss[0][3][0] == 'agg': stopv = ss[0][3][2]
        ck.need(nret, 'a path of Manager::drop')
        # nothing takes the handle or stops the thread earlier
        for lo in Q.loops:
            n = 0
            for it in lo.leaving:
                if it.kind == 'other' and it.variant == stopv and it.path.kind == 'ret':
                    n += 1; stopping(ck, Q, lo, it)
                elif it.kind == 'other' and it.variant == stopv:
                    joins_failed(ck, Q, lo, it)
            for it in lo.feasible:
                if it.kind == 'other': ck.ob('leaves its loop when told to stop', 'manager thread', it.variant != stopv, 'the manager thread goes on after it was told to stop', span(it))
            ck.ob('leaves its loop when told to stop', 'manager thread, some path', n > 0, 'no path of the manager thread ends on the stop message', lo.L.span)
    for L, s, x, ins, rs in worker_runs(Q):
        spawned += 1
        ck.ob('worker thread kept', 'worker', len(ins) == 1, 'the handle of a worker thread is dropped', where(x))
        jv = [i for i, _ in jobvariants(Q)]
        n = 0
        for r in rs:
            for lid in loop_ids(r.ev):
                for s2 in e.loops[lid].iters:
                    rv = [y for y in s2.ev if y[0] == 'recv']
                    if rv and s2.facts.ev(('received', rv[0][2])) is not False:
                        ck.ob('a worker leaves its loop when told to stop', 'worker', s2.facts.var.get(rv[0][2]) in jv, 'a worker goes on after the stop message', where(rv[0]))
                    ck.ob('a worker always comes back for messages', 'worker', len(rv) >= 1, 'a worker can loop without looking at its messages', where(x))
            if r.kind == 'ret': n += 1
        ck.ob('a worker leaves its loop when told to stop', 'worker, some path', n > 0, 'no path of a worker ends', where(x))
    # no other thread is started anywhere in the library
    known = {where(th) for p, v, th, qs in Q.runs} | {where(w[2]) for w in worker_runs(Q)}
    k = 0
    for key, b in e.bodies.items():
        for blk in b['blocks']:
            t = blk[1]
            if t.get('k') != 'call': continue
            fn = callee(t)
            if fn and any(fn.startswith(y) for y in SPAWNS):
                k += 1
                ck.ob('no detached thread', 'thread started in ' + key, (t.get('s') or blk.get('s')) in known or spanof(t) in known, 'a thread is started that nobody joins', spanof(t))
    ck.need(k >= 1, 'call sites that start threads')
    # dropping the system drops its queue
    a = ck.need([i for i in e.F['items'] if i['path'] == 'crate::system::System'], 'System')[0]
    ck.ob('the system owns its queue', 'System', any(x['ty'] == MGR for x in a['fields']), 'no field of the system owns its queue: %s' % [x['ty'] for x in a['fields']], a.get('span'))
    for f in e.fns:
        im = f.get('impl') or {}
        if im.get('self_adt') == 'crate::system::System' and im.get('trait') == 'core::ops::drop::Drop':
            for p in ck.paths(f): ck.ob('the system drops its queue', 'System::drop', not [x for x in p.ev if x[0] == 'forget'], 'the system forgets its queue', f.get('span'))

SPAWNS = ('std::thread::spawn', 'std::thread::functions::spawn', 'std::thread::builder::Builder::spawn', 'std::thread::Builder::spawn', 'std::thread::spawnhook', 'tokio::task::blocking::spawn_blocking', 'tokio::task::spawn_blocking', 'actix_rt::task::spawn_blocking',
          'actix_rt::arbiter::Arbiter::new', 'actix::Arbiter::new')

def callee(t):
    f = t.get('f')
    if isinstance(f, list) and f and f[0] == 'k' and isinstance(f[1], dict) and f[1].get('fn'): return f[1]['fn'].get('path')
    return None

def spanof(t): return t.get('s') or t.get('span')

def keyed(reg, k): return ('mapval', reg, k)

def overall(L):
    """(phi, init) of the positions a loop over a map or sequence runs through"""
    out = []
    for path, q, init in phi_slots(L):
        if L.iters and init == I(0) and all(at_path(s, path) == add(q, 1) for s in L.iters): out.append(q)
    return out

def passes(e, L):
    """(position, iterations) of the ways a loop runs through a map or sequence: by itself, or by searching on from
    where it stopped, as a filtered iterator does; the iterations then are those of the loop and of the search"""
    out = [(q, list(L.iters)) for q in overall(L)]
    for path, q, init in phi_slots(L):
        if init != I(0) or not L.iters: continue
        found = None; skips = []
        for s in L.iters:
            v = at_path(s, path)
            hit = None
            for x in s.ev:
                if x[0] != 'loop': continue
                K = e.loops[x[1]]
                for _, p, i in phi_slots(K):
                    if v == add(p, 1) and i == q and p in overall_from(K, q): hit = (p, K)
            if hit is None or found not in (None, hit[0]): found = None; break
            found = hit[0]; skips = list(hit[1].iters)
        if found is not None: out.append((found, list(L.iters) + skips))
    return out

def overall_from(L, start):
    return [q for path, q, init in phi_slots(L) if init == start and all(at_path(s, path) == add(q, 1) for s in L.iters)]

def told(ck, Q, lo, it):
    """positions of the loops in which every worker is told to stop: [(index in events, loop)]"""
    e = ck.e; out = []
    evs = it.ev
    for n, x in enumerate(evs):
        if x[0] != 'loop': continue
        L = e.loops[x[1]]
        for q, its in passes(e, L):
            if it.path.st.facts.ev(le(vlen(lo.reg), q)) is not True: continue
            out.append((n, its, q))
    return out

def stopping(ck, Q, lo, it):
    e = ck.e; sp = pspan(it.path)
    recs = [(ins[4], x) for P, s, x, ins in lo.workers if ins is not None]
    rec, th = recs[0][0], recs[0][1]
    tp = locate(e, rec, find(rec, 'tx')[0]); hp = locate(e, rec, th[1])
    sent = joined = None
    jv = [i for i, _ in jobvariants(Q)]
    for n, its, q in told(ck, Q, lo, it):
        k = q if lo.list else ('mkey', lo.reg, q)
        sends = []; joins = []; ok_s = ok_j = True
        for s in its:
            ss = [(i, x) for i, x in enumerate(s.ev) if x[0] == 'send_chan' and covers(x[2], k, tp)]
            js = [(i, x) for i, x in enumerate(s.ev) if x[0] == 'join' and covers(x[1], k, hp)]
            if not (len(ss) == 1 and ss[0][1][3][0] == 'agg' and ss[0][1][3][2] not in jv): ok_s = False
            # a worker whose handle was already taken has been joined
            none = any(v == 0 and covers(t, k, hp[:-1]) for t, v in s.facts.var.items()) if hp[-1] == ('f', 0, 1) else False
            if not js and not none: ok_j = False
            if js: joins.append(js[0][0])
            if ss and js and ss[0][0] > js[0][0]: ok_j = False
        if not joins: ok_j = False
        if ok_s and sent is None: sent = n
        if ok_j and joined is None: joined = n
    ck.ob('every worker is told to stop', 'manager thread', sent is not None, 'not every worker is told to stop', sp)
    ck.ob('every worker is joined', 'manager thread', joined is not None, 'not every worker is joined', sp)
    if sent is not None and joined is not None:
        ck.ob('told before joined', 'manager thread', sent <= joined, 'a worker is joined before it is told to stop', sp)

def covers(t, k, path):
    """t is the component path of the registry entry under key k"""
    if not path: 
        return t[0] in ('mapval', 'elem') and t[2] == k
    x = t
    for p in reversed(path):
        if x[0] != 'fld' or x[3] != p[1]: return False
        x = x[1]
    return x[0] in ('mapval', 'elem') and x[2] == k

def joins_failed(ck, Q, lo, it):
    """a panicking way out of the shutdown needs a worker that panicked or is gone already"""
    f = it.path.st.facts
    ok = any(b[0] in ('panicked',) and v or b[0] == 'delivered' and not v for b, v in f.bools.items())
    ck.ob('shutdown completes', 'manager thread', ok, 'the manager thread panics during shutdown: %s' % it.path.info.get('msg'), pspan(it.path))

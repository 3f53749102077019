"""The in-memory site registry: C20 (names), C21 (who is retired), C22 (clean-up recurs), C23 (export and import)."""
from ..core import *
from ..loops import phi_slots, loop_ids
from .queue import locate, passes
from . import counter as cnt
S = lambda n: ('sym', n)
MSG, CTX = S('msg'), S('ctx')
GETSITE, CLEANUP = EMB + 'GetSite', EMB + 'CleanUp'
COUNT = CNT + 'GetCurrentVisitorCount'
STOP = CNT + 'Stop'
F0 = lambda v, i: get(v, ('f', 0, i))

class Reg:
    """where the registry keeps its sites, and what an entry holds, read off AddSite and GetSite"""
    def __init__(self, ck):
        self.ck = ck; e = ck.e
        self.addf = ck.handler(MASTER, M + 'AddSite')
        self.sites = self.addr = self.flag = None
        self.id = ck.fld(MSG, M + 'AddSite', 'id'); self.cfg = ck.fld(MSG, M + 'AddSite', 'mcaptcha')
        self.unset = self.fresh = None
        for p in ck.hpaths(self.addf):
            st = [x for x in p.ev if x[0] == 'start']
            for path, v in diffs(selfval(p.st), SELF):
                ops = mapops(v, at(SELF, path))
                if ops and self.id in ops and ops[self.id][0] == 'set' and st:
                    a = locate(e, ops[self.id][1], st[0][1])
                    if a is not None:
                        self.sites, self.addr = path, a
                        if self.fresh is None or p.st.facts.ev(('has', at(SELF, path), self.id)) is False: self.fresh = ops[self.id][1]
        ck.need(self.sites is not None, 'the table of sites as AddSite fills it')
        self.T = at(SELF, self.sites)
        # the mark a lookup leaves
        for p in ck.hpaths(ck.handler(MASTER, GETSITE)):
            k = F0(MSG, None)
            for path, v in diffs(selfval(p.st), SELF):
                if path != self.sites: continue
                ops = mapops(v, self.T)
                if not ops: continue
                for kk, o in ops.items():
                    if o[0] != 'set': continue
                    for dp, dv in diffs(o[1], get(self.T, ('key', kk))):
                        if dp != self.addr: self.flag = dp; self.set = dv
        if self.flag is not None: self.unset = at(self.fresh, self.flag)

    def entry(self, T, k): return get(T, ('key', k))
    def addrof(self, T, k): return at(self.entry(T, k), self.addr)
    def ops(self, p, T=None, base=SELF):
        T = T or self.T
        return mapops(at(selfval(p.st, base), self.sites), T)
    def net(self, p, T=None, base=SELF):
        """{key: entry or None}: how the table changed, marks of lookups aside; None if not understood"""
        T = T or self.T
        o = self.ops(p, T, base)
        if o is None: return None
        f = p.st.facts; out = {}
        for k, x in o.items():
            k = next((j for j in out if f.ev(eq(j, k)) is True), k)
            if x[0] == 'del':
                if f.ev(('has', T, k)) is False: out.pop(k, None)
                else: out[k] = None
            else:
                old = self.entry(T, k)
                d = [y for y, _ in diffs(x[1], old)] if f.ev(('has', T, k)) is not False else None
                if d is not None and all(y == self.flag for y in d): out.pop(k, None)
                else: out[k] = x[1]
        return out
    def marked(self, p, T=None):
        """{key: mark} where a mark was written to an entry that stays"""
        T = T or self.T
        o = self.ops(p, T); out = {}
        for k, x in (o or {}).items():
            if x[0] == 'set':
                d = dict(diffs(x[1], self.entry(T, k)))
                if set(d) == {self.flag}: out[k] = d[self.flag]
        return out

def runs(ck, p, actor=MASTER):
    """[(future path or None, how)] a handler path may go on as"""
    out = []
    for sp, fps in ck.futures(p):
        for q in fpaths(ck, actor, sp, fps): out.append((q, sp))
    return out

def mt(f): return f['impl']['trait_args'][1].split('::')[-1]

def sendsof(ck, p):
    """every message a handler path and what it starts send"""
    out = [x for x in ck.unroll(p.ev) if x[0] == 'send']
    for x, q, df in background(ck, p, MASTER):
        out += [y for y in ck.unroll(q.ev) if y[0] == 'send']
    return out

def lookup(r, p, k):
    """True/False: whether the named site is registered, as the path found out"""
    return p.st.facts.ev(('has', r.T, k))


# ---------------------------------------------------------------- C20
def c20(ck):
    r = Reg(ck)
    # a new registry is empty
    f = ck.method(MASTER, 'new')
    for p in ck.paths(f):
        ck.ob('starts empty', 'Master::new', p.kind == 'ret' and at(p.st.snap(p.val), r.sites) == ('mempty',), 'a new registry has sites', f.get('span'))
    # adding
    f = r.addf; n = 0
    for p in ck.hpaths(f):
        if not ck.ob('no panic', 'AddSite', p.kind == 'ret' or allowed(p), 'a path panics', pspan(p)) or p.kind != 'ret': continue
        n += 1
        st = [x for x in ck.unroll(p.ev) if x[0] == 'start']
        g = ck.ob('starts one counter', 'AddSite', len(st) == 1, '%d counters are started' % len(st), pspan(p))
        if not g: continue
        ck.ob('from exactly the given configuration', 'AddSite', isconfig(ck, st[0][2], r.cfg), 'the counter starts from %s' % show(st[0][2])[:200], where(st[0]))
        net = r.net(p)
        ck.ob('found under that name and no other', 'AddSite', net is not None and set(net) == {r.id} and net[r.id] is not None and at(net[r.id], r.addr) == st[0][1], 'the table becomes %s' % show(at(selfval(p.st), r.sites))[:200], f.get('span'))
        ck.ob('reaches no other counter', 'AddSite', not sendsof(ck, p), 'a message is sent to a counter', f.get('span'))
    ck.need(n, 'a path of AddSite')
    # visiting and looking up
    k0 = F0(MSG, None)
    for msg, how in ((M + 'AddVisitor', 'visit'), (GETSITE, 'lookup')):
        f = ck.handler(MASTER, msg); seen = set()
        for p in ck.hpaths(f):
            w = mt(f); sp = f.get('span')
            if not ck.ob('no panic', w, p.kind == 'ret' or allowed(p), 'a path panics', pspan(p)) or p.kind != 'ret': continue
            h = lookup(r, p, k0); seen.add(h)
            if not ck.ob('looked up under the given name', w, h is not None, 'the request is answered without looking the name up', sp): continue
            net = r.net(p)
            ck.ob('changes no entry', w, net == {} and set(r.marked(p)) <= {k0}, 'the table becomes %s' % show(at(selfval(p.st), r.sites))[:200], sp)
            ss = sendsof(ck, p)
            if not h:
                ck.ob('an unknown site is reported absent', w, not ss and all(none_answer(v) for v in answers(ck, p)), 'an unknown site is answered with %s' % [show(v) for v in answers(ck, p)], sp)
                continue
            A = r.addrof(r.T, k0)
            ck.ob('reaches only the named site\'s counter', w, all(x[2] == A for x in ss), 'a message goes to %s' % [show(x[2]) for x in ss if x[2] != A], sp)
            if how == 'lookup':
                ck.ob('answers with the named site\'s counter', w, all(some_of(v, A) for v in answers(ck, p)) and bool(answers(ck, p)), 'the answer is %s' % [show(v) for v in answers(ck, p)], sp)
            else:
                qs = runs(ck, p)
                if not ck.ob('the visit is passed on', w, bool(qs), 'a visitor of a known site is not passed on', sp): continue
                for q, _ in qs:
                    vs = [x for x in list(ck.unroll(p.ev)) + list(ck.unroll(q.ev)) if x[0] == 'send']
                    ck.ob('counted once', w, len(vs) == 1 and vs[0][6] == CNT + 'AddVisitor', 'the counter is sent %s' % [x[6] for x in vs], sp)
                    aw = [x for x in q.ev if x[0] == 'await' and x[1] == 'send']
                    rs = [x[3] for x in q.ev if x[0] == 'send_chan']
                    if vs and aw and rs:
                        res = aw[0][3]
                        v = q.st.snap(rs[0])
                        if q.st.facts.var.get(res) == 0:
                            ck.ob('answered with what the counter said', w, v[0] == 'agg' and v[1] == RES and v[2] == 0 and some_of(v[3][0], F0(res, 0)), 'the answer is %s' % show(v), sp)
                        else:
                            ck.ob('a counter that is gone is no success', w, v[0] == 'agg' and v[1] == RES and v[2] == 1, 'the answer is %s' % show(v), sp)
        ck.ob('known and unknown sites', mt(f), seen >= {True, False}, 'the request does not distinguish known from unknown sites', f.get('span'))
    # renaming
    f = ck.handler(MASTER, M + 'Rename'); seen = set()
    old, new = ck.fld(MSG, M + 'Rename', 'name'), ck.fld(MSG, M + 'Rename', 'rename_to')
    for p in ck.hpaths(f):
        sp = f.get('span')
        if not ck.ob('no panic', 'Rename', p.kind == 'ret' or allowed(p), 'a path panics', pspan(p)) or p.kind != 'ret': continue
        h = lookup(r, p, old); seen.add(h)
        net = r.net(p); w = 'Rename'
        ck.ob('renaming reaches no counter', w, not sendsof(ck, p) and not [x for x in ck.unroll(p.ev) if x[0] in ('start', 'stop')], 'a counter is messaged, started or stopped', sp)
        if not ck.ob('looked up under the old name', w, h is not None and net is not None, 'the old name is not looked up', sp): continue
        if not h:
            ck.ob('an unknown site is left unknown', w, net == {}, 'renaming an unknown site changes %s' % list(map(show, net)), sp); continue
        A = r.addrof(r.T, old)
        if p.st.facts.ev(eq(old, new)) is True:
            e = {k: v for k, v in net.items()}
            ck.ob('the same counter under the new name', w, all(v is not None and at(v, r.addr) == A for v in e.values()), 'the table becomes %s' % show(at(selfval(p.st), r.sites))[:200], sp)
        else:
            ck.ob('the same counter under the new name', w, net.get(new) is not None and at(net[new], r.addr) == A, 'under the new name the table has %s' % (show(net[new]) if net.get(new) else 'nothing'), sp)
            ck.ob('the old name is gone', w, old in net and net[old] is None and set(net) == {old, new}, 'the table becomes %s' % show(at(selfval(p.st), r.sites))[:200], sp)
    ck.ob('known and unknown sites', 'Rename', seen >= {True, False}, 'renaming does not distinguish known from unknown sites', f.get('span'))
    # removing
    f = ck.handler(MASTER, M + 'RemoveCaptcha'); seen = set()
    for p in ck.hpaths(f):
        w = 'RemoveCaptcha'; sp = f.get('span')
        if not ck.ob('no panic', w, p.kind == 'ret' or allowed(p), 'a path panics', pspan(p)) or p.kind != 'ret': continue
        h = lookup(r, p, k0); seen.add(h); net = r.net(p)
        if not ck.ob('looked up under the given name', w, h is not None and net is not None, 'the name is not looked up', sp): continue
        if not h:
            ck.ob('an unknown site is left unknown', w, net == {} and not sendsof(ck, p), 'removing an unknown site has an effect', sp); continue
        ck.ob('exactly that name is deleted', w, net == {k0: None}, 'the table becomes %s' % show(at(selfval(p.st), r.sites))[:200], sp)
        A = r.addrof(r.T, k0)
        direct = [x for x in ck.unroll(p.ev) if x[0] == 'send']
        qs = runs(ck, p) or [(None, None)]
        for q, _ in qs:
            ss = direct + ([x for x in ck.unroll(q.ev) if x[0] == 'send'] if q else [])
            ck.ob('its counter is stopped', w, [x[6] for x in ss] == [STOP] and ss[0][2] == A, 'the messages sent are %s' % [(x[6].split('::')[-1], show(x[2])) for x in ss], sp)
    ck.ob('known and unknown sites', 'RemoveCaptcha', seen >= {True, False}, 'removing does not distinguish known from unknown sites', f.get('span'))
    f = ck.handler(COUNTER, STOP)
    for p in ck.hpaths(f):
        ck.ob('a stopped counter stops', 'Counter Stop', p.kind == 'ret' and any(x[0] == 'stop' and x[1] == CTX for x in p.ev), 'a counter told to stop goes on', f.get('span'))
    # nothing else changes the table
    for f in ck.handlers(MASTER) + [x for x in ck.e.fns if (x.get('impl') or {}).get('self_adt') == MASTER and (x['impl'].get('trait') or '') == ACTOR and x['name'] in ('started', 'stopping', 'stopped')]:
        w = mt(f) if f['name'] == 'handle' else f['name']
        if f['name'] == 'handle' and f['impl']['trait_args'][1] in (M + 'AddSite', M + 'Rename', M + 'RemoveCaptcha', M + 'SetInternalData', M + 'AddVisitor', GETSITE): continue
        for p in (ck.hpaths(f) if f['name'] == 'handle' else ck.paths(f, args=[SELF, CTX])):
            if p.kind != 'ret': continue
            v = at(selfval(p.st), r.sites)
            ck.ob('nothing else changes the table', w, v == r.T, 'the table becomes %s' % show(v)[:200], f.get('span'))
    # nor does what is set off
    for w, f, p in everything(ck):
        bad = None
        for x, q, df in background(ck, p, MASTER):
            if at(selfval(q.st, LATER), r.sites) != at(LATER, r.sites) and r.net(q, at(LATER, r.sites), LATER) != {}: bad = x
        ck.ob('nothing changes the table later', w, bad is None, 'something is set off that changes the table of sites', where(bad) if bad else f.get('span'))

def everything(ck):
    """(name, function, path) of all the registry runs by itself"""
    fs = ck.handlers(MASTER) + [x for x in ck.e.fns if (x.get('impl') or {}).get('self_adt') == MASTER and (x['impl'].get('trait') or '') == ACTOR and x['name'] in ('started', 'stopping', 'stopped')]
    for f in fs:
        h = f['name'] == 'handle'
        for p in (ck.hpaths(f) if h else ck.paths(f, args=[SELF, CTX])):
            if p.kind == 'ret': yield mt(f) if h else f['name'], f, p

def allowed(p):
    """sending on a channel whose receiving half is held by this very path cannot fail"""
    return False

def isconfig(ck, v, cfg):
    """a counter made of exactly this site configuration"""
    if v == cfg: return True
    p = locate(ck.e, v, cfg)
    if p is None: return False
    rest = [x for x in leaves(v) if x != cfg]
    return all(x[0] in ('int', 'bool', 'str', 'mempty', 'vempty') or x[0] == 'agg' for x in rest)

def leaves(v):
    if v[0] == 'agg' and v[3]:
        for x in v[3]: yield from leaves(x)
    else: yield v

def answers(ck, p):
    k, v = reply_of(p)
    if k == 'now': return [v]
    return [q.st.snap(ev[3]) for w, ev, q in replies(ck, p)]

def none_answer(v):
    if v[0] == 'agg' and v[1] == RES and v[2] == 0: v = v[3][0]
    return v[0] == 'agg' and v[1] == OPT and v[2] == 0

def some_of(v, x): return v[0] == 'agg' and v[1] == OPT and v[2] == 1 and v[3][0] == x

# ---------------------------------------------------------------- C21 / C22: the clean-up
class Sweep:
    """one way a clean-up may go: the handler path and its future"""
    def __init__(self, ck, p, q, sp): self.ck, self.p, self.q, self.sp = ck, p, q, sp
    @property
    def ev(self): return list(self.p.ev) + (list(self.q.ev) if self.q else [])
    @property
    def facts(self): return self.q.st.facts if self.q else self.p.st.facts

def sweeps(ck):
    f = ck.handler(MASTER, CLEANUP)
    out = []
    for p in ck.hpaths(f):
        rs = runs(ck, p)
        if not rs: out.append(Sweep(ck, p, None, None))
        for q, sp in rs: out.append(Sweep(ck, p, q, sp))
    return f, out

def segments(ck, sw):
    """[(events, facts)] in which the clean-up looks at one site: loop iterations and what is outside loops"""
    out = []
    def go(ev, facts):
        out.append((ev, facts))
        for x in ev:
            if x[0] == 'loop':
                for s in ck.e.loops[x[1]].iters: go(s.ev, s.facts)
    go(sw.ev, sw.facts)
    return out

def c21(ck):
    r = Reg(ck)
    ck.need(r.flag is not None, 'the mark a lookup leaves on a site')
    f, sws = sweeps(ck)
    ck.need(sws, 'the clean-up')
    n = kept = 0
    for sw in sws:
        for ev, fa in segments(ck, sw):
            sends = [x for x in ev if x[0] == 'send']
            hits = [x for x in sends if x[6] in (STOP, M + 'RemoveCaptcha') or (x[6] != COUNT and not (is_own(x[2]) and x[6] == CLEANUP))]
            asked = {}
            for x in sends:
                if x[6] == COUNT: asked[x[2]] = (x, next((y[3] for y in ev if y[0] == 'await' and y[2] == x[4]), None))
            for x in hits:
                n += 1
                w = 'clean-up, ' + x[6].split('::')[-1]
                good = x[6] in (STOP, M + 'RemoveCaptcha')
                if not ck.ob('only retires', w, good, 'the clean-up sends %s' % x[6], where(x)): continue
                if x[6] == STOP: k = keyof(r, x[2])
                else:
                    k = F0(x[3], None)
                    if not ck.ob('retires in this registry', w, is_own(x[2]), 'the name is removed from %s' % show(x[2]), where(x)): continue
                if not ck.ob('a registered site', w, k is not None, 'the counter retired is %s' % show(x[2]), where(x)): continue
                A = r.addrof(r.T, k)
                got = asked.get(A)
                g = ck.ob('the counter inspected is the one retired', w, got is not None and got[1] is not None and ev.index(got[0]) < ev.index(x), 'a site is retired without asking its own counter', where(x))
                if g:
                    res = got[1]
                    ck.ob('only when the counter answered', w, fa.var.get(res) == 0, 'a site whose counter does not answer is retired', where(x))
                    c = F0(res, 0)
                    ck.ob('only with zero visitors', w, fa.ev(le(c, I(0))) is True or fa.ev(eq(c, I(0))) is True, 'a site that has visitors is retired', where(x))
                m = at(r.entry(r.T, k), r.flag)
                ck.ob('only when it was looked up', w, ismark(r, fa, m), 'a site that has not been looked up yet is retired', where(x))
            if asked:
                # a site that qualifies is retired
                for A, (x, res) in asked.items():
                    k = keyof(r, A)
                    if k is None or res is None: continue
                    c = F0(res, 0); m = at(r.entry(r.T, k), r.flag)
                    q = fa.var.get(res) == 0 and (fa.ev(le(c, I(0))) is True) and ismark(r, fa, m)
                    if q:
                        kept += 1
                        ck.ob('a used site without visitors is deregistered', 'clean-up', any(y[6] == M + 'RemoveCaptcha' and F0(y[3], None) == k for y in hits), 'a site that qualifies stays registered', where(x))
    ck.need(n, 'a place where the clean-up retires a site'); ck.need(kept, 'a path on which a site qualifies')
    # the counter reports its visitors
    s = cnt.Site(ck)
    h = ck.handler(COUNTER, COUNT)
    for p in ck.hpaths(h):
        kind, v = reply_of(p) if p.kind == 'ret' else ('', UNIT)
        ck.ob('the counter reports its visitors', 'Counter GetCurrentVisitorCount', p.kind == 'ret' and kind == 'now' and v == s.C, 'the counter reports %s' % show(v), h.get('span'))
    # marks
    marks(ck, r)

def keyof(r, A):
    """k such that A is the address registered under k in the table the clean-up started from"""
    x = A
    for p in reversed(r.addr):
        if x[0] != 'fld': return None
        x = x[1]
    return x[2] if x[0] == 'mapval' and x[1] == r.T and r.addrof(r.T, x[2]) == A else None

def ismark(r, fa, m):
    """the facts say the mark is the one a lookup leaves"""
    if r.set[0] == 'agg' and m is not None:
        if m == r.set: return True
        return fa.var.get(m) == r.set[2] and r.unset[0] == 'agg' and r.unset[2] != r.set[2]
    if r.set[0] == 'bool': return fa.ev(m if r.set[1] else neg(m)) is True
    return fa.ev(eq(m, r.set)) is True

def unmarked(r, fa, m):
    """the facts say the mark is not the one a lookup leaves"""
    if m is None or r.unset is None: return False
    if r.unset[0] == 'agg':
        if same_mark(r, m, r.unset): return True
        return fa.var.get(m) == r.unset[2] and r.set[0] == 'agg' and r.set[2] != r.unset[2]
    if r.unset[0] == 'bool': return fa.ev(m if r.unset[1] else neg(m)) is True
    return fa.ev(eq(m, r.unset)) is True

def same_mark(r, v, which):
    return v == which or (v[0] == 'agg' and which[0] == 'agg' and v[1:3] == which[1:3])

def marks(ck, r):
    ck.ob('a new site is not marked', 'AddSite', not same_mark(r, r.unset, r.set), 'a new site counts as looked up', r.addf.get('span'))
    looks = {M + 'AddVisitor', GETSITE}
    for f in ck.handlers(MASTER):
        msg = f['impl']['trait_args'][1]; w = mt(f); sp = f.get('span')
        for p in ck.hpaths(f):
            if p.kind != 'ret': continue
            if msg in looks:
                k = F0(MSG, None)
                if lookup(r, p, k):
                    mk = r.marked(p)
                    # written, or found to be set already
                    done = same_mark(r, mk[k], r.set) if k in mk else r.flag is not None and ismark(r, p.st.facts, at(r.entry(r.T, k), r.flag))
                    ck.ob('a lookup marks its site', w, done, 'a site that is looked up is not marked', sp)
                    ck.ob('a lookup marks no other site', w, set(mk) <= {k}, 'a lookup marks %s' % list(map(show, mk)), sp)
                continue
            # everything else: no entry gains the mark
            Ts = [(p, r.T, p.st)]
            bad = None
            for L in loops_of(ck, p):
                for path, phi, init in phi_slots(L):
                    if path[0] == ('P', SELF) and path[1:] == r.sites or phi[0] == 'phi' and len(path) > 1 and path[1:] == r.sites and 'self' in show(path[0]):
                        for s in L.iters:
                            v = at_path(s, path)
                            bad = bad or gains(r, mapops(v, phi) if v is not None else None, phi, s.facts, msg)
                        Ts = [(p, phi, p.st)]
            for pp, T, st in Ts:
                bad = bad or gains(r, mapops(at(selfval(st), r.sites), T), T, st.facts, msg)
            for x, q, df in background(ck, p, MASTER):
                T = at(LATER, r.sites); v = at(selfval(q.st, LATER), r.sites)
                if v != T: bad = bad or gains(r, mapops(v, T), T, q.st.facts, None)
            ck.ob('only lookups mark a site', w, not bad, 'a site gains the mark of a lookup: %s' % bad, sp)

def gains(r, ops, T, fa, msg):
    """a reason why entries gain the mark without a lookup"""
    if ops is None: return 'the table changes beyond what the analysis follows'
    for k, o in ops.items():
        if o[0] != 'set': continue
        m = at(o[1], r.flag)
        if same_mark(r, m, r.unset): continue
        old = at(r.entry(T, k), r.flag)
        a = at(o[1], r.addr)
        if m == old and a == r.addrof(T, k): continue
        # moving an entry along with its mark, as renaming may
        if any(m == at(r.entry(T, j), r.flag) and a == r.addrof(T, j) for j in ops): continue
        # importing into a site that exists looks it up
        if msg == M + 'SetInternalData' and fa.ev(('has', T, k)) is True: continue
        return show(k)
    return None

def loops_of(ck, p):
    out = []
    def go(ev):
        for x in ev:
            if x[0] == 'loop':
                L = ck.e.loops[x[1]]
                if L not in out:
                    out.append(L)
                    for s in L.iters: go(s.ev)
    go(p.ev)
    return out

# ---------------------------------------------------------------- C22
def own_sends(ck, ev, msg): return [x for x in ev if x[0] == 'send' and x[6] == msg and is_own(x[2])]

def c22(ck):
    r = Reg(ck)
    # the interval given is the one kept
    f = ck.method(MASTER, 'new'); gc = None
    for p in ck.paths(f):
        if p.kind == 'ret':
            gc = locate(ck.e, p.st.snap(p.val), S('a1'))
            ck.ob('the interval is kept', 'Master::new', gc is not None, 'the configured interval is not kept', f.get('span'))
    ck.need(gc is not None, 'the clean-up interval')
    D = secs(at(SELF, gc))
    # starting
    st = [x for x in ck.e.fns if (x.get('impl') or {}).get('self_adt') == MASTER and (x['impl'].get('trait') or '') == ACTOR and x['name'] == 'started']
    ck.need(st, 'Actor::started of the registry')
    for p in ck.paths(st[0], args=[SELF, CTX]):
        if not ck.ob('starting does not panic', 'started', p.kind == 'ret', 'a path panics', pspan(p)): continue
        for q, sp in runs(ck, p) or [(None, None)]:
            if q is not None and q.kind != 'ret':
                ck.ob('starting does not panic', 'started', False, 'a path panics', pspan(q)); continue
            ev = list(ck.unroll(p.ev)) + (list(ck.unroll(q.ev)) if q else [])
            now = own_sends(ck, ev, CLEANUP)
            ds = [x for x in ck.unroll(p.ev) if x[0] == 'notify_later' and tag_of(x[2]) == CLEANUP]
            ck.ob('starting starts one clean-up', 'started', len(now) + len(ds) == 1, '%d clean-ups are started' % (len(now) + len(ds)), st[0].get('span'))
        deadlock(ck, p, 'started')
    # every clean-up
    f, sws = sweeps(ck)
    ck.need(sws, 'the clean-up')
    seen = 0
    for sw in sws:
        path = sw.q or sw.p
        w = 'clean-up'
        if not ck.ob('nothing prevents the next clean-up', w, path.kind == 'ret', 'a clean-up panics: %s' % (path.info or {}).get('msg'), pspan(path)): continue
        seen += 1
        rearms(ck, r, sw, D, w, f)
        covered(ck, r, sw, w, f)
    ck.need(seen, 'a path of the clean-up that ends')
    for p in ck.hpaths(f): deadlock(ck, p, 'clean-up')
    # the interval stays what it was configured to be, and requests start no clean-ups of their own
    for w, g, p in everything(ck):
        if w not in ('started', mt(f)):
            ss = [x for x in ck.unroll(p.ev) if x[0] == 'send' or x[0] == 'notify_later'] + [y for x, q, df in background(ck, p, MASTER) for y in ck.unroll(q.ev) if y[0] in ('send', 'notify_later')]
            extra = [x for x in ss if (x[6] if x[0] == 'send' else tag_of(x[2])) == CLEANUP]
            ck.ob('one clean-up at a time', w, not extra, 'a request starts another clean-up', where(extra[0]) if extra else g.get('span'))
        now = at(selfval(p.st), gc)
        later = [x for x, q, df in background(ck, p, MASTER) if at(selfval(q.st, LATER), gc) != at(LATER, gc)]
        ck.ob('the interval stays', w, now == at(SELF, gc) and not later, 'the interval between clean-ups is changed', where(later[0]) if later else g.get('span'))

def rearms(ck, r, sw, D, w, f):
    """exactly one next clean-up, one interval after this one"""
    n = 0
    for x in ck.unroll(sw.p.ev):
        if x[0] == 'notify_later' and tag_of(x[2]) == CLEANUP:
            n += 1; ck.ob('after one interval', w, x[3] == D, 'the delay is %s' % show(x[3]), where(x))
        if x[0] in ('run_later', 'run_interval'):
            n += 1; rearm_closure(ck, sw.p.st, x, D, w)
        if x[0] == 'send' and x[6] == CLEANUP: ck.ob('after one interval', w, False, 'the next clean-up is not delayed', where(x)); n += 1
    if sw.q:
        top = list(sw.q.ev)
        slept = None
        for x in top:
            if x[0] == 'await' and x[1] == 'sleep': slept = x if slept is None else ('twice', x)
            if x[0] == 'send' and x[6] == CLEANUP and is_own(x[2]):
                n += 1
                ok = slept is not None and slept[0] == 'await' and slept[2] == D
                ck.ob('after one interval', w, ok, 'the next clean-up follows %s' % ('without a delay' if slept is None else 'after ' + show(slept[2]) if slept[0] == 'await' else 'several delays'), where(x))
            if x[0] == 'notify_later' and tag_of(x[2]) == CLEANUP and is_own(x[1]):
                n += 1
                ck.ob('after one interval', w, slept is None and x[3] in (D, later(D)), 'the delay is %s' % (show(x[3]) if slept is None else 'added to another'), where(x))
            if x[0] in ('run_later', 'run_interval'):
                n += 1; rearm_closure(ck, sw.q.st, x, D, w, slept is None)
        inner = [x for x in ck.unroll(top) if x not in top and (x[0] in ('notify_later', 'run_later', 'run_interval') or (x[0] == 'send' and x[6] == CLEANUP) or (x[0] == 'await' and x[1] == 'sleep'))]
        ck.ob('not per site', w, not inner, 'the next clean-up is scheduled, or a delay taken, once per site', where(inner[0]) if inner else None)
    ck.ob('one next clean-up', w, n == 1, '%d next clean-ups are scheduled' % n, f.get('span'))

def later(D):
    """the same delay as read off the registry when a future or closure runs (C22 shows it never changes)"""
    return replace(D, SELF, LATER)

def rearm_closure(ck, st, x, D, w, first=True):
    """a closure run one interval on that starts the clean-up"""
    ck.ob('after one interval', w, x[0] == 'run_later' and first and x[2] in (D, later(D)), 'the delay is %s' % (show(x[2]) if first else 'added to another'), where(x))
    s = st.copy(); s.ev = ()
    for q in ck.e.paths(ck.e.call_value(s, x[3], [LATER, CTX])):
        ss = [y for y in ck.unroll(q.ev) if y[0] in ('send', 'notify_later', 'spawn', 'run_later', 'run_interval')]
        good = q.kind == 'ret' and len(ss) == 1 and ss[0][0] == 'send' and ss[0][6] == CLEANUP and is_own(ss[0][2])
        ck.ob('after one interval', w, good, 'a closure is scheduled that does not just start the clean-up', where(x))

def covered(ck, r, sw, w, f):
    """a loop over all sites of the table the clean-up found asks each one's counter"""
    good = False; skip = None
    for L in loops_of(ck, sw.p) + (loops_of(ck, sw.q) if sw.q else []):
        for q, its in passes(ck.e, L):
            if sw.facts.ev(le(vlen(r.T), q)) is not True: continue
            k = ('mkey', r.T, q)
            asks = [any(x[0] == 'send' and x[6] == COUNT and x[2] == r.addrof(r.T, k) for x in s.ev) for s in its]
            # a site that was never looked up cannot be retired, so it need not be asked
            if any(asks) and all(a or unmarked(r, s.facts, at(r.entry(r.T, k), r.flag) if r.flag is not None else None) for a, s in zip(asks, its)): good = True
            else: skip = L.span
    ck.ob('every site is inspected', w, good, 'not every registered site\'s counter is asked before the next clean-up is scheduled', skip or f.get('span'))

def deadlock(ck, p, w):
    """the registry must not suspend itself waiting for its own answer"""
    for sp, fps in ck.futures(p):
        if sp[1] != 'wait': continue
        bad = [x for q in fps for x in ck.unroll(q.ev) if x[0] == 'send' and x[1] != 'do_send' and is_own(x[2])]
        ck.ob('does not wait for itself', w, not bad, 'the registry stops taking messages until its own message is answered', where(bad[0]) if bad else None)
        # waiting also holds up every request meanwhile
        slow = [x for q in fps for x in ck.unroll(q.ev) if x[0] == 'await' and x[1] == 'sleep']
        ck.ob('does not wait for itself', w, not slow, 'the registry takes no messages until its own timer fires', where(slow[0]) if slow else None)

# ---------------------------------------------------------------- C23
def c23(ck):
    r = Reg(ck)
    s = cnt.Site(ck)
    # the counter's side
    g = ck.handler(COUNTER, CNT + 'GetInternalData')
    for p in ck.hpaths(g):
        ck.ob('exporting changes no counter', 'Counter GetInternalData', p.kind == 'ret' and not [d for d, _ in diffs(selfval(p.st), SELF) if cnt.meets(d, s.site)] and not [x for x in effects(p.ev)], 'reading the state has an effect', g.get('span'))
    h = ck.handler(COUNTER, CNT + 'SetInternalData')
    for p in s.paths(h):
        if not ck.ob('no panic', 'Counter SetInternalData', p.kind == 'ret', 'a path panics', pspan(p)): continue
        v = at(selfval(p.st), s.site)
        ck.ob('exactly the imported state', 'Counter SetInternalData', v == F0(MSG, None), 'the state becomes %s' % show(v)[:200], h.get('span'))
    # export
    f = ck.handler(MASTER, M + 'GetInternalData'); n = 0
    for p in ck.hpaths(f):
        w = 'GetInternalData'; sp = f.get('span')
        if not ck.ob('no panic', w, p.kind == 'ret', 'a path panics', pspan(p)): continue
        ck.ob('exporting changes nothing', w, not [d for d, _ in diffs(selfval(p.st), SELF) if cnt.meets(d, r.sites)], 'exporting changes the registry', sp)
        for q, spn in runs(ck, p) or [(None, None)]:
            path = q or p
            if not ck.ob('no panic', w, path.kind == 'ret', 'a path panics', pspan(path)): continue
            ss = [x for x in list(ck.unroll(p.ev)) + (list(ck.unroll(q.ev)) if q else []) if x[0] == 'send']
            ck.ob('exporting only reads', w, all(x[6] == CNT + 'GetInternalData' for x in ss), 'a message %s is sent' % [x[6] for x in ss if x[6] != CNT + 'GetInternalData'], sp)
            vs = [path.st.snap(x[3]) for x in path.ev if x[0] == 'send_chan']
            k, v = reply_of(p)
            if k == 'now': vs = [v]
            for v in vs:
                n += 1
                if not ck.ob('answers with the states', w, v[0] == 'agg' and v[1] == RES and v[2] == 0, 'the answer is %s' % show(v)[:200], sp): continue
                exported(ck, r, path, v[3][0], w, sp)
    ck.need(n, 'an answer of the export')
    # import
    f = ck.handler(MASTER, M + 'SetInternalData'); n = 0
    D = ck.fld(MSG, M + 'SetInternalData', 'mcaptcha')
    for p in ck.hpaths(f):
        w = 'SetInternalData'; sp = f.get('span')
        if not ck.ob('no panic', w, p.kind == 'ret', 'a path panics', pspan(p)): continue
        n += 1
        imported(ck, r, p, D, w, sp)
    ck.need(n, 'a path of the import')

def exported(ck, r, path, m, w, sp):
    """m maps exactly the answering sites to their states"""
    if m[0] != 'phi':
        ck.ob('every site is exported', w, False, 'the answer is %s' % show(m)[:200], sp); return
    L = ck.e.loops[m[1]]
    slot = next(((p, q, i) for p, q, i in phi_slots(L) if q == m), None)
    ck.ob('nothing but the states', w, slot is not None and slot[2] in (('mempty',), ('vempty',)), 'the export starts from %s' % (show(slot[2]) if slot and slot[2] else 'something unknown'), sp)
    if slot is None: return
    full = [(q, its) for q, its in passes(ck.e, L) if path.st.facts.ev(le(vlen(r.T), q)) is True]
    if not ck.ob('every site is exported', w, bool(full), 'the export does not go through all sites', L.span): return
    k = ('mkey', r.T, full[0][0])
    A = r.addrof(r.T, k)
    hit = 0
    for s in full[0][1]:
        snd = [x for x in s.ev if x[0] == 'send']
        g = ck.ob('every site is asked', w, len(snd) == 1 and snd[0][2] == A and snd[0][6] == CNT + 'GetInternalData', 'a site\'s counter is not asked for its state', L.span)
        if not g: continue
        res = next((x[3] for x in s.ev if x[0] == 'await' and x[2] == snd[0][4]), None)
        ops = mapops(at_path(s, slot[0]), m)
        if not ck.ob('states under their own names', w, ops is not None and set(ops) <= {k}, 'the export gains %s' % ([show(x) for x in ops] if ops else '?'), L.span): continue
        ok = res is not None and s.facts.var.get(res)
        if ok == 0:
            hit += 1
            ck.ob('an answering site is exported', w, k in ops and ops[k] == ('set', F0(res, 0)), 'the state exported for a site is %s' % (show(ops[k]) if k in ops else 'missing'), L.span)
        else:
            ck.ob('nothing is made up for a site that does not answer', w, not ops, 'a site that does not answer is exported', L.span)
    ck.ob('answering sites', w, hit > 0, 'no state is exported', L.span)

def imported(ck, r, p, D, w, sp):
    T1 = at(selfval(p.st), r.sites)
    if not ck.ob('every named site is imported', w, T1[0] == 'phi', 'the table becomes %s' % show(T1)[:200], sp): return
    L = ck.e.loops[T1[1]]
    slot = next(((a, q, i) for a, q, i in phi_slots(L) if q == T1), None)
    ck.ob('starting from the present sites', w, slot is not None and slot[2] == r.T, 'the table is replaced', sp)
    if slot is None: return
    full = [(q, its) for q, its in passes(ck.e, L) if p.st.facts.ev(le(vlen(D), q)) is True]
    if not ck.ob('every named site is imported', w, bool(full), 'the import does not go through all named sites', L.span): return
    seen = set()
    for s in full[0][1]:
        k = ('mkey', D, full[0][0]); val = get(D, ('key', k))
        T = slot[1]
        h = s.facts.ev(('has', T, k)); seen.add(h)
        ops = mapops(at_path(s, slot[0]), T)
        if not ck.ob('other sites are left alone', w, ops is not None and set(ops) <= {k}, 'an import changes %s' % ([show(x) for x in ops] if ops else 'the table'), L.span): continue
        snd = [x for x in s.ev if x[0] == 'send']; st = [x for x in s.ev if x[0] == 'start']
        if h is True:
            A = r.addrof(T, k)
            # a request the mailbox may refuse must not be lost
            gone = [x for x in s.ev if x[0] == 'unsent' and x[2] == 'closed' and x[1] == A]
            keeps = k not in ops or (ops[k][0] == 'set' and all(d == r.flag for d, _ in diffs(ops[k][1], r.entry(T, k))))
            if gone and not st and not snd and keeps: continue       # there is nobody to import for
            lossy = [x for x in s.ev if x[0] == 'unsent' and not snd]
            ck.ob('an import reaches a busy counter', w, not lossy, 'the import is lost when the counter has many requests waiting', L.span)
            replaced = not st and len(snd) == 1 and snd[0][2] == A and snd[0][6] == CNT + 'SetInternalData' and F0(snd[0][3], None) == val
            ck.ob('an existing site gets exactly the imported state', w, replaced and keeps, 'an existing site is sent %s' % [show(x[3]) for x in snd], L.span)
        elif h is False:
            ok = len(st) == 1 and isconfig(ck, st[0][2], val) and not snd and k in ops and ops[k][0] == 'set' and at(ops[k][1], r.addr) == st[0][1]
            ck.ob('a missing site is added with exactly the imported state', w, ok, 'a missing site is started from %s' % [show(x[2]) for x in st], L.span)
        else:
            ck.ob('existing and missing sites', w, False, 'an import does not look whether the site exists', L.span)
    ck.ob('existing and missing sites', w, seen >= {True, False}, 'an import does not distinguish existing from missing sites', L.span)
    out = [x for x in ck.unroll(p.ev) if x[0] == 'send' and x not in [y for s in L.iters for y in s.ev]]
    ck.ob('other sites are left alone', w, not out, 'a message %s is sent' % [x[6] for x in out], sp)

"""The site counter: C05, C06, C09."""
from ..core import *
from . import defense as dfn
MC = 'crate::mcaptcha::MCaptcha'
AVR = 'crate::master::AddVisitorResult'
S = lambda n: ('sym', n)
U32 = 2 ** 32 - 1

class MRoles:
    """where a site keeps its visitor count, duration and defense, read off its accessors"""
    def __init__(self, ck):
        def role(name):
            f = ck.method(MC, name)
            vs = {p.st.snap(p.val) for p in ck.paths(f, args=[SELF]) if p.kind == 'ret'}
            ck.need(len(vs) == 1, 'MCaptcha::%s as a plain component' % name)
            q = dfn.topath(vs.pop()) if True else None
            return ck.need(q, 'MCaptcha::%s as a plain component' % name)
        self.count = role('get_visitors'); self.duration = role('get_duration'); self.defense = role('get_defense')

class Site:
    """the same inside the counter actor, whose state GetInternalData reports"""
    def __init__(self, ck):
        self.ck = ck
        m = MRoles(ck)
        f = ck.handler(COUNTER, CNT + 'GetInternalData')
        vs = set()
        for p in ck.hpaths(f):
            if p.kind == 'ret':
                k, v = reply_of(p); vs.add(v)
        ck.need(len(vs) == 1, 'the state reported by GetInternalData')
        q = dfn.topath(vs.pop())
        self.site = ck.need(q, 'the state reported by GetInternalData as a plain component')
        self.count, self.duration, self.defense = self.site + m.count, self.site + m.duration, self.site + m.defense
        self.m = m
        self.r = dfn.Roles(ck)
        self.C = at(SELF, self.count)
    def setup(self, st, args, base=SELF):
        l, i = self.r.of(at(base, self.defense))
        st.facts.know(('len', l)); st.facts.know(i, 'usize'); st.facts.know(at(base, self.count), 'u32')
        st.facts.assume(lt(i, ('len', l)), True)
        # holds at all times, so also when what is set off gets at the counter
        if base == SELF: self.setup(st, args, LATER)
    def paths(self, f):
        b = self.ck.e.bodies[f['key']]
        args = [SELF, S('msg'), S('ctx')] if b['argc'] == 3 else [SELF, S('ctx')]
        return self.ck.paths(f, args=args, setup=self.setup, tag='site')
    def started(self):
        l = [f for f in self.ck.e.fns if (f.get('impl') or {}).get('self_adt') == COUNTER and (f['impl'].get('trait') or '') == ACTOR and f['name'] == 'started']
        return l[0] if l else None

def meets(a, b): return a[:len(b)] == b or b[:len(a)] == a

def inst(f): return (f.get('impl') or {}).get('trait_args', [0, f['name']])[-1].split('::')[-1] if f['name'] == 'handle' else f['name']

def lowers_by(facts, c, n, v):
    """v is c - n, but not below zero"""
    if v == c: return facts.ev(le(c, I(0))) is True or facts.ev(le(n, I(0))) is True
    if v == I(0) : return facts.ev(le(c, n)) is True
    if n[0] == 'int' and v == add(c, -n[1]): return facts.ev(le(I(n[1]), c)) is True
    if v == ('sub', c, n): return facts.ev(le(n, c)) is True
    if facts.ev(eq(v, I(0))) is True: return facts.ev(le(c, n)) is True
    return False

def raises_by_one(facts, c, v):
    if v == add(c, 1): return facts.ev(lt(c, I(U32))) is not False
    return (v == I(U32) or v == c or facts.ev(eq(v, I(U32))) is True) and facts.ev(le(I(U32), c)) is True

def never_raises(facts, c, v):
    if v == c or v == I(0): return True
    if v[0] == 'sub' and v[1] == c: return facts.ev(le(v[2], c)) is True
    if facts.ev(le(v, c)) is True: return v[0] != 'add' or v[2] <= 0
    return False

# ---------------------------------------------------------------- C05
def releases(ck, s, p, rule, who, n, dur):
    """everything a path of the counter sets off must amount to: after dur, the count falls by n, once"""
    ds, others = scheduled(ck, p, COUNTER)
    k = 0
    for d in ds:
        alts = own_effects(ck, p, d, COUNTER)
        if not ck.ob(rule + ': what is set off is a release', who, alts is not None, 'something other than messages to the counter itself is set off', where(d.ev)): continue
        ck.ob(rule + ': not repeated', who, d.kind != 'interval', 'the release is repeated', where(d.ev))
        ck.ob(rule + ': the counter goes on meanwhile', who, d.how != 'wait', 'the counter suspends itself until the release', where(d.ev))
        if dur is not None: ck.ob(rule + ': after one duration', who, d.delay == dur, 'the delay is %s, not the site\'s duration in seconds' % show(d.delay), where(d.ev))
        for a in alts:
            good = len(a) == 1
            for q, df in a:
                c = at(LATER, s.count)
                v = at(selfval(q.st, LATER), s.count)
                good = good and lowers_by(q.st.facts, c, n, v) and not [x for x in df if x[0] != s.count]
            ck.ob(rule + ': exactly these visitors', who, good, 'what is set off does not lower the visitor count by %s' % show(n), where(d.ev))
        k += 1
    for sp, qs in others:
        ck.ob(rule + ': nothing early', who, not any(effects(q.ev) for q in qs), 'something is started that does not wait for the duration', where(sp))
    early = [x for x in p.ev if x[0] == 'send']
    ck.ob(rule + ': nothing early', who, not early, 'a message is sent at once', where(early[0]) if early else None)
    return k

def mailbox_stays(ck, p, who):
    bad = [x for x in ck.unroll(p.ev) if x[0] in ('stop',) or (x[0] == 'call' and 'cancel_future' in x[1])]
    ck.ob('scheduled releases stay scheduled', who, not bad, 'the counter is stopped or a scheduled future cancelled', where(bad[0]) if bad else None)

def c05(ck):
    s = Site(ck)
    D = secs(at(SELF, s.duration))
    add_, set_ = CNT + 'AddVisitor', CNT + 'SetInternalData'
    f = ck.handler(COUNTER, add_)
    n = 0
    for p in s.paths(f):
        if p.kind != 'ret': continue
        n += 1
        k = releases(ck, s, p, 'visitor', 'AddVisitor', I(1), D)
        ck.ob('visitor: one release', 'AddVisitor', k == 1, '%d releases are set off on a path' % k, pspan(p) or f.get('span'))
        mailbox_stays(ck, p, 'AddVisitor')
    ck.need(n, 'paths of the counter\'s AddVisitor')
    g = ck.need(s.started(), 'the start of a counter releasing the visitors it is started with')
    some_ = False
    for p in s.paths(g):
        if p.kind != 'ret': continue
        k = releases(ck, s, p, 'preset', 'started', s.C, D)
        empty = p.st.facts.ev(le(s.C, I(0))) is True
        some_ |= not empty
        ck.ob('preset: one release', 'started', k == 1 or (k == 0 and empty), '%d releases are set off on a path with visitors' % k, pspan(p) or g.get('span'))
        ck.ob('preset: the count stays', 'started', at(selfval(p.st), s.count) == s.C, 'starting changes the count', g.get('span'))
        mailbox_stays(ck, p, 'started')
    ck.need(some_, 'a path of started with visitors')
    f = ck.handler(COUNTER, set_)
    m = get(S('msg'), ('f', 0, None))
    for p in s.paths(f):
        if p.kind != 'ret': continue
        new = selfval(p.st)
        c, d = at(new, s.count), at(new, s.duration)
        ck.ob('import: exactly the state given', 'SetInternalData', at(new, s.site) == m, 'the state becomes %s' % show(at(new, s.site)), f.get('span'))
        k = releases(ck, s, p, 'imported', 'SetInternalData', c, secs(d))
        empty = p.st.facts.ev(le(c, I(0))) is True
        ck.ob('imported: one release', 'SetInternalData', k == 1 or (k == 0 and empty), '%d releases are set off' % k, pspan(p) or f.get('span'))
        can = [x for x in p.ev if x[0] == 'call' and 'cancel_future' in x[1]]
        ck.ob('import: visitors counted before it are not released from the imported count', 'Counter SetInternalData', bool(can),
              'the count is replaced while the releases set off for earlier visitors stay scheduled, so imported visitors are released early', f.get('span'))
    # nothing else releases
    for f in ck.handlers(COUNTER):
        mt = f['impl']['trait_args'][1]
        if mt in (add_, set_): continue
        for p in s.paths(f):
            if p.kind != 'ret': continue
            bad = [x for x in ck.unroll(p.ev) if x[0] in ('send', 'spawn', 'notify_later', 'run_later', 'run_interval')]
            ck.ob('nothing else is set off', inst(f), not bad, 'the request sets something off', where(bad[0]) if bad else None)
            if mt != CNT + 'Stop': mailbox_stays(ck, p, inst(f))
    # release messages: made only where visitors are counted
    rel = release_messages(ck, s)
    ck.need(rel, 'the counter\'s release messages')
    keys = set()
    for f in [ck.handler(COUNTER, add_), ck.handler(COUNTER, set_), g]:
        keys |= mentions(ck, f['key'])
    for mt in sorted(rel):
        for k in sorted(dfn.constructors(ck, mt)):
            ck.ob('releases come only from counted visitors', '%s in %s' % (mt.split('::')[-1], k), k in keys, 'a release is made somewhere else', ck.e.bodies[k].get('span'))

def release_messages(ck, s):
    """requests that lower the count"""
    out = set()
    for f in ck.handlers(COUNTER):
        mt = f['impl']['trait_args'][1]
        if mt in (CNT + 'AddVisitor', CNT + 'SetInternalData'): continue
        for p in s.paths(f):
            if p.kind == 'ret' and at(selfval(p.st), s.count) != s.C: out.add(mt)
    return out

def mentions(ck, key, seen=None):
    """bodies a body calls or creates closures of, transitively, within the crate"""
    seen = set() if seen is None else seen
    if key in seen or key not in ck.e.bodies: return seen
    seen.add(key)
    def walk(x):
        if isinstance(x, dict):
            if 'inst' in x and isinstance(x['inst'], str): mentions(ck, x['inst'], seen)
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(ck.e.bodies[key]['blocks'])
    return seen

# ---------------------------------------------------------------- C06
def c06(ck):
    s = Site(ck)
    for f in ck.handlers(COUNTER):
        mt = f['impl']['trait_args'][1]
        w = inst(f)
        n = 0
        for p in s.paths(f):
            if not ck.ob('no panic', 'request ' + w, p.kind == 'ret', 'a path panics (%s)' % (p.info or {}).get('msg'), pspan(p)): continue
            n += 1
            new = selfval(p.st)
            v = at(new, s.count)
            if mt == CNT + 'SetInternalData': continue
            if mt == CNT + 'AddVisitor':
                ck.ob('one more', w, raises_by_one(p.st.facts, s.C, v), 'the count becomes %s' % show(v), f.get('span'))
                rest = [d for d in diffs(new, SELF) if meets(d[0], s.duration)]
                ck.ob('one more', w + ' changes nothing else', not rest, 'something else changes', f.get('span'))
            else:
                ck.ob('nothing else raises it', w, never_raises(p.st.facts, s.C, v), 'the count becomes %s' % show(v), f.get('span'))
                rest = [d for d in diffs(new, SELF) if meets(d[0], s.duration) or meets(d[0], s.defense)]
                ck.ob('a release changes only the count', w, not rest, 'something else changes', f.get('span'))
                k = amount(ck, mt)
                if v != s.C or w in ('DeleteVisitor', 'BulkDecrement'):
                    ck.ob('exactly n fewer', w, lowers_by(p.st.facts, s.C, k, v), 'the count becomes %s for a release of %s' % (show(v), show(k)), f.get('span'))
        ck.need(n, 'paths of the counter\'s %s' % w)
    g = s.started()
    if g:
        for p in s.paths(g):
            ck.ob('no panic', 'started', p.kind == 'ret', 'a path panics', pspan(p))
            if p.kind == 'ret': ck.ob('nothing else raises it', 'started', at(selfval(p.st), s.count) == s.C, 'the count changes', g.get('span'))
    # the operations of a site themselves
    m = s.m
    c = at(SELF, m.count)
    def setup(st, args):
        l, i = s.r.of(at(SELF, m.defense))
        st.facts.know(('len', l)); st.facts.know(i, 'usize'); st.facts.know(c, 'u32')
        st.facts.assume(lt(i, ('len', l)), True)
    ck.method(MC, 'add_visitor'); ck.method(MC, 'decrement_visitor_by')
    for f, b in dfn.selfmethods(ck, MC):
        # helpers are judged where they are called
        if not f.get('pub'): continue
        w = 'MCaptcha::' + f['name']
        for p in ck.paths(f, args=[SELF] + [S('n')] * (b['argc'] - 1), setup=setup, tag='mc'):
            if not ck.ob('no panic', w, p.kind == 'ret', 'a path panics (%s)' % (p.info or {}).get('msg'), pspan(p)): continue
            new = selfval(p.st); v = at(new, m.count)
            rest = [d for d in diffs(new, SELF) if meets(d[0], m.duration) or meets(d[0], m.defense)]
            if f['name'] == 'add_visitor':
                ck.ob('one more', w, raises_by_one(p.st.facts, c, v), 'the count becomes %s' % show(v), f.get('span'))
            elif f['name'] == 'decrement_visitor_by':
                ck.ob('exactly n fewer', w, lowers_by(p.st.facts, c, S('n'), v), 'the count becomes %s' % show(v), f.get('span'))
                ck.ob('a release changes only the count', w, not rest, 'something else changes', f.get('span'))
            else:
                ck.ob('nothing else raises it', w, never_raises(p.st.facts, c, v), 'the count becomes %s' % show(v), f.get('span'))
            if f['name'] != 'add_visitor':
                d2 = diffs(at(new, m.defense), at(SELF, m.defense))
                ck.ob('a release leaves the levels', w, not d2, 'the defense changes', f.get('span'))

def amount(ck, mt):
    """visitors a release message stands for: its only number, or one"""
    fs = ck.e.adts[mt]['variants'][0]['fields'] if mt in ck.e.adts else []
    return get(S('msg'), ('f', 0, None)) if len(fs) == 1 else I(1)

# ---------------------------------------------------------------- C09
def c09(ck):
    s = Site(ck)
    r = s.r
    L, i = r.of(at(SELF, s.defense))
    ln = ('len', L)
    T = lambda j: get(('elem', L, j), ('f', r.t, None))
    f = ck.handler(COUNTER, CNT + 'AddVisitor')
    n = 0; kinds = set()
    for p in s.paths(f):
        if p.kind != 'ret': continue
        n += 1
        new = selfval(p.st)
        v = at(new, s.count)
        nl, ni = r.of(at(new, s.defense))
        fa = p.st.facts
        above = fa.ev(lt(T(i), v))
        below = fa.ev(le(v, T(add(i, -1))))
        first, last = fa.ev(le(i, I(0))), fa.ev(le(add(ln, -1), i))
        w = 'AddVisitor'
        if ni == add(i, 1):
            kinds.add('up')
            ck.ob('up only above the active threshold', w, above is True, 'the level rises on a path where the count need not exceed the active threshold', f.get('span'))
        elif ni == add(i, -1):
            kinds.add('down')
            ck.ob('down only within the threshold below', w, below is True, 'the level falls on a path where the count need not be within the threshold of the level below', f.get('span'))
            ck.ob('down only within the threshold below', w + ' (not above the active)', above is not True, 'the level falls although the count exceeds the active threshold', f.get('span'))
        elif ni == i or fa.ev(eq(ni, i)) is True:
            kinds.add('stay')
            ck.ob('up when above the active threshold', w, above is False or last is True, 'the level stays on a path where the count may exceed the active threshold and a stricter level exists', f.get('span'))
            ck.ob('down when within the threshold below', w, below is False or first is True or above is True, 'the level stays on a path where the count may be within the threshold of the level below', f.get('span'))
        else:
            ck.ob('one step at most', w, False, 'the active level becomes %s' % show(ni), f.get('span'))
        k, ans = reply_of(p)
        ck.ob('the answer is the level after the adjustment', w, k == 'now' and ck.fld(ans, AVR, 'difficulty_factor') == get(('elem', nl, ni), ('f', r.d, None)), 'the difficulty answered is %s' % show(ck.fld(ans, AVR, 'difficulty_factor')), f.get('span'))
        ck.ob('the answer is the site\'s duration', w, k == 'now' and ck.fld(ans, AVR, 'duration') == at(new, s.duration), 'the duration answered is %s' % show(ck.fld(ans, AVR, 'duration')), f.get('span'))
    ck.need(n, 'paths of the counter\'s AddVisitor')
    ck.ob('the level does rise', 'AddVisitor', 'up' in kinds, 'no path moves to a stricter level', f.get('span'))
    ck.ob('the level does fall', 'AddVisitor', 'down' in kinds, 'no path moves to a more lenient level', f.get('span'))
    # the defense moves nowhere else
    for g in ck.handlers(COUNTER):
        mt = g['impl']['trait_args'][1]
        if mt in (CNT + 'AddVisitor', CNT + 'SetInternalData'): continue
        for p in s.paths(g):
            if p.kind != 'ret': continue
            ck.ob('moves only when a visitor is counted', inst(g), not diffs(at(selfval(p.st), s.defense), at(SELF, s.defense)), 'the request moves the defense', g.get('span'))

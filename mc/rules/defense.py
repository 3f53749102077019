"""Defense, levels, builders: C07 and C08."""
from ..core import *
from ..loops import forall
from .api import entries
D = 'crate::defense::Defense'
DB = 'crate::defense::DefenseBuilder'
LV = 'crate::defense::Level'
LB = 'crate::defense::LevelBuilder'
MC = 'crate::mcaptcha::MCaptcha'
MB = 'crate::mcaptcha::MCaptchaBuilder'
S = lambda n: ('sym', n)

class Roles:
    """where a Defense keeps its levels and which one is active, read off its accessors"""
    def __init__(self, ck):
        self.ck = ck
        f = ck.method(D, 'current_level')
        c = {p.st.snap(p.val) for p in ck.paths(f, args=[SELF], setup=None) if p.kind == 'ret'}
        ck.need(len(c) == 1 and next(iter(c))[0] == 'elem', 'Defense::current_level as an element of the levels')
        _, self.levels, self.idx = next(iter(c))
        self.t = ck.field(LV, 'visitor_threshold'); self.d = ck.field(LV, 'difficulty_factor')
    def inv(self, base=SELF):
        """the active level exists"""
        def setup(st, args):
            st.facts.know(('len', self.sub(self.levels, base))); st.facts.know(self.sub(self.idx, base), 'usize')
            st.facts.assume(lt(self.sub(self.idx, base), ('len', self.sub(self.levels, base))), True)
        return setup
    def sub(self, t, base):
        from ..models import subst
        return subst(t, SELF, base)
    def path(self, t):
        """projections from self to a component"""
        out = []
        while t != SELF:
            if t[0] != 'fld': self.ck.need(None, 'state of a Defense as plain components')
            out.append(('f', t[3], t[2])); t = t[1]
        return tuple(reversed(out))
    def of(self, v):
        """(levels, index) of a defense value"""
        return at(v, self.path(self.levels)), at(v, self.path(self.idx))

def within(f, n, ln): return f.ev(lt(n, ln)) is True

def c07(ck):
    r = Roles(ck)
    L, i = r.levels, r.idx
    n = ('len', L)
    last = add(n, -1)
    spec = {
        # name: (cases) list of (condition, new index)
        'tighten_up': [(lt(i, last), add(i, 1)), (le(last, i), i)],
        'loosen_up': [(lt(I(0), i), add(i, -1)), (le(i, I(0)), i)],
        'max_defense': [(Bc(True), last)],
        'min_defense': [(Bc(True), I(0))],
    }
    getters = {'get_difficulty': get(('elem', L, i), ('f', r.d, None)), 'visitor_threshold': get(('elem', L, i), ('f', r.t, None)), 'current_level': ('elem', L, i)}
    for nm in spec: ck.method(D, nm)
    for nm in getters: ck.method(D, nm)
    for f in ck.methods(D):
        b = ck.e.bodies[f['key']]
        if not b['argc'] or b['locals'][1][1:2] != ['self'] and (len(b['locals'][1]) < 2 or b['locals'][1][1] != 'self'): continue
        ps = ck.paths(f, args=[SELF] + [S('a%d' % k) for k in range(2, b['argc'] + 1)], setup=r.inv(), tag='inv')
        for p in ps:
            nm = f['name']
            if not ck.ob('no panic', nm, p.kind == 'ret', 'a path panics (%s)' % (p.info or {}).get('msg'), pspan(p)): continue
            v = selfval(p.st)
            nl, ni = r.of(v)
            ck.ob('levels stay', nm, nl == L, 'the operation changes the levels', f.get('span'))
            ck.ob('active level exists', nm, ni == i or (within(p.st.facts, ni, n) and p.st.facts.ev(le(I(0), ni)) is not False), 'the active level may be outside the levels: %s' % show(ni), f.get('span'))
            if nm in spec:
                hit = [w for c, w in spec[nm] if p.st.facts.ev(c) is True]
                same = any(ni == w or p.st.facts.ev(eq(ni, w)) is True for w in hit)
                ck.ob('one step', nm, same, 'the active level becomes %s, expected %s' % (show(ni), ' or '.join(show(w) for w in hit) or 'a decided case'), f.get('span'))
            elif nm in getters:
                got = p.st.snap(p.val)
                ck.ob('reports the active level', nm, got == getters[nm], 'the answer is %s' % show(got), f.get('span'))
                ck.ob('reports the active level', nm + ' changes nothing', ni == i, 'the active level changes', f.get('span'))
    # only these operations make or move defenses
    own = {D, DB}
    for f in ck.e.fns:
        im = f.get('impl') or {}
    # sites: whatever a counter is sent leaves an existing level active
    from . import counter
    s = counter.Site(ck)
    for f in ck.handlers(COUNTER):
        m = f['impl']['trait_args'][1]
        if m == CNT + 'SetInternalData': continue
        for p in s.paths(f):
            if p.kind != 'ret': continue
            nl, ni = r.of(at(selfval(p.st), s.defense))
            bl, bi = r.of(at(SELF, s.defense))
            ck.ob('levels stay', 'counter: ' + m.split('::')[-1], nl == bl, 'the request changes the levels', pspan(p) or f.get('span'))
            ck.ob('active level exists', 'counter: ' + m.split('::')[-1], ni == bi or within(p.st.facts, ni, ('len', bl)), 'the active level becomes %s' % show(ni), pspan(p) or f.get('span'))

# ---------------------------------------------------------------- C08
def constructors(ck, adt):
    """bodies that put a value of the type together, derived code excepted"""
    out = set()
    for b in ck.e.bodies.values():
        if '::_::' in b['key']: continue
        for bb in b['blocks']:
            for s in bb[0]:
                r = s.get('r')
                if r and r[0] == 'agg' and aggadt(r) == adt: out.add(b['key'])
    derived = {f['key'] for f in ck.e.fns if (f.get('impl') or {}).get('derived')}
    return {k for k in out if not any(k == d or k.startswith(d + '::') for d in derived)}

def aggadt(r):
    k = r[1]
    if isinstance(k, dict): return k.get('adt')
    if isinstance(k, (list, tuple)) and k and k[0] == 'adt': return k[1]
    return None

def reached(ck, f, **kw):
    """bodies followed while analysing f"""
    old = ck.e.analysed
    ck.e.analysed = set()
    try:
        ps = ck.paths(f, **kw)
        return ps, set(ck.e.analysed) | {f['key']}
    finally: ck.e.analysed = old | ck.e.analysed

def callers(ck, key):
    out = set()
    for b in ck.e.bodies.values():
        for bb in b['blocks']:
            t = bb[1]
            if t['k'] == 'call' and t['f'][0] == 'k' and (t['f'][1].get('fn') or {}).get('inst') == key: out.add(b['key'])
    return out

def only_made_by(ck, adt, roots, allow=()):
    keys = set()
    for f, kw in roots:
        _, ks = reached(ck, f, tag='reach', setup=kw)
        keys |= ks
    names = {f['key'] for f, _ in roots}
    for k in sorted(constructors(ck, adt)):
        good = k in keys or k in allow
        if good and k not in names and k not in allow:
            good = not [c for c in callers(ck, k) if c not in keys and not any(c.startswith(n + '::') for n in keys)]
        ck.ob('made only by its builder', '%s in %s' % (adt.split('::')[-1], k), good, 'a %s is put together outside its checked builder' % adt.split('::')[-1], (ck.e.bodies[k].get('span')))

def selfmethods(ck, adt):
    out = []
    for f in ck.methods(adt):
        b = ck.e.bodies[f['key']]
        if b['argc'] and len(b['locals'][1]) > 1 and b['locals'][1][1] == 'self': out.append((f, b))
    return out

def isok(v): return v[0] == 'agg' and v[1] == RES and v[2] == 0
def iserr(v): return v[0] == 'agg' and v[1] == RES and v[2] == 1

def setter(ck, adt, name, mode):
    """slot a builder method fills with its argument: path of an Option set to Some(argument)"""
    f = ck.method(adt, name)
    slots = set()
    for p in ck.paths(f, args=[SELF, S('given')]):
        if not ck.ob('no panic', '%s::%s' % (adt.split('::')[-1], name), p.kind == 'ret', 'a path panics', pspan(p)): continue
        v = p.st.snap(p.val)
        ds = diffs(selfval(p.st), SELF)
        if mode and iserr(v):
            ck.ob('a refused value is not taken', name, not ds, 'the builder changes although an error is returned', f.get('span')); continue
        good = len(ds) == 1 and ds[0][1] == some(S('given'))
        ck.ob('exactly the value given', '%s::%s' % (adt.split('::')[-1], name), good, 'the builder takes %s' % (show(ds[0][1]) if ds else 'nothing'), f.get('span'))
        if good: slots.add(ds[0][0])
        if mode == 'positive':
            ck.notes.setdefault('positive', []).append(p.st.facts.ev(lt(I(0), S('given'))))
    ck.need(len(slots) == 1, 'one slot for %s::%s' % (adt, name))
    return slots.pop()

def initial(ck, adt):
    """values the builder starts with"""
    out = []
    for f in ck.e.fns:
        im = f.get('impl') or {}
        if f['name'] in ('default', 'new') and im.get('self_adt') == adt and (im.get('trait') or '').endswith('Default') or (f['name'] == 'new' and im.get('self_adt') == adt and not im.get('trait')):
            for p in ck.paths(f):
                if p.kind == 'ret': out.append((f, p.st.snap(p.val)))
    return ck.need(out, 'Default for ' + adt)

def untouched(ck, adt, slot, but, rule, what):
    own = selfmethods(ck, adt)
    ks = {f['key'] for f, _ in own}
    for f, b in own:
        if f['name'] in but: continue
        # a helper is judged where it is called, as long as only the type's own operations call it
        if not f.get('pub') and all(ok for _, ok in entries(ck.e, f['key'], lambda g: g.get('pub') and g['key'] in ks)): continue
        for p in ck.paths(f, args=[SELF] + [S('b%d' % k) for k in range(2, b['argc'] + 1)]):
            if p.kind != 'ret': continue
            # the order is nobody's concern until the defense is built
            bad = [d for d in diffs(selfval(p.st), SELF) if (d[0][:len(slot)] == slot or slot[:len(d[0])] == d[0]) and unsorted(d[1]) != at(SELF, d[0])]
            ck.ob(rule, '%s::%s' % (adt.split('::')[-1], f['name']), not bad, 'changes %s' % what, f.get('span'))

def keeps(ck, w, p, slots, f):
    v = selfval(p.st)
    ck.ob('a builder keeps what it was given', w, all(at(v, s) == at(SELF, s) for s in slots), 'building again gives something else', f.get('span'))

def c08(ck):
    t = ck.field(LV, 'visitor_threshold'); d = ck.field(LV, 'difficulty_factor')
    r = Roles(ck)
    # --- a level
    ct = setter(ck, LB, 'visitor_threshold', None)
    cd = setter(ck, LB, 'difficulty_factor', 'maybe')
    f = ck.method(LB, 'difficulty_factor')
    setpos = all(p.st.facts.ev(lt(I(0), S('given'))) is True for p in ck.paths(f, args=[SELF, S('given')]) if p.kind == 'ret' and diffs(selfval(p.st), SELF))
    for p in ck.paths(f, args=[SELF, S('given')]):
        if p.kind == 'ret' and iserr(p.st.snap(p.val)):
            ck.ob('valid levels are not refused', 'LevelBuilder::difficulty_factor', p.st.facts.ev(lt(I(0), S('given'))) is not True, 'a positive difficulty is refused', f.get('span'))
    for g, v in initial(ck, LB):
        ck.ob('a level starts unset', g['name'], at(v, ct) == none and at(v, cd) == none, 'the level builder starts with values set', g.get('span'))
        ck.ob('a level starts unset', g['name'] + ': both', True)
    untouched(ck, LB, cd, ('difficulty_factor', 'build'), 'difficulty set only by its setter', 'the difficulty')
    untouched(ck, LB, ct, ('visitor_threshold', 'build'), 'threshold set only by its setter', 'the threshold')
    f = ck.method(LB, 'build')
    n = 0
    for p in ck.paths(f, args=[SELF]):
        if not ck.ob('no panic', 'LevelBuilder::build', p.kind == 'ret', 'a path panics', pspan(p)): continue
        v = p.st.snap(p.val)
        vt, vd = at(SELF, ct), at(SELF, cd)
        keeps(ck, 'LevelBuilder::build', p, (ct, cd), f)
        both = p.st.facts.var.get(vt) == 1 and p.st.facts.var.get(vd) == 1
        if isok(v):
            n += 1
            ck.ob('a level needs both values', 'LevelBuilder::build', both, 'a level is built with a value unset', f.get('span'))
            x = v[3][0]
            ck.ob('exactly the values set', 'LevelBuilder::build', get(x, ('f', t, None)) == get(vt, ('f', 0, 1)) and get(x, ('f', d, None)) == get(vd, ('f', 0, 1)), 'the level is %s' % show(x), f.get('span'))
            ck.ob('difficulty above zero', 'LevelBuilder::build', setpos or p.st.facts.ev(lt(I(0), get(vd, ('f', 0, 1)))) is True, 'a level of difficulty zero can be built', f.get('span'))
        else:
            ck.ob('valid levels are not refused', 'LevelBuilder::build', not both or p.st.facts.ev(lt(I(0), get(vd, ('f', 0, 1)))) is False, 'a level with both values is refused', f.get('span'))
    ck.need(n, 'a successful path of LevelBuilder::build')
    # --- a defense
    f = ck.method(DB, 'add_level')
    lev = S('level')
    slot = None; distinct = True; n = 0
    for p in ck.paths(f, args=[SELF, lev]):
        if not ck.ob('no panic', 'DefenseBuilder::add_level', p.kind == 'ret', 'a path panics', pspan(p)): continue
        v = p.st.snap(p.val)
        ds = diffs(selfval(p.st), SELF)
        if iserr(v):
            ck.ob('a refused level is not added', 'add_level', not ds, 'the builder changes although an error is returned', f.get('span')); continue
        good = len(ds) == 1 and ds[0][1] == ('vpush', at(SELF, ds[0][0]), lev)
        ck.ob('exactly the levels added', 'add_level', good, 'the level is not appended to the levels, or other things change', f.get('span'))
        if not good: continue
        n += 1
        slot = ds[0][0]
        seq = at(SELF, slot)
        if not forall(ck.e, p, ('len', seq), lambda i: neg(ieq(get(('elem', seq, i), ('f', t, None)), get(lev, ('f', t, None))))): distinct = False
    ck.need(n, 'a successful path of add_level')
    seq = at(SELF, slot)
    for g, v in initial(ck, DB):
        ck.ob('a defense starts without levels', g['name'], at(v, slot) == ('vempty',), 'the builder starts with %s' % show(at(v, slot)), g.get('span'))
    untouched(ck, DB, slot, ('add_level', 'build'), 'exactly the levels added', 'the levels')
    f = ck.method(DB, 'build')
    n = 0
    for p in ck.paths(f, args=[SELF]):
        if not ck.ob('no panic', 'DefenseBuilder::build', p.kind == 'ret', 'a path panics (%s)' % (p.info or {}).get('msg'), pspan(p)): continue
        v = p.st.snap(p.val)
        after = at(selfval(p.st), slot)
        ck.ob('exactly the levels added', 'build keeps the builder\'s levels', unsorted(after) == seq, 'the builder loses levels', f.get('span'))
        if not isok(v):
            continue
        n += 1
        l, i = r.of(v[3][0])
        facts = p.st.facts
        ln = ('len', seq)
        ck.ob('exactly the levels added', 'build', unsorted(l) == seq, 'the defense has %s' % show(l), f.get('span'))
        ck.ob('starts at the most lenient level', 'build', i == I(0), 'the defense starts at %s' % show(i), f.get('span'))
        ck.ob('at least one level', 'build', facts.ev(le(I(1), ln)) is True, 'a defense without levels can be built', f.get('span'))
        E = lambda j, k: get(('elem', l, j), ('f', k, None))
        ck.ob('every difficulty above zero', 'build', forall(ck.e, p, ln, lambda j: lt(I(0), E(j, d))), 'no check of every level shows its difficulty to be above zero', f.get('span'))
        strict = forall(ck.e, p, ln, lambda j: lt(E(j, t), E(add(j, 1), t)), 1)
        asc = strict or sortkey(l) == get(('sym', '$elem'), ('f', t, None)) or forall(ck.e, p, ln, lambda j: le(E(j, t), E(add(j, 1), t)), 1)
        ck.ob('thresholds ascend', 'build', asc, 'the levels are not in ascending order of thresholds', f.get('span'))
        ck.ob('thresholds distinct', 'build', strict or distinct, 'nothing keeps two levels from having the same threshold', f.get('span'))
        ck.ob('difficulties never decrease', 'build', forall(ck.e, p, ln, lambda j: le(E(j, d), E(add(j, 1), d)), 1) or sortkey(l) == get(('sym', '$elem'), ('f', d, None)), 'no check of every neighbouring pair shows that difficulties never decrease', f.get('span'))
    ck.need(n, 'a successful path of DefenseBuilder::build')
    # --- a site
    cdef = setter(ck, MB, 'defense', None); cdur = setter(ck, MB, 'duration', 'maybe')
    from . import counter
    mr = counter.MRoles(ck)
    cnt = None
    f = ck.method(MB, 'build')
    n = 0
    inits = initial(ck, MB)
    for p in ck.paths(f, args=[SELF]):
        if not ck.ob('no panic', 'MCaptchaBuilder::build', p.kind == 'ret', 'a path panics', pspan(p)): continue
        v = p.st.snap(p.val)
        vdef, vdur = at(SELF, cdef), at(SELF, cdur)
        keeps(ck, 'MCaptchaBuilder::build', p, (cdef, cdur), f)
        both = p.st.facts.var.get(vdef) == 1 and p.st.facts.var.get(vdur) == 1
        inner = get(vdur, ('f', 0, 1))
        if isok(v):
            n += 1
            x = v[3][0]
            ck.ob('a site needs defense and duration', 'build', both, 'a site is built with a value unset', f.get('span'))
            ck.ob('duration above zero', 'build', p.st.facts.ev(lt(I(0), inner)) is True, 'a site with duration zero can be built', f.get('span'))
            ck.ob('exactly the values given', 'MCaptchaBuilder::build', at(x, mr.defense) == get(vdef, ('f', 0, 1)) and at(x, mr.duration) == inner, 'the site is %s' % show(x), f.get('span'))
            c = at(x, mr.count)
            z = c == I(0)
            if not z and c[0] == 'fld':
                q = topath(c)
                z = q is not None and all(at(iv, q) == I(0) for _, iv in inits)
                if z: untouched(ck, MB, q, (), 'a site starts with no visitors', 'the initial visitor count')
            ck.ob('a site starts with no visitors', 'build', z, 'the site starts with %s visitors' % show(c), f.get('span'))
        else:
            ck.ob('valid sites are not refused', 'build', not both or p.st.facts.ev(le(inner, I(0))) is True, 'a site with defense and positive duration is refused', f.get('span'))
    ck.need(n, 'a successful path of MCaptchaBuilder::build')
    for g, v in inits:
        ck.ob('a site starts unset', g['name'], at(v, cdef) == none and at(v, cdur) == none, 'the builder starts with values set', g.get('span'))
    only_made_by(ck, D, [(ck.method(DB, 'build'), None)])
    only_made_by(ck, MC, [(f, None)])

def eta(t):
    """a value rebuilt from all the components of one other value is that value"""
    if t[0] == 'agg' and len(t[3]) > 1:
        a = [eta(x) for x in t[3]]
        if all(x[0] == 'fld' and x[2] is None and x[3] == i and x[1] == a[0][1] for i, x in enumerate(a)): return a[0][1]
    return t

def topath(t):
    out = []; t = eta(t)
    while t != SELF:
        if t[0] != 'fld': return None
        out.append(('f', t[3], t[2])); t = t[1]
    return tuple(reversed(out))

def unsorted(l):
    while l[0] in ('sorted', 'vrev'): l = l[1]
    return l

def sortkey(l): return l[2] if l[0] == 'sorted' and len(l) > 2 else None

"""What holds for every element a loop has gone through, on paths that leave it when exhausted."""
from .engine import *
from .models import subst

def renorm(t):
    """components of what is put together"""
    if not isinstance(t, tuple): return t
    t = tuple(renorm(x) for x in t)
    if len(t) == 3 and t[0] == 'add' and isinstance(t[1], tuple) and isinstance(t[2], int): return add(t[1], t[2])
    if len(t) == 4 and t[0] == 'fld' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'agg': return get(t[1], ('f', t[3], t[2]))
    return t

def subst_facts(f, m):
    g = f.copy()
    def s(t):
        if t is None: return None
        for a, b in m: t = subst(t, a, b)
        return renorm(t)
    g.le = {}; g.ne = set(); g.bools = {}
    for (x, y), c in f.le.items():
        b = le2(s(x), s(y), c)
        if b[0] == 'bool':
            if not b[1]: g.bot = True
        else: g.add_le(b[1], b[2], b[3])
    for (x, y, c) in f.ne:
        b = ieq(add(s(x), -c) if x is not None else I(-c), s(y) if y is not None else I(0))
        if not g.bot: g.assume(b, False)
    for b, v in f.bools.items():
        if not g.bot: g.assume(s(b), v)
    return g

def le2(x, y, c): return le(I(0) if x is None else x, I(0) if y is None else y, c)

def loop_ids(ev):
    return [x[1] for x in ev if x[0] == 'loop']

def phi_slots(L):
    """(path, phi, value at entry) of everything that changes in the loop"""
    for r, v in L.head.mem.items():
        for path, phi in phis_in(v, L.id, (r,)):
            yield path, phi, at_path(L.entry, path)

def live_iters(eng, L, facts):
    """iterations compatible with having left the loop with these facts: a flag once set stays set"""
    slots = list(phi_slots(L))
    drop = set()
    for path, q, init in slots:
        ends = [at_path(s, path) for s in L.iters]
        if any(x is None for x in ends): continue
        for n, x in enumerate(ends):
            if x[0] == 'bool' and all(y == q or y == x for y in ends) and facts.ev(q) is (not x[1]):
                drop.add(n); drop.update(m for m, s in enumerate(L.iters) if s.facts.ev(q) is x[1])
            if x[0] == 'agg' and not x[3] and False: pass
            b, d = lin(x)
            if b == q and d > 0 and init is not None and all(lin(y)[0] == q and lin(y)[1] >= 0 for y in ends) and facts.ev(le(q, init)) is True: drop.add(n)
            # an option that was None at first, becomes Some for good, and is None at the end
            if x[0] == 'agg' and x[1] == OPT and x[2] == 1 and all(y == q or (y[0] == 'agg' and y[1] == OPT and y[2] == 1) for y in ends) and facts.var.get(q) == 0: drop.add(n)
    return [s for n, s in enumerate(L.iters) if n not in drop]

def counters(eng, L):
    """(phi, first value) of what goes up by one in every iteration"""
    out = []
    for path, q, init in phi_slots(L):
        if init is None or not L.iters: continue
        if all(at_path(s, path) == add(q, 1) for s in L.iters): out.append((q, init))
    return out

def trail(L, q):
    """values that lag one iteration behind: [(phi, value of the previous iteration)] in terms of q-1"""
    out = []
    for path, x, init in phi_slots(L):
        if x == q: continue
        ends = {None if at_path(s, path) is None else s.snap(at_path(s, path)) for s in L.iters}
        if len(ends) != 1: continue
        v = ends.pop()
        if v is None or not contains(v, q) or contains(v, x): continue
        out.append((x, subst(v, q, add(q, -1))))
    return out

def informed(eng, p, f, i):
    """facts f together with what the loops path p has gone through to the end say of element i"""
    for lid in loop_ids(p.ev):
        L = eng.loops[lid]
        its = live_iters(eng, L, p.st.facts)
        if len(its) != 1: continue
        for q, init in counters(eng, L):
            if f.bot: return f
            if init != I(0) or p.st.facts.ev(lt(i, q)) is not True: continue
            its0 = its[0].facts
            only = lambda t: t is None or not any(u and u[0] == 'phi' and u[1] == lid and u != q for u in subterms(t))
            f = f.copy()
            for (x, y), c in its0.le.items():
                if f.bot or not (only(x) and only(y)): continue
                b = le2(*(None if t is None else renorm(subst(t, q, i)) for t in (x, y)), c)
                f.assume(b, True)
    return f

def lagging(eng, p):
    """the facts of a path, said of the elements themselves where the loop remembers the previous one"""
    out = [p.st.facts]
    for lid in loop_ids(p.ev):
        L = eng.loops[lid]
        inits = {q: init for _, q, init in phi_slots(L)}
        for q, init in counters(eng, L):
            if init[0] != 'int': continue
            same = [(x, add(q, i[1] - init[1])) for x, i in counters(eng, L) if x != q and i[0] == 'int']
            if same: out.append(subst_facts(p.st.facts, same))
            for x, v in trail(L, q):
                i = inits.get(x); f = p.st.facts
                # not the first time round
                later = f.ev(lt(init, q)) is True or (v[0] == 'agg' and i is not None and i[0] == 'agg' and f.var.get(x) == v[2] != i[2])
                # what it starts with is what came before the first turn
                if not later and i is not None: later = renorm(subst(v, q, init)) == i
                if not later and i is not None and i[0] in ('int', 'bool', 'str'): later = informed(eng, p, subst_facts(f, [(q, init), (x, i)]), init).bot
                if later: out.append(subst_facts(f, [(x, v)]))
    return out

def witnessed(eng, p):
    """[[facts]]: each group says what was so of some elements gone through: the way the path left a loop itself, or
    that a flag it found set was set by one of these turns"""
    out = [[f] for f in lagging(eng, p)]
    for lid in loop_ids(p.ev):
        L = eng.loops[lid]
        for path, q, init in phi_slots(L):
            if init is None or init[0] != 'bool' or p.st.facts.ev(q) is not (not init[1]): continue
            grp = []; good = True
            for s in L.iters:
                v = at_path(s, path)
                if v == q or v == init: continue
                if v is None or v[0] != 'bool': good = False; break
                grp.append(s)
            # each turn's own facts, and what it remembers of the one before
            for f in zip(*[told_of(eng, L, s) for s in grp]) if good and grp else ():
                out.append(list(f))
    return out

def told_of(eng, L, s):
    class P: pass
    x = P(); x.st = s; x.ev = (('loop', L.id),)
    l = lagging(eng, x)
    return l[:1] + (l[1:] or l[:1])[:1]

def forall(eng, p, n, pred, upto=0):
    """pred(i) holds for every i with 0 <= i < n - upto, as the loops path p has gone through show"""
    for lid in loop_ids(p.ev):
        L = eng.loops[lid]
        its = live_iters(eng, L, p.st.facts)
        for q, init in counters(eng, L):
            if init[0] != 'int': continue
            k = init[1]
            # what else goes up in step is said in terms of q
            same = [(x, add(q, i[1] - k)) for x, i in counters(eng, L) if x != q and i[0] == 'int']
            told = (lambda f: subst_facts(f, same)) if same else (lambda f: f)
            left = told(p.st.facts)
            # straightforward: q runs over k .. and the loop ended with q >= n - upto
            for shift in (0, 1):
                # pred is shown for q - shift
                if k - shift > 0: continue
                if left.ev(le(add(n, shift - upto), q)) is not True: continue
                good = True
                for s in its:
                    f = told(s.facts)
                    if f.ev(pred(add(q, -shift))) is True: continue
                    if shift:
                        m = [(x, v) for x, v in trail(L, q)]
                        g = subst_facts(f, [(x, v) for x, v in m])
                        for x, v in m:
                            if v[0] == 'agg' and f.var.get(x) is not None and f.var[x] != v[2]: g.bot = True
                        if k - shift < 0:
                            # the first iteration has no predecessor and claims nothing
                            if not g.bot: g.assume(lt(I(k), q), True)
                        if g.bot or g.ev(pred(add(q, -shift))) is True: continue
                    good = False; break
                if good and (its or True): return True
    return False

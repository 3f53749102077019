"""C25: a Redis server without the needed module or commands is refused at start-up."""
from ..core import *
from ..loops import phi_slots, loop_ids, counters, live_iters
from .queue import find
from .rediscmd import argv, CONN, norm
from .safety import MREDIS, segments, holds
S = lambda n: ('sym', n)
MODULE = 'mcaptcha_cache'
VALUE = 'redis::types::Value'

def text(ck, p, v):
    """constant text of a value, references resolved"""
    v = norm(p.st.deep(v) if v[0] == 'ref' else v)
    return v[1] if v[0] == 'str' else None

def mentions(t, x):
    if t == x: return True
    return isinstance(t, tuple) and any(isinstance(y, tuple) and mentions(y, x) for y in t)

def names_module(b): return any(s[1] == MODULE for s in find(b, 'str'))

def hits(facts, r, want):
    """facts that some part of reply r names the module (want) or that it doesn't (not want)"""
    return [b for b, v in facts.bools.items() if v is want and b[0] in ('strop', 'eq', 'streq', 'seq_contains') or False
            if names_module(b) and mentions(b, r)]

def found(ck, p, r):
    f = p.st.facts
    if hits(f, r, True): return True
    for lid in loop_ids(p.ev):
        L = ck.e.loops[lid]
        for path, q, init in phi_slots(L):
            if f.ev(q) is not True or init != ('bool', False): continue
            good = True
            for s in L.iters:
                end = at_path(s, path)
                if end == q: continue
                if end == ('bool', True) and hits(s.facts, r, True): continue
                if isinstance(end, tuple) and end[0] == 'or' and q in end[1:] and all(x == q or (names_module(x) and mentions(x, r)) for x in end[1:]): continue
                if names_module(end) and mentions(end, r): good = False; continue     # the last element decides alone
                good = False
            if good: return True
        # a count of matches above zero
        for path, q, init in phi_slots(L):
            if init != I(0) or f.ev(lt(I(0), q)) is not True: continue
            if all(at_path(s, path) == q or hits(s.facts, r, True) for s in L.iters) and any(at_path(s, path) == q for s in L.iters): return True
    return False

def absent(ck, p, r):
    """the whole list was searched and no element named the module; or the reply is no list"""
    f = p.st.facts; val = get(r, ('f', 0, 0))
    arr = variant_of(ck, 'Array')
    if arr is None: return False
    if f.var.get(val) is not None and f.var.get(val) != arr: return True
    if f.var.get(val) is None and arr in f.nvar.get(val, ()): return True
    l = get(val, ('f', 0, arr))
    if any(not find(b, 'elem') and not find(b, 'phi') for b in hits(f, r, False)): return True
    for lid in loop_ids(p.ev):
        L = ck.e.loops[lid]
        its = live_iters(ck.e, L, f)
        for q, init in counters(ck.e, L):
            if init != I(0): continue
            if f.ev(le(('len', l), q)) is not True: continue
            if all(any(mentions(b, ('elem', l, q)) for b in hits(s.facts, r, False)) for s in its): return True
    if f.ev(le(('len', l), I(0))) is True: return True
    return False

def variant_of(ck, name):
    return {'Nil': 0, 'Int': 1, 'BulkString': 2, 'Array': 3, 'SimpleString': 4, 'Okay': 5}[name]

def isnil(ck, facts, r):
    """the reply to COMMAND INFO reports the command as missing"""
    val = get(r, ('f', 0, 0)); arr = variant_of(ck, 'Array')
    if facts.var.get(val) is not None and facts.var[val] != arr: return True
    if facts.var.get(val) is None and arr in facts.nvar.get(val, ()): return True
    l = get(val, ('f', 0, arr))
    if facts.ev(le(('len', l), I(0))) is True: return True
    return any(t[0] == 'elem' and t[1] == l and v == 0 for t, v in facts.var.items())

def present(ck, facts, r):
    """... as present: its one element is something"""
    if facts.var.get(r) != 0: return False
    val = get(r, ('f', 0, 0)); arr = variant_of(ck, 'Array')
    if facts.var.get(val) != arr: return False
    l = get(val, ('f', 0, arr))
    for t, v in facts.var.items():
        if t[0] == 'elem' and t[1] == l and v != 0: return True
    for t, vs in facts.nvar.items():
        if t[0] == 'elem' and t[1] == l and 0 in vs: return True
    return any(b[0] in ('eq', 'ne') and find(b, 'elem') and mentions(b, l) and ((b[0] == 'eq') is not v) for b, v in facts.bools.items())

def probes(ck, p, evs, facts):
    """[(names or (array, counter), reply, facts)] of COMMAND INFO"""
    out = []
    for x in evs:
        if x[0] != 'redis': continue
        a = argv(x)
        if not a: continue
        t = [text(ck, p, y) for y in a]
        if t[0] != 'COMMAND' or len(a) < 3 or (t[1] or '').upper() != 'INFO': continue
        out.append((a[2:], x[3], facts, x))
    return out

def probed(ck, p):
    """names of the commands the server reported as present on this path"""
    names = set()
    for a, r, facts, x in probes(ck, p, p.ev, p.st.facts):
        if present(ck, facts, r) and len(a) == 1:
            t = text(ck, p, a[0])
            if t: names.add(t)
    for lid in loop_ids(p.ev):
        L = ck.e.loops[lid]
        its = live_iters(ck.e, L, p.st.facts)
        for q, init in counters(ck.e, L):
            if init != I(0): continue
            arrs = []
            for s in its:
                got = None
                for a, r, facts, x in probes(ck, p, list(ck.unroll(s.ev)), s.facts):
                    el = a[0] if len(a) == 1 else None
                    if el is not None and el[0] == 'ref': el = p.st.deep(el)
                    if el is not None and el[0] == 'elem' and el[2] == q and present(ck, facts, r): got = el[1]
                arrs.append(got)
            if not arrs or any(a is None or a != arrs[0] for a in arrs): continue
            arr = arrs[0]
            class At: st = L.entry
            els = elements(At, arr)
            if els is None: continue
            if p.st.facts.ev(le(I(len(els)), q)) is not True: continue
            for y in els:
                t = text(ck, At, y)
                if t: names.add(t)
    return names

def elements(p, arr):
    v = p.st.deep(arr) if arr[0] == 'ref' else arr
    if v[0] in ('array', 'vec', 'list') : return list(v[1]) if len(v) > 1 and isinstance(v[1], tuple) and (not v[1] or isinstance(v[1][0], tuple)) else list(v[1:])
    if v[0] == 'agg': return list(v[3])
    return None

def used(ck):
    """the module's commands the library may send"""
    names = {}
    for f in ck.methods(CONN):
        for p in ck.paths(f):
            for x in ck.unroll(p.ev):
                if x[0] != 'redis': continue
                a = argv(x); t = text(ck, p, a[0]) if a else None
                if t and t.startswith('MCAPTCHA_CACHE.'): names[t] = f
    for f in ck.handlers(RCACHE) + ck.handlers(RMASTER):
        for p in ck.hpaths(f):
            for g in segments(ck, '', RCACHE, [p]):
                for x in ck.unroll(g.ev):
                    if x[0] != 'redis': continue
                    a = argv(x); t = text(ck, g, a[0]) if a else None
                    if t and t.startswith('MCAPTCHA_CACHE.'): names.setdefault(t, f)
    return names

def c25(ck):
    need = used(ck)
    ck.need(len(need) >= 7, 'the module commands the library sends (found %d)' % len(need))
    ck.notes['commands needed'] = sorted(need)
    NOTLOADED, NOTFOUND = ck.errvar('MCaptchaRedisModuleIsNotLoaded'), ck.errvar('MCaptchaRediSModuleCommandNotFound')
    RERR = ck.errvar('RedisError')
    ctors = []
    for f in ck.e.fns:
        if (f.get('impl') or {}).get('derived') or f['key'] not in ck.e.bodies: continue
        if builds(ck, f): ctors.append(f)
    for adt in (MREDIS, RCACHE, RMASTER):
        f = ck.method(adt, 'new')
        if f not in ctors: ctors.append(f)
    n = ok = 0
    for f in ctors:
        nm = f['key'].replace('crate::', '').replace('::{closure#0}', '')
        for p in ck.paths(f):
            if p.kind != 'ret': continue
            v = p.st.snap(p.val); n += 1
            lists = []
            cms = [(x, argv(x)) for x in ck.unroll(p.ev) if x[0] == 'redis']
            lists = [x for x, a in cms if a and (text(ck, p, a[0]) or '').upper() == 'MODULE' and len(a) > 1 and (text(ck, p, a[1]) or '').upper() == 'LIST']
            good = not (v[0] == 'agg' and v[1] == RES and v[2] == 1)
            if good:
                ok += 1
                ck.ob('only with the module loaded', nm, any(p.st.facts.var.get(x[3]) == 0 and found(ck, p, x[3]) for x in lists), 'a connection is handed out although the server did not list the module %s' % MODULE, f.get('span'))
                have = probed(ck, p)
                for c in sorted(need):
                    ck.ob('only with every command present', '%s: %s' % (nm, c), c in have, 'a connection is handed out although the server was not found to know %s, which %s sends' % (c, need[c]['name']), f.get('span'))
                continue
            e = v[3][0]
            last = [x for x in p.ev if x[0] == 'redis']
            if not last:
                ck.ob('a failure to connect is reported', nm, e[0] == 'agg' and e[2] == RERR if e[0] == 'agg' else True, 'a failure before any probe is reported as %s' % show(e), f.get('span')); continue
            x = last[-1]; a = argv(x); fa = p.st.facts; t0 = (text(ck, p, a[0]) or '').upper() if a else ''
            if fa.var.get(x[3]) == 1:
                ck.ob('a Redis error is reported as such', nm, e[0] == 'agg' and e[1] == ERR and e[2] == RERR and e[3] == (get(x[3], ('f', 0, 1)),), 'a Redis error during the check is reported as %s' % show(e), where(x)); continue
            if t0 == 'MODULE':
                ck.ob('a missing module has its own error', nm, e[0] == 'agg' and e[1] == ERR and e[2] == NOTLOADED, 'a missing module is reported as %s' % show(e), where(x))
                ck.ob('refused only after the whole list was searched', nm, absent(ck, p, x[3]), 'the server is refused although a module of its list may be %s' % MODULE, where(x))
            elif t0 == 'COMMAND':
                arg = a[2] if len(a) > 2 else None
                inner = e[3][0] if e[0] == 'agg' and e[3] else None
                ck.ob('a missing command has its own error', nm, e[0] == 'agg' and e[1] == ERR and e[2] == NOTFOUND and same(p, inner, arg), 'a missing command is reported as %s' % show(e), where(x))
                ck.ob('refused only when a command is missing', nm, isnil(ck, fa, x[3]), 'the server is refused although it reported the command as present', where(x))
            else:
                ck.ob('refused only by the check', nm, False, 'the server is refused after %s' % show(x[2]), where(x))
    ck.need(ok >= 3 and n >= 12, 'the ways in which connecting ends (found %d, %d successful)' % (n, ok))

def same(p, a, b):
    if a is None or b is None: return False
    d = lambda v: norm(p.st.deep(v) if v[0] == 'ref' else v)
    a, b = d(a), d(b)
    if a == b: return True
    if a[0] == 'to_string': return d(a[1]) == b
    return False

def builds(ck, f):
    """the function itself makes a module connection (or a component) out of nothing that was checked"""
    keys = [f['key']] + [k for k in ck.e.bodies if k.startswith(f['key'] + '::{closure')]
    for k in keys:
        for blk in ck.e.bodies[k]['blocks']:
            for s in blk[0]:
                r = s.get('r') if isinstance(s, dict) else None
                if r and r[0] == 'agg' and isinstance(r[1], dict) and r[1].get('adt') == MREDIS: return True
    return False

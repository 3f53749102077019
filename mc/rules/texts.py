"""C44: the text of an error tells which error it is."""
from ..core import *

CERR = 'crate::errors::CaptchaError'
DISP = 'core::fmt::Display'
ME, F = ('sym', 'error'), ('sym', 'formatter')

def flat(t):
    """a text as literals and holes"""
    if t[0] == 'str': return [t[1]]
    if t[0] == 'concat': return [y for x in t[1:] for y in flat(x)]
    if t[0] == 'fmtargs': return flat(t[1])
    if t[0] in ('shown', 'tostring', 'display'): return flat(t[1])
    return [t]

def onfmt(x): return 'core::fmt::Formatter::' in x[1] or any(contains(a, F) for a in x[2])

def written(ck, st, ev):
    """the pieces written to the formatter on a path: literals and holes, or None if that is not known"""
    out = []
    for x in ck.unroll(ev):
        if x[0] != 'call' or not onfmt(x): continue
        n = x[1].split('::<')[0].split('::')[-1]
        args = [a for a in x[2] if a != F and not (a[0] == 'ret' and a[2] == 'havoc')]
        if n in ('write_fmt', 'write_str', 'pad', 'write_char', 'fmt') and len(args) == 1: out += flat(st.snap(args[0]))
        else: return None
    r = []
    for y in out:
        if r and isinstance(y, str) and isinstance(r[-1], str): r[-1] += y
        else: r.append(y)
    return r

def ends(t):
    """(what it surely begins with, what it surely ends with, whether it has holes)"""
    return (t[0] if t and isinstance(t[0], str) else ''), (t[-1] if t and isinstance(t[-1], str) else ''), any(not isinstance(x, str) for x in t)

def apart(a, b):
    """no way of filling the holes makes the texts the same"""
    pa, sa, ha = ends(a); pb, sb, hb = ends(b)
    if not ha and not hb: return pa != pb
    n = min(len(pa), len(pb)); m = min(len(sa), len(sb))
    if pa[:n] != pb[:n] or m and sa[-m:] != sb[-m:]: return True
    if not ha and len(pa) < sum(len(x) for x in b if isinstance(x, str)): return True
    if not hb and len(pb) < sum(len(x) for x in a if isinstance(x, str)): return True
    return False

def c44(ck):
    e = ck.e
    a = ck.need(e.adts.get(CERR), 'the error type')
    vs = a['variants']
    fs = [f for f in e.fns if (f.get('impl') or {}).get('self_adt') == CERR and (f['impl'].get('trait') or '') == DISP and f['key'] in e.bodies]
    ck.need(len(fs) == 1, 'the text of an error')
    f = fs[0]
    texts = {}
    for p in ck.paths(f, args=[ME, F]):
        v = p.st.facts.var.get(ME)
        nm = vs[v]['name'] if v is not None else 'any'
        if not ck.ob('every error can be shown', nm, p.kind == 'ret', 'showing the error panics', pspan(p) or f['span']): continue
        # what the formatter refuses to write is not the library's doing
        t = written(ck, p.st, p.ev)
        if not ck.ob('every error can be shown', '%s: text' % nm, t is not None and v is not None, 'what is written for the error is not known', f['span']): continue
        if any(x[0] == 'call' and p.st.facts.var.get(x[3]) == 1 and onfmt(x) for x in ck.unroll(p.ev)): continue
        texts.setdefault(v, [])
        if t not in texts[v]: texts[v].append(t)
    for v, d in enumerate(vs):
        nm = d['name']
        ts = texts.get(v) or []
        if not ck.ob('one text for each error', nm, len(ts) == 1, 'the error has %d texts' % len(ts), f['span']): continue
        t = ts[0]
        ck.ob('no error is silent', nm, bool(t) and any(x.strip() if isinstance(x, str) else True for x in t), 'the error has no text', f['span'])
        for i in range(len(d['fields'])):
            h = get(ME, ('f', i, v))
            ck.ob('what an error carries is told', nm, any(not isinstance(x, str) and contains(x, h) for x in t), 'the text of %s does not tell what it carries' % nm, f['span'])
        for x in t:
            if not isinstance(x, str): ck.ob('nothing else is told', nm, any(contains(x, get(ME, ('f', i, v))) for i in range(len(d['fields']))), 'the text of %s tells %s' % (nm, show(x)), f['span'])
        if t and all(not isinstance(x, str) for x in t): continue      # the failure's own text
        for w in range(v):
            for u in texts.get(w) or []:
                if all(not isinstance(x, str) for x in u): continue
                ck.ob('no two errors share a text', '%s, %s' % (vs[w]['name'], nm), apart(u, t), '%s and %s have the same text' % (vs[w]['name'], nm), f['span'])
    ck.notes['errors'] = len(vs)

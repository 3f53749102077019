"""C41: equal exactly if the same in every part."""
import re
from ..core import *

PEQ = 'core::cmp::PartialEq'
INTS = ('u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize')

def same(ck, facts, x, y, ty, depth=5):
    """whether the two values are the same, as far as the path knows: True, False or None"""
    e = ck.e
    if x == y: return True
    def parts(l):
        if any(b is False for b in l): return False
        return True if all(b is True for b in l) else None
    vx, vy = facts.var.get(x), facts.var.get(y)
    m = re.match(r'^core::option::Option<(.*)>$', ty)
    if m:
        if vx is not None and vy is not None:
            if vx != vy: return False
            if vx == 0: return True
            return same(ck, facts, get(x, ('f', 0, 1)), get(y, ('f', 0, 1)), m.group(1), depth - 1)
        nx, ny = facts.nvar.get(x, ()), facts.nvar.get(y, ())
        if vx is not None and vx in ny or vy is not None and vy in nx: return False
        return facts.ev(eq(x, y))
    item, a = e.items.get(ty.split('<')[0]), e.adts.get(ty.split('<')[0])
    if item and a and depth:
        if a['kind'] == 'struct':
            r = parts([same(ck, facts, get(x, ('f', i, None)), get(y, ('f', i, None)), f['ty'], depth - 1) for i, f in enumerate(item['fields'])])
            return r if r is not None else facts.ev(eq(x, y))
        if vx is not None and vy is not None:
            if vx != vy: return False
            n = sum(len(v['fields']) for v in a['variants'][:vx])
            return parts([same(ck, facts, get(x, ('f', i, vx)), get(y, ('f', i, vx)), item['fields'][n + i]['ty'], depth - 1) for i in range(len(a['variants'][vx]['fields']))])
        nx, ny = facts.nvar.get(x, ()), facts.nvar.get(y, ())
        if vx is not None and vx in ny or vy is not None and vy in nx: return False
        return facts.ev(eq(x, y))
    r = facts.ev(ieq(x, y)) if ty in INTS else None
    return r if r is not None else facts.ev(eq(x, y))

def c41(ck):
    e = ck.e; e.items = {i['path']: i for i in e.F['items']}
    n = 0; types = []
    X, Y = ('sym', 'x'), ('sym', 'y')
    for f in e.fns:
        im = f.get('impl') or {}
        if im.get('trait') != PEQ or f['name'] not in ('eq', 'ne') or f['key'] not in e.bodies: continue
        ta = im.get('trait_args') or []
        me = im.get('self_adt')
        if not me or len(ta) != 2 or ta[0] != ta[1] or me not in e.items: continue
        if f['name'] == 'eq': types.append(me.split('::')[-1])
        w = '%s == %s' % ((me.split('::')[-1],) * 2) if f['name'] == 'eq' else '%s != %s' % ((me.split('::')[-1],) * 2)
        for p in ck.paths(f, args=[X, Y]):
            if not ck.ob('comparing does not fail', w, p.kind == 'ret', 'comparing panics', pspan(p) or f['span']): continue
            for s, t in e.split(p.st, p.val):
                if s.facts.bot: continue
                n += 1
                r = same(ck, s.facts, X, Y, me)
                yes = t == (f['name'] == 'eq')
                if yes: ck.ob('equal means the same in every part', w, r is True, 'two values of %s are called equal although a part of them may differ' % me, f['span'])
                else: ck.ob('the same in every part means equal', w, r is False, 'two values of %s are called different although they may agree in every part' % me, f['span'])
    ck.need('Level' in types and 'Defense' in types, 'comparison of levels and of defenses')
    ck.notes['types compared'] = sorted(types); ck.notes['outcomes judged'] = n

"""C34: what is written out is read back into the same place: every field, under its own name and position."""
from ..core import *
from ..loops import *
from .system import isok

S = lambda n: ('sym', n)
SER, DE, VIS = 'serde::ser::Serialize', 'serde::de::Deserialize', 'serde::de::Visitor'
PARTS = ('serialize_field', 'skip_field', 'serialize_element', 'serialize_entry', 'serialize_key', 'serialize_value')

def impls(ck, trait):
    out = {}
    for f in ck.e.fns:
        im = f.get('impl') or {}
        if im.get('trait') == trait: out.setdefault(im.get('self_adt'), {})[f['path'].split('::')[-1]] = f
    return out

def calls(ev): return [x for x in ev if x[0] == 'call']
def tail(x): return x[1].split('::')[-1]

def written(ck, adt, f, root=SELF):
    """[(path, kind, [(name or None, field number, optional?)])] of every complete writing of a value"""
    out = []
    for p in ck.paths(f):
        if p.kind != 'ret': continue
        v = p.st.snap(p.val)
        last = ck.e.calls.get(v[1]) if v[0] == 'ret' else None
        if isok(v): last = ('end', ())
        if last is None: continue                   # an error handed on
        n = last[0].split('::')[-1]
        def fieldno(x):
            while x[0] in ('ref',): x = p.st.snap(p.st.load(x))
            return x[3] if x[0] == 'fld' and x[1] == root else None
        cs = calls(p.ev)
        if n == 'end':
            o = []
            for x in cs:
                if tail(x) not in PARTS: continue
                if tail(x) == 'skip_field': continue
                a = x[2]
                if len(a) == 3: o.append((a[1][1] if a[1][0] == 'str' else None, fieldno(a[2]), x))
                else: o.append((None, fieldno(a[1]), x))
            kind = 'struct' if any(tail(x) == 'serialize_struct' for x in cs) else 'tuple'
            out.append((p, kind, o))
        elif n == 'serialize_newtype_struct': out.append((p, 'newtype', [(None, fieldno(last[1][2]), None)]))
        elif n in ('serialize_unit_struct',): out.append((p, 'unit', []))
        elif n.startswith('serialize') and any(fieldno(y) is not None for y in last[1]):
            out.append((p, 'transparent', [(None, next(fieldno(y) for y in last[1] if fieldno(y) is not None), None)]))
        else: out.append((p, '?' + n, []))
    return out

LEVELS = {'next_element': 2, 'next_element_seed': 2}
def origin(ck, t, names):
    """the call of one of the names whose answer's success part t is: exactly what was read, nothing done to it"""
    x = t; d = 0
    while x[0] == 'fld': x = x[1]; d += 1
    c = ck.e.calls.get(x[1]) if x[0] == 'ret' else None
    n = c[0].split('::')[-1] if c else None
    return (x, c) if n in names and d == LEVELS.get(n, 1) else None

def c34(ck):
    e = ck.e
    ser, de, vis = impls(ck, SER), impls(ck, DE), impls(ck, VIS)
    ftypes = {i['path']: [x.get('ty', '') for x in i['fields']] for i in e.F['items'] if i.get('fields') and isinstance(i['fields'][0], dict)}
    n = 0
    for adt in sorted(a for a in ser if a in de and a in e.adts):
        short = adt.replace('crate::', '')
        a = e.adts[adt]
        f, g = ser[adt].get('serialize'), de[adt].get('deserialize')
        if not f or not g: continue
        if len(a['variants']) != 1: continue
        names = a['variants'][0]['fields']
        types = ftypes.get(adt, [])
        W = written(ck, adt, f)
        if len(names) == 1 and types and types[0] in ser and 'serialize' in ser[types[0]]:
            # a wrapper written as what it wraps
            inner = ('fld', SELF, None, 0)
            V = written(ck, adt, f, inner)
            own = written(ck, types[0], ser[types[0]]['serialize'])
            if V and all(k == 'struct' for p, k, o in V) and [[x[:2] for x in o] for p, k, o in V] == [[x[:2] for x in o] for p, k, o in own]:
                n += 1; reading(ck, adt, short, names, 'transparent', [(None, 0)], g, vis); continue
        if not ck.ob('written field by field', short, bool(W) and all(not k.startswith('?') for p, k, o in W), 'how a %s is written is not followed' % short, f.get('span')): continue
        n += 1
        for p, k, o in W:
            for i, nm in enumerate(names):
                c = [x for x in o if x[1] == i]
                if len(c) == 0 and i < len(types) and absent(p, str(types[i]), i): continue
                ck.ob('every field is written once', short + '.' + nm, len(c) == 1, 'written %d times' % len(c), f.get('span'))
            stray = [x for x in o if x[1] is None]
            ck.ob('what is written is the field itself', short, not stray, 'something else than a field is written%s' % (' under ' + repr(stray[0][0]) if stray else ''), f.get('span'))
            if k == 'struct': ck.ob('names are distinct', short, len({x[0] for x in o}) == len(o) and all(x[0] for x in o), 'two fields share a name', f.get('span'))
        full = max(W, key=lambda x: len(x[2]))
        kind, order = full[1], [(x[0], x[1]) for x in full[2]]
        reading(ck, adt, short, names, kind, order, g, vis)
    ck.need(n, 'a type that is written out and read back')

def absent(p, ty, i):
    """the field is an option, and none on this path"""
    return 'option::Option<' in ty and any(k[0] == 'fld' and k[1] == SELF and k[3] == i and v == 0 for k, v in p.st.facts.var.items())

def visitor(ck, v):
    """the visitor handed to the deserializer: its type"""
    return v[1] if v[0] == 'agg' else None

def reading(ck, adt, short, names, kind, order, g, vis):
    e = ck.e; sp = g.get('span')
    n = 0
    for p in ck.paths(g):
        if p.kind != 'ret': continue
        v = p.st.snap(p.val)
        c = e.calls.get(v[1]) if v[0] == 'ret' else None
        if c is None and isok(v) and v[3][0][0] == 'agg' and v[3][0][1] == adt and kind in ('transparent', 'newtype'):
            w = v[3][0][3]
            o = origin(ck, w[0], INNER) if len(w) == 1 else None
            ck.ob('read back from the data', short, o is not None, 'what is read back is %s' % show(v), sp); n += 1; continue
        if c is None:
            ck.ob('read back from the data', short, v[0] == 'agg' and v[1] == RES and v[2] == 1, 'what is read back is %s' % show(v), sp); continue
        V = next((visitor(ck, x) for x in c[1] if visitor(ck, x) in vis), None)
        if not ck.ob('read field by field', short, V is not None, 'how a %s is read is not followed' % short, sp): continue
        n += 1
        ms = vis[V]
        want = {'struct': ('visit_map', 'visit_seq'), 'tuple': ('visit_seq',), 'newtype': ('visit_newtype_struct', 'visit_seq'), 'unit': ('visit_unit',), 'transparent': ()}[kind]
        for m in want: ck.ob('read field by field', short + ' ' + m, m in ms or kind == 'struct' and m == 'visit_seq', 'a %s that was written cannot be read' % short, sp)
        if 'visit_newtype_struct' in ms:
            for q in ck.paths(ms['visit_newtype_struct']):
                w = built(q, adt)
                if w is None: continue
                o = origin(ck, w[0], INNER) if len(w) == 1 else None
                ck.ob('read back from the data', short, o is not None, 'field %s is %s' % (names[0], show(w[0]) if w else '?'), sp)
        if 'visit_seq' in ms:
            for q in ck.paths(ms['visit_seq']):
                w = built(q, adt)
                if w is None: continue
                els = []
                for x in calls(q.ev):
                    if tail(x) in ('next_element', 'next_element_seed') and x[3] not in els: els.append(x[3])
                for i, nm in enumerate(names):
                    pos = next((j for j, x in enumerate(order) if x[1] == i), None)
                    o = origin(ck, w[i], ('next_element', 'next_element_seed'))
                    ck.ob('read from its own position', short + '.' + nm, pos is not None and o is not None and o[0] in els and els.index(o[0]) == pos, 'field %s is %s' % (nm, show(w[i])), sp)
        if 'visit_map' in ms and kind == 'struct':
            mapped(ck, adt, short, names, order, ms['visit_map'], V, vis)
    ck.ob('read field by field', short + ' at all', n > 0, 'nothing reads it', sp)

INNER = ('deserialize', 'deserialize_struct', 'deserialize_newtype_struct', 'deserialize_tuple_struct', 'deserialize_string', 'deserialize_str', 'deserialize_map', 'deserialize_seq', 'deserialize_enum', 'deserialize_option', 'deserialize_u32', 'deserialize_u64', 'deserialize_bool')

def built(q, adt):
    """the fields of the value a reading path succeeds with"""
    if q.kind != 'ret': return None
    v = q.st.snap(q.val)
    if isok(v) and v[3][0][0] == 'agg' and v[3][0][1] == adt: return v[3][0][3]
    return None

def mapped(ck, adt, short, names, order, f, V, vis):
    e = ck.e; sp = f.get('span')
    # ---- which name stands for which key variant
    FV = next((a for a in vis if a and a.endswith('__FieldVisitor') and a.rsplit('::', 1)[0] == V.rsplit('::', 1)[0]), None)
    if not ck.ob('read field by field', short + ' names', FV is not None and 'visit_str' in vis[FV], 'how the names are told apart is not followed', sp): return
    key = {}
    for nm, i in order:
        got = set()
        for q in ck.paths(vis[FV]['visit_str']):
            v = q.st.snap(q.val) if q.kind == 'ret' else None
            if v is None or not isok(v): continue
            b = q.st.facts.bools
            if any(k[0] == 'eq' and ('str', nm) in k and t for k, t in b.items()): got.add(v[3][0][2] if v[3][0][0] == 'agg' else None)
        key[i] = got.pop() if len(got) == 1 else None
        ck.ob('a name is recognised', '%s.%s' % (short, names[i] if i is not None else nm), key[i] is not None, 'data written under %r is not recognised on reading' % nm, sp)
        if 'visit_u64' in vis[FV]:
            pos = [j for j, x in enumerate(order) if x[1] == i][0]
            g = vis[FV]['visit_u64']
            for q in ck.paths(g, args=[SELF, S('n')]):
                v = q.st.snap(q.val) if q.kind == 'ret' else None
                if v is None or not isok(v) or v[3][0][0] != 'agg' or v[3][0][2] != key[i]: continue
                t = q.st.facts.copy(); t.assume(ieq(S('n'), I(pos)), True)
                ck.ob('an index is recognised', '%s.%s' % (short, names[i] if i is not None else nm), not t.bot, 'index %d does not stand for it' % pos, sp)
    # ---- what is put where
    for q in ck.paths(f):
        w = built(q, adt)
        if w is None: continue
        Ls = [e.loops[x] for x in loop_ids(q.ev)]
        for i, nm in enumerate(names):
            t = w[i]
            o = origin(ck, t, ('missing_field',))
            if o is not None:
                # only an optional field is made out of nothing, by serde itself
                ck.ob('a missing field is an error', short + '.' + nm, o[1][1][-1] == ('str', next((x[0] for x in order if x[1] == i), None)), 'a missing field is taken for %s' % show(o[1][1][-1]), sp)
                continue
            base = t
            while base[0] == 'fld': base = base[1]
            L = next((l for l in Ls if base[0] == 'phi' and base[1] == l.id), None)
            if not ck.ob('read from the data', short + '.' + nm, L is not None and q.st.facts.var.get(base) == 1, 'field %s is %s' % (nm, show(t)), sp): continue
            good = False; why = 'nothing is stored in it'
            for s in L.iters:
                ks = [x for x in calls(s.ev) if tail(x) in ('next_key', 'next_key_seed')]
                kv = [b for b in s.facts.var if len(ks) == 1 and keyof(ck, b)]
                k = s.facts.var.get(kv[0]) if kv else None
                z = at_path(s, base[2])
                if z == base: continue
                o = origin(ck, z[3][0], ('next_value', 'next_value_seed')) if z is not None and z[0] == 'agg' and z[2] == 1 else None
                if o is None: good = False; why = 'what is stored in it is %s' % show(z); break
                if k is None or k != key.get(i): good = False; why = 'the data of another name is stored in it'; break
                good = True
            ck.ob('read from the data of its own name', short + '.' + nm, good, why, sp)

def keyof(ck, t):
    """the key inside what next_key answered"""
    if t[0] != 'fld' or t[1][0] != 'fld' or t[1][1][0] != 'ret': return False
    c = ck.e.calls.get(t[1][1][1])
    return bool(c) and c[0].split('::')[-1] in ('next_key', 'next_key_seed')

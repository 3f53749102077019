"""C27: what code outside the crate can reach (visibility, construction, mutation, unsafe code)."""
from ..core import *
import re

DEF = 'crate::defense::'
MC = 'crate::mcaptcha::'
CLONE, DE = 'core::clone::Clone', 'serde::de::Deserialize'
# types that show a whole table, and traits that are there to show what is inside
TABLE = ('Map<', 'Vec<', 'VecDeque<', 'Set<', 'Iter<', 'Keys<', 'Values<', '::Iterator')
READS = ('Deref', 'AsRef', 'Borrow', 'Index', 'IntoIterator')
LEAK = ('&mut ', '*mut ', 'IterMut<', 'ValuesMut<', 'RefMut<', 'MutexGuard<', 'RwLockWriteGuard<', 'Drain<', 'Entry<', 'RefCell<', 'Mutex<', 'RwLock<', 'UnsafeCell<')

def graph(e):
    """calls of the crate's own functions, closures counted as part of what makes them: {key: keys it may run}"""
    if '_cg' in e.__dict__: return e._cg
    ks = set(e.bodies)
    g = {}
    def walk(x, out):
        if isinstance(x, str):
            if x in ks: out.add(x)
        elif isinstance(x, list):
            for y in x: walk(y, out)
        elif isinstance(x, dict):
            for y in x.values(): walk(y, out)
    for k, b in e.bodies.items():
        out = set(); walk(b['blocks'], out); walk(b.get('promoted') or [], out)
        out.discard(k); g[k] = out
    e._cg = g
    return g

def callers(e):
    r = {}
    for k, s in graph(e).items():
        for x in s: r.setdefault(x, set()).add(k)
    return r

def entries(e, key, allowed):
    """the functions outside code can call that lead to key without passing an allowed one: [(fn, ok)]"""
    byk = {}
    for f in e.fns: byk.setdefault(f['key'], f)
    cs = callers(e)
    seen = set(); todo = [key]; out = []
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        f = byk.get(k)
        if f is not None:
            if allowed(f): out.append((f, True)); continue
            if f.get('pub'): out.append((f, False))
        todo += cs.get(k, ())
    return out

def derived(f, *traits):
    im = f.get('impl')
    return bool(im) and im.get('trait') in traits

def c27(ck):
    e = ck.e
    items = {i['path']: i for i in e.F['items']}
    def item(p): return ck.need(items.get(p), 'type ' + p)
    D, DB, LB, S, SB = DEF + 'Defense', DEF + 'DefenseBuilder', DEF + 'LevelBuilder', MC + 'MCaptcha', MC + 'MCaptchaBuilder'
    guarded = [D, DB, LB, S, SB, COUNTER, MASTER, HASH]
    # 1. state is private
    for p in guarded:
        i = item(p)
        for f in i['fields']:
            ck.ob('guarded state is a private field', '%s.%s' % (p, f['name']), not f['pub'], 'the field %s of %s is public: code outside the library can set it' % (f['name'], p), i['span'])
        if not i['fields']: ck.ob('guarded state is a private field', p, True)
    # any other type that holds a store table or the site table
    # 2. the queue is out of reach
    for i in e.F['items']:
        if i['path'].startswith('crate::queue::'):
            ck.ob('the queue is internal', i['path'], not i['pub'], 'the queue\'s type %s can be reached from outside the crate' % i['path'], i['span'])
    for f in e.fns:
        if not f.get('pub'): continue
        if f['path'].startswith('crate::queue::') and not f.get('impl'):
            ck.ob('the queue is internal', f['path'], False, 'the queue\'s function %s can be called from outside the crate' % f['path'], f['span'])
    for p, i in items.items():
        if not i['pub']: continue
        for f in i['fields']:
            if 'crate::queue::' in f['ty']:
                ck.ob('the queue is internal', '%s.%s' % (p, f['name']), not f['pub'], 'the field %s of %s hands out the queue' % (f['name'], p), i['span'])
    # 3. nothing hands out mutable access
    for f in e.fns:
        if not f.get('pub'): continue
        im = f.get('impl') or {}
        me = im.get('self_adt')
        if me not in guarded: continue
        out = f.get('output', '')
        o2 = out.replace('&mut ' + me, '')
        bad = [x for x in LEAK if x in o2] if me in (D, S, COUNTER, MASTER, HASH, DB, SB, LB) else []
        ck.ob('no operation hands out mutable access to guarded state', f['key'], not bad, '%s returns %s' % (f['path'], out), f['span'])
        if me in (D, DB, LB, S, SB, COUNTER, MASTER, HASH) and im.get('trait'):
            ck.ob('no operation hands out mutable access to guarded state', im['trait'] + ' for ' + me,
                  im['trait'].split('::')[-1] not in ('DerefMut', 'AsMut', 'BorrowMut', 'IndexMut'), '%s is implemented for %s' % (im['trait'], me), f['span'])
    # the tables are nobody else's to read either
    for f in e.fns:
        im = f.get('impl') or {}
        own = im.get('self_adt') in (HASH, MASTER)
        if not f.get('pub') or not own and not any(re.search(re.escape(a) + r'\b', i) for a in (HASH, MASTER) for i in f.get('inputs', ())): continue
        if (im.get('trait') or '') in (HANDLER, ACTOR) or derived(f, CLONE, DE): continue
        tr = (im.get('trait') or '').split('::')[-1]
        out = f.get('output', '')
        told = [x for x in TABLE if x in out]
        ck.ob('no operation hands out a table', f['key'], not told and not (own and tr in READS), '%s returns %s' % (f['path'], out), f['span'])
    # 4. who can change a guarded value
    def named(adt, *names):
        def ok(f):
            im = f.get('impl') or {}
            return im.get('self_adt') == adt and not im.get('trait') and f['name'] in names
        return ok
    def actor(adt, *names):
        def ok(f):
            im = f.get('impl') or {}
            return im.get('self_adt') == adt and (im.get('trait') in (HANDLER, ACTOR) or (not im.get('trait') and f['name'] in names))
        return ok
    deser = lambda f: derived(f, DE) or f['path'].startswith('<') and DE in f['path']
    mut = {D: named(D, 'tighten_up', 'loosen_up', 'max_defense', 'min_defense'),
           S: named(S, 'add_visitor', 'decrement_visitor', 'decrement_visitor_by'),
           COUNTER: actor(COUNTER), HASH: actor(HASH), MASTER: actor(MASTER, 'add_site', 'get_site', 'rm_site', 'rename')}
    mk = {D: lambda f: named(DB, 'build')(f) or derived(f, CLONE, DE) and f['impl']['self_adt'] in (D, None),
          S: lambda f: named(SB, 'build')(f) or derived(f, CLONE, DE) and f['impl']['self_adt'] in (S, None)}
    for k, b in e.bodies.items():
        if not b.get('local'): continue
        for a in sorted({t[0] for t in b.get('touch', []) if t[2] and t[0] in mut}):
            fresh = built_here(b, a)
            may = mut[a]
            owner = {S: COUNTER, D: S}.get(a)
            if owner and all(t[1] == -1 for t in b['touch'] if t[2] and t[0] == a):
                # one whole value put in the place of another, inside what owns it
                may = lambda f, own=mut[a], by=mut[owner]: own(f) or by(f)
            for f, ok in entries(e, k, may):
                if not ok and (derived(f, CLONE) or deser(f) or fresh and mk.get(a) and mk[a](f)): continue
                ck.ob('only the checked operations change a guarded value', '%s changed in %s, called from outside as %s' % (a, k, f['key']), ok,
                      '%s can be called from outside the library and changes a %s in %s' % (f['path'], a, b['path']), f['span'])
    # 5. who can make one
    for a, allowed in mk.items():
        n = 0
        for k, b in e.bodies.items():
            if not b.get('local') or not builds(b, a): continue
            n += 1
            for f, ok in entries(e, k, allowed):
                if not ok and deser(f): continue
                ck.ob('only the builder makes a guarded value', '%s made in %s, called from outside as %s' % (a, k, f['key']), ok,
                      '%s can be called from outside the library and makes a %s without its builder' % (f['path'], a), f['span'])
        ck.need(n, 'a place that builds ' + a)
    # 6. internal messages
    for f in ck.handlers(COUNTER):
        m = f['impl']['trait_args'][1]
        if m in (CNT + 'AddVisitor', CNT + 'SetInternalData'): continue
        changes = any(p.kind == 'ret' and diffs(selfval(p.st), SELF) for p in ck.hpaths(f))
        if not changes:
            ck.ob('messages that release visitors cannot be sent from outside', m, True); continue
        i = items.get(m)
        if i is None:
            ck.ob('messages that release visitors cannot be sent from outside', m, False, 'the message %s is not a type of the crate, so anyone can send it' % m, f['span']); continue
        hidden = not i['pub']
        made = [g for g in e.fns if g.get('pub') and m in g.get('output', '') and not derived(g, CLONE)]
        sealed = any(not x['pub'] for x in i['fields']) and not made
        ck.ob('messages that release visitors cannot be sent from outside', m, hidden or sealed, '%s changes a counter\'s state and can be made and sent from outside the library' % m, i['span'])
    for f in e.fns:
        # a handler of the counter for every message M
        if f.get('impl') and f['impl'].get('trait') == HANDLER and f['impl'].get('self_adt') == COUNTER and f.get('generic'):
            ck.ob('messages that release visitors cannot be sent from outside', f['key'], False, 'a handler for every message type', f['span'])
    # 7. unsafe code
    us = e.F['unsafe']
    ck.ob('no unsafe code', 'whole crate', not us, 'unsafe %s' % (us[0][0] if us else ''), us[0][1] if us else None)
    for f in e.fns:
        if f.get('unsafe'): ck.ob('no unsafe code', f['path'], False, 'an unsafe function', f['span'])
    ck.notes['functions reachable from outside'] = sum(1 for f in e.fns if f.get('pub'))
    ck.notes['types'] = len(items)

def rvals(b):
    for blk in b['blocks']:
        for s in blk[0]:
            if isinstance(s, dict) and 'r' in s: yield s['r']

def builds(b, adt):
    return any(r[0] == 'agg' and isinstance(r[1], dict) and r[1].get('adt') == adt for r in rvals(b))

def built_here(b, adt): return builds(b, adt)

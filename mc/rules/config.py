"""C36: what is configured, copied or put together is exactly what was given."""
from ..core import *
from .defense import isok, topath
from . import queue as QU

S = lambda n: ('sym', n)
SYSB, SYS = 'crate::system::SystemBuilder', 'crate::system::System'
# C08 decides these
CHECKED = ('crate::defense::LevelBuilder', 'crate::defense::DefenseBuilder', 'crate::mcaptcha::MCaptchaBuilder')

def fieldsof(ck, adt, v=0): return ck.e.adts[adt]['variants'][v]['fields']

def content(i): return get(get(SELF, ('f', i, None)), ('f', 0, 1))

def same(ck, v, ref, facts, d=0):
    """v is equal to ref, part by part"""
    if v == ref: return True
    if d > 4: return False
    if v[0] == 'agg':
        a = ck.e.adts.get(v[1])
        one = a is not None and len(a['variants']) == 1
        if not one and v[1] not in ('tuple', 'array') and facts.var.get(ref) != v[2]: return False
        return all(same(ck, x, get(ref, ('f', i, None if one else v[2])), facts, d + 1) or one and same(ck, x, get(ref, ('f', i, v[2])), facts, d + 1) for i, x in enumerate(v[3]))
    if v[0] == 'ref': return False
    return False

def after(p):
    """the builder a setter leaves"""
    v = p.st.snap(p.val)
    return v

def builders(ck):
    e = ck.e; out = {}
    for f in e.fns:
        im = f.get('impl') or {}
        b = im.get('self_adt')
        if b and b.split('::')[-1].endswith('Builder') and not im.get('trait') and b in e.adts and b not in CHECKED: out.setdefault(b, {})[f['path'].split('::')[-1]] = f
    return {b: ms for b, ms in out.items() if 'build' in ms}

def c36(ck):
    e = ck.e
    n = 0
    bs = builders(ck)
    for b in sorted(bs):
        ms = bs[b]; names = fieldsof(ck, b); short = b.split('::')[-1]
        for i, nm in enumerate(names):
            f = ms.get(nm)
            if not f: continue
            for p in ck.paths(f, args=[SELF, S('value')]):
                w = '%s::%s' % (short, nm)
                if p.kind != 'ret':
                    ck.ob('a setting is taken', w, False, 'a path panics', f.get('span')); continue
                v = p.st.snap(p.val)
                st = v if v[0] in ('agg', 'upd') else selfval(p.st)
                if v[0] == 'ref': st = selfval(p.st)
                for j, other in enumerate(names):
                    got = get(st, ('f', j, None))
                    if j == i: ck.ob('a setting is taken as given', w, got == some(S('value')) or got == S('value'), 'it becomes %s' % show(got), f.get('span'))
                    else: ck.ob('a setting changes nothing else', w + ', ' + other, got == get(SELF, ('f', j, None)), '%s becomes %s' % (other, show(got)), f.get('span'))
                n += 1
        # ---- putting it together
        f = ms['build']
        done = 0
        for p in ck.paths(f):
            if p.kind != 'ret': continue
            v = p.st.snap(p.val)
            if v[0] == 'agg' and v[1] == RES:
                if v[2] == 1:
                    ck.ob('refused only while something is missing', short, any(p.st.facts.var.get(get(SELF, ('f', i, None))) == 0 for i in range(len(names))), 'a complete %s is refused' % short, f.get('span'))
                    continue
                v = v[3][0]
            if not ck.ob('put together', short, v[0] == 'agg' and v[1] in e.adts, 'what is built is %s' % show(v), f.get('span')): continue
            done += 1
            for j, nm in enumerate(fieldsof(ck, v[1])):
                if nm not in names: continue
                i = names.index(nm)
                if b == SYSB and nm == 'runners': continue
                given = p.st.facts.var.get(get(SELF, ('f', i, None)))
                ck.ob('built from what was set', '%s.%s' % (short, nm), same(ck, v[3][j], content(i), p.st.facts) and given != 0, 'it is %s' % show(v[3][j])[:200], f.get('span'))
            n += 1
            if b == SYSB: queue_settings(ck, p, v, f, names)
        ck.ob('put together', short + ' at all', done > 0, 'nothing is ever built', f.get('span'))
        d = ck.tmethod(b, 'core::default::Default', 'default', optional=True)
        if d:
            for p in ck.paths(d, args=[]):
                v = p.st.snap(p.val) if p.kind == 'ret' else ('none',)
                ck.ob('a builder starts empty', short, v[0] == 'agg' and all(x == none for x in v[3]), 'it starts as %s' % show(v)[:200], d.get('span'))
    ck.need(n, 'a builder')
    ck.need(SYSB in bs, 'the builder of the system')
    # the builders that refuse bad values (C08): what they take, they take as given
    for b in sorted(CHECKED):
        names = fieldsof(ck, b); short = b.split('::')[-1]
        for i, nm in enumerate(names):
            f = ck.method(b, nm, optional=True)
            if not f: continue
            for p in ck.paths(f, args=[SELF, S('value')]):
                if p.kind != 'ret': continue
                w = '%s::%s' % (short, nm)
                v = p.st.snap(p.val)
                refused = v[0] == 'agg' and v[1] == RES and v[2] == 1
                st = selfval(p.st) if v[0] not in ('agg', 'upd') or v[1] == RES else v
                for j, other in enumerate(names):
                    got = get(st, ('f', j, None))
                    was = get(SELF, ('f', j, None))
                    if j != i: ck.ob('a setting changes nothing else', w + ', ' + other, got == was, '%s becomes %s' % (other, show(got)), f.get('span'))
                    elif refused: ck.ob('a refused setting changes nothing', w, got == was, 'it becomes %s' % show(got), f.get('span'))
                    else: ck.ob('a setting is taken as given', w, got == some(S('value')) or got == S('value'), 'it becomes %s' % show(got), f.get('span'))
    copies(ck)
    redis(ck)

def queue_settings(ck, p, v, f, names):
    """the worker threads and the queue are set up with the numbers given"""
    Q = QU.system(ck)
    good = {'runners': False, 'queue_length': False}
    for q, w, th, qs in Q.runs:
        for x in ck.unroll(p.ev):
            if x[0] != 'thread': continue
            for nm, s in (('runners', 'workers'), ('queue_length', 'limit')):
                t = QU.locate(ck.e, th[2], S(s))
                if t is not None and QU.at(x[2], t) == content(names.index(nm)): good[nm] = True
    for nm, g in good.items():
        ck.ob('built from what was set', 'SystemBuilder.' + nm, g, 'the queue does not get the configured %s' % nm.replace('_', ' '), f.get('span'))

def copies(ck):
    e = ck.e; n = 0
    for f in e.fns:
        im = f.get('impl') or {}
        adt = im.get('self_adt')
        if im.get('trait') != 'core::clone::Clone' or not f['path'].endswith('::clone') or adt not in e.adts: continue
        short = adt.split('::', 1)[-1]
        for p in ck.paths(f):
            if p.kind != 'ret':
                ck.ob('a copy is equal', short, False, 'copying panics', f.get('span')); continue
            v = p.st.snap(p.val)
            n += 1
            ck.ob('a copy is equal', short, same(ck, v, SELF, p.st.facts), 'the copy is %s' % show(v)[:300], f.get('span'))
    ck.need(n, 'a type that can be copied')
    # parts handed out
    for nm in ('get_defense', 'get_duration', 'get_visitors'):
        f = ck.method('crate::mcaptcha::MCaptcha', nm)
        for p in ck.paths(f):
            v = p.st.snap(p.val) if p.kind == 'ret' else ('none',)
            ck.ob('a part is handed out as it is', 'MCaptcha::' + nm, topath(v) is not None, 'it is %s' % show(v)[:300], f.get('span'))

def redis(ck):
    """connections are opened to the servers configured"""
    RC = 'crate::redis::RedisConfig'
    n = 0
    # helpers are followed from the public functions that call them
    for f in ck.methods(RC) + ck.methods('crate::redis::Redis'):
        if not f.get('async') or not f.get('pub') or RC not in f['inputs'][0]: continue
        me = f in ck.methods(RC)
        cfg = SELF if me else S('config')
        for p in ck.paths(f) if me else ck.paths(f, args=[cfg] + [S('arg%d' % i) for i in range(1, len(f['inputs']))]):
            single = p.st.facts.var.get(cfg)
            for x in p.ev:
                if x[0] != 'call': continue
                c = x[1].split('::')[-1]
                if x[1].endswith('Client::open'):
                    n += 1
                    ck.ob('the configured server', f['path'].split('::')[-1], single == 0 and x[2][0] == get(cfg, ('f', 0, 0)), 'the server is %s' % show(x[2][0])[:200], x[-1] if isinstance(x[-1], str) else None)
                elif 'ClusterClient::new' in x[1] or x[1].endswith('ClusterClient::builder') or x[1].endswith('ClusterClientBuilder::new'):
                    n += 1
                    ck.ob('the configured servers', f['path'].split('::')[-1], single == 1 and x[2][0] == get(cfg, ('f', 0, 1)), 'the servers are %s' % show(x[2][0])[:200], x[-1] if isinstance(x[-1], str) else None)
    ck.need(n, 'where a Redis connection is opened')

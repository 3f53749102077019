"""The in-memory store and the token part of the Redis-backed one: C01, C03, C04."""
from ..core import *
from . import rediscmd

def tableop(ck, p, base=SELF):
    """(location, ops) of the single map changed by a path; (None, {}) when nothing changed"""
    ds = diffs(selfval(p.st, base), base)
    tabs = tables(ck)
    out = []
    for path, v in ds:
        if not touches(path, tabs): continue
        o = mapops(v, at(base, path))
        if o is None: return ('?', None)
        o = {k: x for k, x in o.items() if not (x == ('del',) and absent(p, at(base, path), k))}
        if o: out.append((path, o))
    if not out: return (None, {})
    if len(out) == 1: return out[0]
    return ('many', dict(out))

def touches(path, tabs):
    """whether a part of the state belongs to one of the tables (all do while no table is known)"""
    return not tabs or any(path[:len(t)] == t or t[:len(path)] == path for t in tabs)

def tables(ck):
    """where the store keeps challenges and tokens: the maps that get an entry under the name given and that the
    expiry message takes it out of again; the rest of the state is nobody's business here"""
    c = ck.e.__dict__
    if '_tables' in c: return c['_tables']
    out = set()
    for m, k, d, dk in ((CM + 'CachePoW', 'string', CM + 'DeletePoW', '0'), (CM + 'CacheResult', 'token', CM + 'DeleteCaptchaResult', 'token')):
        key = ck.fld(S('msg'), m, k); ins = set(); rem = set()
        for p in ck.hpaths(ck.handler(HASH, m)):
            if p.kind != 'ret': continue
            for path, v in diffs(selfval(p.st), SELF):
                o = mapops(v, at(SELF, path))
                if o and o.get(key, ('del',))[0] == 'set': ins.add(path)
        for p in ck.hpaths(ck.handler(HASH, d)):
            for path, v in diffs(selfval(p.st), SELF):
                if mapops(v, at(SELF, path)): rem.add(path)
        if len(ins) > 1 and len(ins & rem) == 1: ins &= rem
        if len(ins) != 1: out = set(); break
        out |= ins
    c['_tables'] = out
    return out

def absent(p, m, k): return p.st.facts.ev(('has', m, k)) is False

def cont(ck, f, st, msg):
    """paths of handler f run after state st with message msg"""
    def setup(s, args):
        s.mem = {r: v for r, v in st.mem.items() if r[0] in ('P', 'H')}
        s.facts = st.facts.copy()
    return ck.paths(f, args=[SELF, msg, ('sym', 'ctx')], setup=setup)

def okval(v):
    return v[3][0] if v[0] == 'agg' and v[1] == RES and v[2] == 0 else None

def one_reply(ck, p):
    """the value a path answers, when it answers once and immediately"""
    r = replies(ck, p)
    if len(r) != 1: return None
    k, ev, q = r[0]
    if k == 'direct': return ev
    if k == 'now': return p.st.snap(ev[3])
    return None

def mk(ck, adt, **fs):
    names = ck.need(ck.e.adts.get(adt), adt)['variants'][0]['fields']
    return ('agg', adt, 0, tuple(fs[n] for n in names)) if set(names) <= set(fs) else ck.need(None, 'fields of ' + adt)

S = lambda n: ('sym', n)

def frame(ck, rule, actor, exempt, loc, what):
    """handlers that must not touch the table at loc"""
    for f in ck.handlers(actor):
        m = f['impl']['trait_args'][1]
        if m in exempt: continue
        for p in ck.hpaths(f):
            if p.kind != 'ret': continue
            ds = diffs(selfval(p.st), SELF)
            bad = [d for d in ds if d[0][:len(loc)] == loc or loc[:len(d[0])] == d[0]]
            ck.ob(rule, '%s leaves the %s table alone' % (m.split('::')[-1], what), not bad,
                  'handler %s changes the %s table' % (f['key'], what), pspan(p) or f.get('span'))
    a = [g for g in ck.e.fns if (g.get('impl') or {}).get('trait') in (ACTOR, 'actix::supervisor::Supervised') and g['impl'].get('self_adt') == actor]
    for g in a:
        if not ck.e.bodies[g['key']]['argc']: continue
        for p in ck.paths(g):
            if p.kind != 'ret': continue
            ds = diffs(selfval(p.st), SELF)
            bad = [d for d in ds if d[0][:len(loc)] == loc or loc[:len(d[0])] == d[0]]
            ck.ob(rule, '%s leaves the %s table alone' % (g['name'], what), not bad, 'changes the table', pspan(p) or g.get('span'))

def frame_later(ck, actor, msgadt, key, loc, what):
    """what is set off and gets at the table itself removes the entry that was stored, and nothing else"""
    for f in ck.handlers(actor) + [g for g in ck.e.fns if (g.get('impl') or {}).get('trait') in (ACTOR, 'actix::supervisor::Supervised') and g['impl'].get('self_adt') == actor]:
        own = f['impl'].get('trait') != HANDLER; m = f['name'] if own else f['impl']['trait_args'][1]; bad = None
        if not ck.e.bodies[f['key']]['argc']: continue
        for p in ck.paths(f, args=[SELF, ('sym', 'ctx')][:ck.e.bodies[f['key']]['argc']]) if own else ck.hpaths(f):
            if p.kind != 'ret': continue
            for x, q, df in background(ck, p, actor):
                for d, v in df:
                    if d[:len(loc)] != loc and loc[:len(d)] != d: continue
                    o = mapops(v, at(LATER, d)) if d == loc else None
                    if m != msgadt or o is None or set(o) - {key} or any(y[0] != 'del' for y in o.values()): bad = x
        ck.ob('frame', '%s sets off nothing that changes other entries of the %s table' % (m.split('::')[-1], what), bad is None, 'something is set off that changes the %s table' % what, where(bad) if bad else f.get('span'))

def store_step(ck, msgadt, keyname, rule):
    """paths of the storing handler: one entry under the request's key and nothing else -> [(path, loc)]"""
    f = ck.handler(HASH, msgadt)
    key = ck.fld(S('msg'), msgadt, keyname)
    out = []
    for p in ck.hpaths(f):
        if p.kind != 'ret': continue
        v = one_reply(ck, p)
        loc, ops = tableop(ck, p)
        if v is not None and v[0] == 'agg' and v[1] == RES and v[2] == 1:
            ck.ob(rule, 'a refused %s stores nothing' % msgadt.split('::')[-1], loc is None, 'an error is answered although the store changed', pspan(p)); continue
        good = isinstance(loc, tuple) and set(ops) == {key} and ops[key][0] == 'set'
        ck.ob(rule, '%s stores one entry, under the %s of the request' % (msgadt.split('::')[-1], keyname), good,
              'the handler changes %s' % (', '.join(show(k) for k in ops) if ops else 'nothing or something else') , pspan(p) or f.get('span'))
        if good: out.append((p, loc))
    ck.need(out, 'a successful path of the handler of ' + msgadt)
    ls = {l for _, l in out}
    ck.ob(rule, '%s always stores in the same table' % msgadt.split('::')[-1], len(ls) == 1, 'several tables')
    return out, key

def c01(ck):
    stored, key = store_step(ck, CM + 'CachePoW', 'string', 'store')
    loc = stored[0][1]
    g = ck.handler(HASH, CM + 'RetrivePoW')
    V = CM + 'VerifyCaptchaResult'
    # what is retrieved is what was stored, for any site named; then it is gone
    for p, l in stored:
        q = mk(ck, V, token=key, key=S('named site'))
        msg = ('agg', CM + 'RetrivePoW', 0, (q,))
        want = mk(ck, CM + 'CachedPoWConfig', key=ck.fld(S('msg'), CM + 'CachePoW', 'key'),
                  difficulty_factor=ck.fld(S('msg'), CM + 'CachePoW', 'difficulty_factor'), duration=ck.fld(S('msg'), CM + 'CachePoW', 'duration'))
        for r in cont(ck, g, p.st, msg):
            if r.kind != 'ret': continue
            v = okval(one_reply(ck, r) or S('?'))
            good = v is not None and v[0] == 'agg' and v[2] == 1 and v[3][0] == want
            ck.ob('retrieval returns the entry', 'first retrieval of a stored challenge', good,
                  'the answer is %s, not the stored entry' % (show(v) if v else 'no or several values'), pspan(r))
            m = at(selfval(r.st), l)
            m0 = at(SELF, l)
            gone = r.st.facts.ev(('has', m, key)) is False or removed(m, key)
            ck.ob('retrieval consumes', 'first retrieval of a stored challenge', gone, 'the challenge is still stored after it was retrieved', pspan(r))
            o = mapops(m, m0)
            ck.ob('frame', 'retrieval touches only the named challenge', o is not None and set(o) <= {key} and not [d for d in diffs(selfval(r.st), SELF) if d[0][:len(l)] != l and touches(d[0], tables(ck))],
                  'retrieval changes other entries', pspan(r))
            for r2 in cont(ck, g, r.st, msg):
                if r2.kind != 'ret': continue
                v = okval(one_reply(ck, r2) or S('?'))
                ck.ob('second retrieval finds nothing', 'retrieval after retrieval', v is not None and v[0] == 'agg' and v[1] == OPT and v[2] == 0,
                      'a second retrieval answers %s' % (show(v) if v else '?'), pspan(r2))
    # arbitrary state
    key2 = ck.fld(ck.fld(S('msg'), CM + 'RetrivePoW', '0') if '0' in ck.e.adts[CM + 'RetrivePoW']['variants'][0]['fields'] else get(S('msg'), ('f', 0, None)), V, 'token')
    m0 = at(SELF, loc)
    seen = set()
    for p in ck.hpaths(g):
        if p.kind != 'ret': continue
        v = okval(one_reply(ck, p) or S('?'))
        has = p.st.facts.ev(('has', m0, key2))
        seen.add(has)
        l, o = tableop(ck, p)
        if has is True:
            ck.ob('retrieval consumes', 'retrieval of a present challenge', l == loc and o == {key2: ('del',)}, 'the entry is not removed, or more than it', pspan(p))
            ck.ob('retrieval returns the entry', 'retrieval of a present challenge', v is not None and v[0] == 'agg' and v[2] == 1, 'a present challenge is reported absent', pspan(p))
        elif has is False:
            ck.ob('absent is reported absent', 'retrieval of an unknown challenge', l is None and v is not None and v[0] == 'agg' and v[1] == OPT and v[2] == 0,
                  'an unknown challenge gets %s' % (show(v) if v else 'no answer'), pspan(p))
        else:
            ck.ob('retrieval looks the challenge up', 'retrieval', False, 'a path answers without looking the named challenge up', pspan(p))
    ck.ob('retrieval looks the challenge up', 'both outcomes', seen >= {True, False}, 'only outcomes %s' % seen)
    # explicit deletion
    d = ck.handler(HASH, CM + 'DeletePoW')
    k3 = get(S('msg'), ('f', 0, None))
    for p in ck.hpaths(d):
        if p.kind != 'ret': continue
        l, o = tableop(ck, p)
        ck.ob('frame', 'DeletePoW deletes the named challenge only', (l is None and absent(p, m0, k3)) or (l == loc and o == {k3: ('del',)}),
              'DeletePoW changes something else', pspan(p) or d.get('span'))
    frame(ck, 'frame', HASH, (CM + 'CachePoW', CM + 'RetrivePoW', CM + 'DeletePoW'), loc, 'challenge')
    frame_later(ck, HASH, CM + 'CachePoW', key, loc, 'challenge')

def removed(m, k):
    while m[0] in ('minsert', 'mset', 'mremove'):
        if m[2] == k: return m[0] == 'mremove'
        m = m[1]
    return False

def c03(ck):
    stored, tok = store_step(ck, CM + 'CacheResult', 'token', 'store')
    loc = stored[0][1]
    V = CM + 'VerifyCaptchaResult'
    g = ck.handler(HASH, V)
    site = ck.fld(S('msg'), CM + 'CacheResult', 'key')
    for p, l in stored:
        for x in (site, S('named site')):
            msg = mk(ck, V, token=tok, key=x)
            n = 0
            for r in cont(ck, g, p.st, msg):
                if r.kind != 'ret': continue
                n += 1
                v = okval(one_reply(ck, r) or S('?'))
                t = truthof(r, v) if v is not None else None
                same = r.st.facts.ev(eq(site, x)) if site != x else True
                if eq(site, x)[0] == 'bool': same = eq(site, x)[1]
                ck.ob('true exactly for the site of issue', 'validating a stored token', v is not None and (v == eq(site, x) or t is not None and same is not None and t == same),
                      'the answer is %s where the sites are %s' % (show(v) if v else '?', {True: 'equal', False: 'different', None: 'not compared'}[same]), pspan(r))
                m = at(selfval(r.st), l)
                ck.ob('validation consumes', 'validating a stored token', removed(m, tok) or r.st.facts.ev(('has', m, tok)) is False,
                      'the token is still stored after it was validated', pspan(r))
                for r2 in cont(ck, g, r.st, mk(ck, V, token=tok, key=S('site named later'))):
                    if r2.kind != 'ret': continue
                    v = okval(one_reply(ck, r2) or S('?'))
                    ck.ob('no second true', 'validating a token again', v is not None and truthof(r2, v) is False, 'a consumed token is accepted again', pspan(r2))
            ck.need(n, 'paths of the token validation')
    m0 = at(SELF, loc)
    t0 = ck.fld(S('msg'), V, 'token')
    for p in ck.hpaths(g):
        if p.kind != 'ret': continue
        v = okval(one_reply(ck, p) or S('?'))
        has = p.st.facts.ev(('has', m0, t0))
        l, o = tableop(ck, p)
        if has is False:
            ck.ob('true only if stored', 'validating an unknown token', v is not None and truthof(p, v) is False and l is None, 'an unknown token is accepted or something is changed', pspan(p))
        elif has is True:
            ck.ob('validation consumes', 'any validation of a present token', l == loc and o == {t0: ('del',)}, 'the token is not removed, or more than it', pspan(p))
        else: ck.ob('true only if stored', 'validation looks the token up', False, 'a path answers without looking the token up', pspan(p))
    d = ck.handler(HASH, CM + 'DeleteCaptchaResult')
    k3 = ck.fld(S('msg'), CM + 'DeleteCaptchaResult', 'token')
    for p in ck.hpaths(d):
        if p.kind != 'ret': continue
        l, o = tableop(ck, p)
        ck.ob('frame', 'DeleteCaptchaResult deletes the named token only', (l is None and absent(p, m0, k3)) or (l == loc and o == {k3: ('del',)}), 'changes something else', pspan(p) or d.get('span'))
    frame(ck, 'frame', HASH, (CM + 'CacheResult', V, CM + 'DeleteCaptchaResult'), loc, 'token')
    frame_later(ck, HASH, CM + 'CacheResult', tok, loc, 'token')
    rediscmd.tokens(ck)
    # the system passes the request on and the answer back
    f = ck.method('crate::system::System', 'validate_verification_tokens')
    n = 0
    for p in ck.paths(f, args=[SELF, S('msg')]):
        if p.kind != 'ret': continue
        v = p.st.snap(p.val)
        snd = [x for x in p.ev if x[0] == 'send']
        good = len(snd) == 1 and snd[0][3] == S('msg') and snd[0][6] == V
        ck.ob('the system asks the store', 'validate_verification_tokens', good, 'the request is not passed on unchanged, once', pspan(p))
        if not good: continue
        if v[0] == 'agg' and v[1] == RES and v[2] == 1: continue
        rep = answer_of(p, snd[0])
        b = v
        ok_ = rep is not None and (v == rep or (v[0] == 'agg' and v[1] == RES and v[2] == 0 and (v[3][0] == get(rep, ('f', 0, 0)) or const_matches(p, v[3][0], get(rep, ('f', 0, 0))))
              and p.st.facts.var.get(rep) == 0))
        n += 1
        ck.ob('the system asks the store', 'the answer is the store\'s', ok_, 'the answer is %s, not the store\'s' % show(v), pspan(p))
    ck.need(n, 'a path of validate_verification_tokens that answers')

def const_matches(p, v, r):
    return v[0] == 'bool' and p.st.facts.ev(r) is v[1]

def truthof(p, v):
    if v[0] == 'bool': return v[1]
    return p.st.facts.ev(v)

def answer_of(p, snd):
    """the inner answer of a request: send -> await -> channel -> await"""
    a = next((x for x in p.ev if x[0] == 'await' and x[2] == snd[4]), None)
    if a is None: return None
    ch = get(a[3], ('f', 0, 0))
    b = next((x for x in p.ev if x[0] == 'await' and x[2] == ch), None)
    if b is None: return None
    return get(b[3], ('f', 0, 0))

def c04(ck):
    for msg, kname in ((CM + 'CachePoW', 'string'), (CM + 'CacheResult', 'token')):
        short = msg.split('::')[-1]
        stored, key = store_step(ck, msg, kname, 'store')
        loc = stored[0][1]
        life = secs(ck.fld(S('msg'), msg, 'duration'))
        for p, l in stored:
            ds, others = scheduled(ck, p, HASH)
            n = 0
            for d in ds:
                alts = own_effects(ck, p, d, HASH)
                inst = '%s schedules' % short
                if alts is None:
                    ck.ob('expiry', inst, False, 'something other than a removal is scheduled', where(d.ev)); continue
                for a in alts:
                    rem = []
                    for q, df in a:
                        df = [(path, v) for path, v in df if touches(path, tables(ck))]
                        for path, v in df:
                            o = mapops(v, at(LATER, path))
                            rem.append((path, o))
                        if not df: rem.append((l, {key: ('del',)}) if hasno(q, at(LATER, l), key) else ('none', None))
                    ck.ob('expiry removes exactly the entry', inst, rem == [(l, {key: ('del',)})], 'what is scheduled does not remove exactly the stored entry', where(d.ev))
                ck.ob('expiry after one lifetime', inst, d.delay == life, 'the delay is %s, not the duration of the request in seconds' % show(d.delay), where(d.ev))
                ck.ob('expiry does not suspend the store', inst, d.how != 'wait', 'the store waits for the lifetime to pass', where(d.ev))
                ck.ob('expiry once', inst, d.kind != 'interval', 'the removal is repeated', where(d.ev))
                n += 1
            ck.ob('expiry scheduled', '%s arms one removal on every storing path' % short, n == 1, '%d removals are scheduled on a path that stores' % n, pspan(p))
            for sp, qs in others:
                ck.ob('nothing is removed early', '%s starts nothing else' % short, not any(effects(q.ev) for q in qs), 'the handler starts something that does not wait for the lifetime', where(sp))
            early = [x for x in p.ev if x[0] == 'send']
            ck.ob('nothing is removed early', '%s sends no message at once' % short, not early, 'a message is sent at once', where(early[0]) if early else None)
    # other requests start nothing
    for f in ck.handlers(HASH):
        m = f['impl']['trait_args'][1]
        if m in (CM + 'CachePoW', CM + 'CacheResult'): continue
        for p in ck.hpaths(f):
            if p.kind != 'ret': continue
            bad = [x for x in ck.unroll(p.ev) if x[0] in ('spawn', 'send', 'notify_later', 'run_later', 'run_interval')]
            ck.ob('nothing is removed early', '%s schedules nothing' % m.split('::')[-1], not bad, 'the handler of %s schedules something' % m, where(bad[0]) if bad else None)
    a = [g for g in ck.e.fns if (g.get('impl') or {}).get('trait') == ACTOR and g['impl'].get('self_adt') == HASH and ck.e.bodies[g['key']]['argc']]
    for g in a:
        for p in ck.paths(g):
            bad = [x for x in ck.unroll(p.ev) if x[0] in ('spawn', 'send', 'notify_later', 'run_later', 'run_interval')]
            ck.ob('nothing is removed early', '%s schedules nothing' % g['name'], not bad, 'schedules something', where(bad[0]) if bad else None)
    rediscmd.lifetimes(ck)
    from . import system
    system.lifetimes(ck)

def hasno(q, m, k): return q.st.facts.ev(('has', m, k)) is False

"""The Redis-backed store and registry as producers of commands: C28, and parts of C03 and C04."""
from ..core import *
from ..models import subst
CONN = 'crate::redis::mcaptcha_redis::MCaptchaRedisConnection'
S = lambda n: ('sym', n)
P = 'MCAPTCHA_CACHE.'
V = CM + 'VerifyCaptchaResult'
AVR = 'crate::master::AddVisitorResult'

def st_(s): return ('str', s)
def cmds(p, ck): return [x for x in ck.unroll(p.ev) if x[0] == 'redis']
def argv(x):
    c = x[2]
    return list(c[1]) if c[0] == 'cmd' else None

def norm(v):
    """to_string of a text is the text"""
    if v[0] == 'to_string' and v[1][0] == 'str': return v[1]
    return v

# --- what each request must send, and what a good reply r means
def want_add_visitor(ck, name): return [st_(P + 'ADD_VISITOR'), name]
def answer_visit(ck, p, r):
    u = ('unjson', get(r, ('f', 0, 0)), AVR)
    return u, ('wellformed', get(r, ('f', 0, 0)), AVR)

def site_payload(ck, mc):
    D = 'crate::mcaptcha::MCaptcha'
    lv = ck.fld(ck.fld(mc, D, 'defense'), 'crate::defense::Defense', 'levels')
    return ('json', agg(ck, 'crate::master::CreateMCaptcha', levels=lv, duration=ck.fld(mc, D, 'duration')))

def agg(ck, adt, **fs):
    names = ck.need(ck.e.adts.get(adt), adt)['variants'][0]['fields']
    ck.need(set(names) == set(fs), 'fields of ' + adt)
    return ('agg', adt, 0, tuple(fs[n] for n in names))

def challenge_payload(ck, s, d, t): return ('json', agg(ck, 'crate::cache::AddChallenge', challenge=s, difficulty=d, duration=t))

class Spec:
    """want: argument list; good(ck, p, r) -> (condition term or None, Ok value) list of alternatives"""
    def __init__(self, want, good): self.want, self.good = want, good

def unit(ck, p, r): return [(None, UNIT)]
def fn_value(f):
    def g(ck, p, r): return f(ck, p, r)
    return g

def check(ck, rule, inst, p, value, spec, want):
    """one path of a request: the one command, and the answer it means"""
    cs = cmds(p, ck)
    a = [argv(x) for x in cs]
    if not ck.ob(rule + ': one command', inst, len(cs) == 1, '%d commands are sent on one path' % len(cs), pspan(p)): return None
    if want is not None:
        w = [norm(x) for x in a[0]] if a[0] else None
        ck.ob(rule + ': the right command', inst, w == want, 'the command is [%s], expected [%s]' % (', '.join(show(x) for x in (w or [])), ', '.join(show(x) for x in want)), where(cs[0]) or pspan(p))
    r = cs[0][3]
    return answer(ck, rule, inst, p, value, r, spec)

def answer(ck, rule, inst, p, value, r, good):
    fail = p.st.facts.var.get(r)
    isok = value is not None and value[0] == 'agg' and value[1] == RES and value[2] == 0
    iserr = value is not None and value[0] == 'agg' and value[1] == RES and value[2] == 1
    if value == r: return True
    if fail == 1 or fail is None:
        return ck.ob(rule + ': no success without the server', inst, iserr and fail == 1 or (fail is None and iserr), 'the answer is %s although the command %s' % (show(value) if value else 'missing', 'failed' if fail == 1 else 'was not looked at'), pspan(p))
    rest = p.st.facts.copy()
    got = value[3][0] if isok else None
    for cond, v in good(ck, p, r):
        fa = rest.copy()
        if cond is not None and not (fa.assume(cond, True) and not fa.bot): continue
        if v is None: ck.ob(rule + ': the answer is the reply', inst, iserr, 'the answer is %s, expected an error' % show(value), pspan(p))
        else:
            # a reply without content has one value
            same = got == v or (v == UNIT and got is not None) or (got is not None and v[0] == 'bool' and fa.ev(got) is v[1]) or (got is not None and got[0] == 'bool' and v[0] != 'bool' and fa.ev(v) is got[1])
            ck.ob(rule + ': the answer is the reply', inst, same, 'the answer is %s, expected Ok(%s)' % (show(value) if value else 'missing', show(v)), pspan(p))
        if cond is None: return True
        rest.assume(cond, False)
        if rest.bot: return True
    # a reply outside what the command may answer
    return ck.ob(rule + ': an odd reply is an error', inst, iserr, 'an unexpected reply is answered with %s' % (show(value) if value else 'nothing'), pspan(p))

def num(r): return get(r, ('f', 0, 0))
def flag(t, f):
    """reply 1 means t, reply 0 means f"""
    return lambda ck, p, r: [(ieq(num(r), I(1)), Bc(t)), (ieq(num(r), I(0)), Bc(f))]
def asis(ck, p, r): return [(None, num(r))]
def visit(ck, p, r):
    u, w = answer_visit(ck, p, r)
    return [(w, u)]
def somevisit(ck, p, r):
    u, w = answer_visit(ck, p, r)
    return [(w, some(u))]

def specs(ck):
    a2, a3 = S('a2'), S('a3')
    VK = lambda v: ck.fld(v, V, 'key')
    VT = lambda v: ck.fld(v, V, 'token')
    return {
        'add_visitor': (want_add_visitor(ck, get(a2, ('f', 0, None))), somevisit),
        'add_mcaptcha': ([st_(P + 'ADD_CAPTCHA'), ck.fld(a2, M + 'AddSite', 'id'), site_payload(ck, ck.fld(a2, M + 'AddSite', 'mcaptcha'))], unit),
        'check_captcha_exists': ([st_(P + 'CAPTCHA_EXISTS'), a2], flag(False, True)),
        'delete_captcha': ([st_(P + 'DELETE_CAPTCHA'), a2], unit),
        'rename_captcha': ([st_(P + 'RENAME_CAPTCHA'), a2, a3], unit),
        'add_challenge': ([st_(P + 'ADD_CHALLENGE'), a2, ('json', a3)], unit),
        'get_challenge': ([st_(P + 'GET_CHALLENGE'), VK(a2), VT(a2)], visit),
        'delete_challenge': ([st_(P + 'DELETE_CHALLENGE'), VK(a2), VT(a2)], unit),
        'get_visitors': ([st_(P + 'GET'), a2], asis),
        'add_token': (None, unit),
        'get_token': (None, flag(True, False)),
        'delete_token': (None, unit),
    }

def c28(ck):
    sp = specs(ck)
    for f in ck.methods(CONN):
        if not f.get('async') or f['name'] in ('ping', 'is_module_loaded'): continue
        if f['name'] not in sp:
            if f.get('pub'): ck.ob('known operations', f['name'], True)
            continue
        want, good = sp[f['name']]
        n = 0
        for p in ck.paths(f):
            if p.kind != 'ret': continue
            n += 1
            check(ck, 'operation', f['name'], p, p.st.snap(p.val), good, want)
        ck.need(n, 'paths of ' + f['key'])
    for nme in sp:
        if nme in ('check_captcha_exists', 'get_visitors', 'delete_challenge', 'delete_token'): continue
        ck.method(CONN, nme)
    m = S('msg')
    VV = get(m, ('f', 0, None))
    def cached(ck, p, r):
        u, w = answer_visit(ck, p, r)
        return [(w, some(agg(ck, CM + 'CachedPoWConfig', key=ck.fld(VV, V, 'key'), difficulty_factor=ck.fld(u, AVR, 'difficulty_factor'), duration=ck.fld(u, AVR, 'duration'))))]
    H = [
        (RCACHE, CM + 'CachePoW', [st_(P + 'ADD_CHALLENGE'), ck.fld(m, CM + 'CachePoW', 'key'),
            challenge_payload(ck, ck.fld(m, CM + 'CachePoW', 'string'), ck.fld(m, CM + 'CachePoW', 'difficulty_factor'), ck.fld(m, CM + 'CachePoW', 'duration'))], unit),
        (RCACHE, CM + 'RetrivePoW', [st_(P + 'GET_CHALLENGE'), ck.fld(VV, V, 'key'), ck.fld(VV, V, 'token')], cached),
        (RCACHE, CM + 'CacheResult', None, unit),
        (RCACHE, V, None, flag(True, False)),
        (RMASTER, M + 'AddVisitor', want_add_visitor(ck, get(m, ('f', 0, None))), somevisit),
        (RMASTER, M + 'AddSite', [st_(P + 'ADD_CAPTCHA'), ck.fld(m, M + 'AddSite', 'id'), site_payload(ck, ck.fld(m, M + 'AddSite', 'mcaptcha'))], unit),
        (RMASTER, M + 'Rename', [st_(P + 'RENAME_CAPTCHA'), ck.fld(m, M + 'Rename', 'name'), ck.fld(m, M + 'Rename', 'rename_to')], unit),
        (RMASTER, M + 'RemoveCaptcha', [st_(P + 'DELETE_CAPTCHA'), get(m, ('f', 0, None))], unit),
    ]
    for actor, msg, want, good in H:
        f = ck.handler(actor, msg)
        inst = '%s of %s' % (msg.split('::')[-1], actor.split('::')[-2] + '::' + actor.split('::')[-1])
        n = 0
        for p in ck.hpaths(f):
            if p.kind != 'ret': continue
            ck.ob('request: command sent once', inst, not cmds(p, ck), 'a command is sent while handling, outside the future', pspan(p))
            rs = 0
            for sp_, fps in ck.futures(p):
                for q in fpaths(ck, actor, sp_, fps):
                    if q.kind != 'ret': continue
                    k, rx = reply_of(p)
                    val = [e_ for e_ in ck.unroll(q.ev) if e_[0] == 'send_chan' and k == 'later' and e_[2][:2] == ('tx', rx[1])]
                    if not val and not cmds(q, ck): continue
                    rs += 1; n += 1
                    check(ck, 'request', inst, q, q.st.snap(val[0][3]) if val else None, good, want)
            ck.ob('request: command sent once', inst, rs > 0, 'a path of the handler sends no command', pspan(p) or f.get('span'))
        ck.need(n, 'paths of ' + f['key'])
    for msg in ('DeletePoW', 'DeleteCaptchaResult'):
        f = ck.handler(RCACHE, CM + msg)
        for p in ck.hpaths(f):
            if p.kind != 'ret': continue
            k, v = reply_of(p)
            # expiry is the server's: nothing to send
            bad = list(cmds(p, ck)) + [c for sp_, fps in ck.futures(p) for q in fps for c in cmds(q, ck)]
            if not bad: ck.ob('request: nothing to do', msg, k == 'now' and v[0] == 'agg' and v[2] == 0, 'the answer is not Ok', pspan(p))
    tokens(ck, 'C28')

# ---------------------------------------------------------------- tokens
def token_cmds(ck, name):
    """[(path, argument list, message)] of a token operation"""
    f = ck.method(CONN, name)
    out = []
    for p in ck.paths(f):
        if p.kind != 'ret': continue
        cs = cmds(p, ck)
        if len(cs) == 1 and argv(cs[0]): out.append((p, [norm(x) for x in argv(cs[0])], cs[0]))
        elif cs: ck.ob('one command per token operation', name, False, 'several commands', pspan(p))
    ck.need(out, 'commands of ' + name)
    return out

def parse_set(a):
    """(key, value, ('dur', ttl)) of a SET with expiry"""
    if len(a) == 5 and a[0] == ('str', 'SET'):
        k, v, o, t = a[1:]
    elif len(a) == 4 and a[0] in (('str', 'SETEX'), ('str', 'PSETEX')):
        k, v, o, t = a[1], a[3], ('str', 'EX' if a[0][1] == 'SETEX' else 'PX'), a[2]
    else: return None
    unit_ = {('str', 'EX'): 10 ** 9, ('str', 'ex'): 10 ** 9, ('str', 'PX'): 10 ** 6}.get(o)
    if unit_ is None: return None
    if t[0] == 'to_string': t = t[1]
    while t[0] == 'mul': unit_ *= t[2]; t = t[1]
    return k, v, ('dur', t, unit_)

def injective(key, vars_):
    """distinct variable values give distinct keys"""
    parts = list(key[1:]) if key[0] == 'concat' else [key]
    if len(parts) == 1 and parts[0][0] == 'json':
        j = parts[0][1]
        return j[0] == 'agg' and all(v in j[3] for v in vars_)
    # length prefix first, then a separator that is no digit, then the text; at most the last text may go without
    seen = []
    i = 0
    known = set()
    pend = []
    for i, x in enumerate(parts):
        if x[0] == 'str': continue
        if x[0] == 'to_string' and x[1][0] == 'len' and x[1][1] in vars_:
            if not (i + 1 < len(parts) and parts[i + 1][0] == 'str' and parts[i + 1][1] and not parts[i + 1][1][0].isdigit()): return False
            known.add(x[1][1]); continue
        if x in vars_:
            free = [y for y in parts[i + 1:] if y[0] != 'str']
            if x not in known and free: return False
            seen.append(x); continue
        if x[0] in ('to_string',): return False
        return False
    return set(seen) == set(vars_)

def tokens(ck, mode='C03'):
    CR = CM + 'CacheResult'
    a2 = S('a2')
    site, tok = ck.fld(a2, CR, 'key'), ck.fld(a2, CR, 'token')
    keys = set()
    for p, a, ev in token_cmds(ck, 'add_token'):
        k = parse_set(a)
        if not ck.ob('token created with an expiry', 'add_token', k is not None, 'the command is [%s]' % ', '.join(show(x) for x in a), where(ev)): continue
        keys.add(k[0])
        ck.ob('distinct tokens have distinct entries', 'add_token', injective(k[0], (site, tok)), 'the entry name %s can be the same for different sites and tokens' % show(k[0]), where(ev))
    vsite, vtok = ck.fld(a2, V, 'key'), ck.fld(a2, V, 'token')
    for name in ('get_token', 'delete_token'):
        if name == 'delete_token' and not ck.method(CONN, name, optional=True): continue
        for p, a, ev in token_cmds(ck, name):
            good = len(a) == 2 and a[0] in (('str', 'DEL'), ('str', 'UNLINK'))
            ck.ob('validation deletes the entry', name, good, 'the command is [%s]' % ', '.join(show(x) for x in a), where(ev))
            if not good: continue
            want = {resub(k, site, tok, vsite, vtok) for k in keys}
            ck.ob('validation consults the entry of that token and site', name, want == {a[1]}, 'the entry consulted is %s, the one created is %s' % (show(a[1]), ', '.join(show(w) for w in want)), where(ev))
            if name == 'get_token':
                v = p.st.snap(p.val)
                answer(ck, 'token', name, p, v, ev[3], flag(True, False))

def resub(k, site, tok, vs, vt):
    X, Y = ('sym', '$site'), ('sym', '$token')
    k = subst(subst(k, site, X), tok, Y)
    return subst(subst(k, X, vs), Y, vt)

def lifetimes(ck):
    CR = CM + 'CacheResult'
    a2 = S('a2')
    for p, a, ev in token_cmds(ck, 'add_token'):
        k = parse_set(a)
        ck.ob('token lifetime', 'add_token', k is not None and k[2] == secs(ck.fld(a2, CR, 'duration')), 'the expiry is %s, not the duration of the request in seconds' % (show(k[2]) if k else 'missing'), where(ev))
    # the actor hands the request on unchanged
    f = ck.handler(RCACHE, CR)
    m = S('msg')
    for p in ck.hpaths(f):
        for sp, fps in ck.futures(p):
            for q in fps:
                for x in cmds(q, ck):
                    k = parse_set([norm(y) for y in argv(x) or []])
                    ck.ob('token lifetime', 'CacheResult of the Redis store', k is not None and k[2] == secs(ck.fld(m, CR, 'duration')), 'the expiry is %s' % (show(k[2]) if k else 'missing'), where(x))
    f = ck.handler(RCACHE, CM + 'CachePoW')
    n = 0
    for p in ck.hpaths(f):
        for sp, fps in ck.futures(p):
            for q in fps:
                for x in cmds(q, ck):
                    n += 1
                    j = [y for y in argv(x) or [] if y[0] == 'json']
                    good = len(j) == 1 and ck.fld(j[0][1], 'crate::cache::AddChallenge', 'duration') == ck.fld(m, CM + 'CachePoW', 'duration')
                    ck.ob('challenge lifetime', 'CachePoW of the Redis store', good, 'the duration is not passed on unchanged', where(x))
    ck.need(n, 'command of CachePoW in the Redis store')

def c38(ck):
    """a ping is one PING, and true for the reply PONG and nothing else"""
    vt = 'redis::types::Value'
    a = ck.need(ck.e.adts.get(vt), 'the type of a reply')
    ss = next((i for i, v in enumerate(a['variants']) if v['name'] == 'SimpleString'), None)
    ck.need(ss is not None, 'the variant of a plain reply')
    PONG = st_('PONG')
    for t in ('crate::redis::RedisConnection', CONN):
        f = ck.method(t, 'ping')
        inst = t.split('::')[-1]; n = 0
        for p in ck.paths(f):
            if p.kind != 'ret': continue
            n += 1
            cs = cmds(p, ck)
            if not ck.ob('ping: one command', inst, len(cs) == 1, '%d commands are sent on one path' % len(cs), pspan(p)): continue
            w = argv(cs[0])
            ck.ob('ping: the right command', inst, w == [st_('PING')], 'the command is [%s]' % ', '.join(show(x) for x in (w or [])), where(cs[0]) or pspan(p))
            r = cs[0][3]; c = num(r)
            whole = eq(c, ('agg', vt, ss, (PONG,)))
            for want, what, bad, kind, same in ((False, 'the command failed', 1, None, None), (False, 'the reply is no text', 0, False, None), (True, 'the reply is PONG', 0, True, True), (False, 'the reply is another text', 0, True, False)):
                g = p.st.facts.copy()
                if g.var.get(r, bad) != bad or bad in g.nvar.get(r, ()): continue
                g.var[r] = bad
                if kind is False:
                    if g.var.get(c) == ss or c not in g.var and c not in g.nvar and any(eq(c, PONG) == b or contains(p.val, eq(c, PONG)) for b in list(g.bools) + [p.val]): continue
                if kind is True:
                    if g.var.get(c, ss) != ss or ss in g.nvar.get(c, ()): continue
                    g.var[c] = ss
                    for b in (eq(get(c, ('f', 0, ss)), PONG), eq(c, PONG)):
                        if not g.bot: g.assume(b, same)
                if bad == 0 and not g.bot: g.assume(whole, want)
                if g.bot: continue
                ck.ob('ping: the answer is the reply', inst + ': ' + what, g.ev(p.val) is want, 'the answer is %s although %s' % (show(p.val), what), pspan(p))
        ck.need(n, 'paths of ' + f['key'])

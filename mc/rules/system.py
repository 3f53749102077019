"""Submissions and challenge requests: C02, C10, C11, C16, C26."""
from ..core import *
from ..loops import counters, loop_ids
from .store import answer_of
SYS = 'crate::system::System'
RUN = 'crate::queue::Runnable'
WORK = 'crate::pow::Work'
CFG = 'mcaptcha_pow_sha256::Config'
V = CM + 'VerifyCaptchaResult'
CPC = CM + 'CachedPoWConfig'
AVR = 'crate::master::AddVisitorResult'
S = lambda n: ('sym', n)
F0 = lambda v, i: get(v, ('f', 0, i))

class Chain:
    """a request to an actor: what was awaited and how it ended"""
    def __init__(self, p, snd):
        self.snd = snd
        self.a = next((x for x in p.ev if x[0] == 'await' and x[2] == snd[4]), None)
        self.b = None
        f = p.st.facts
        self.steps = []
        if self.a:
            self.steps.append(self.a[3])
            ch = F0(self.a[3], 0)
            self.b = next((x for x in p.ev if x[0] == 'await' and x[2] == ch), None)
            if self.b:
                self.steps.append(self.b[3])
                self.steps.append(F0(self.b[3], 0))
        self.state = [f.var.get(s) for s in self.steps]
    @property
    def answered(self): return len(self.steps) == 3
    def result(self): return self.steps[2] if self.answered else None
    def ok(self): return self.answered and self.state == [0, 0, 0]
    def failed(self): return 1 in self.state

def isok(v): return v[0] == 'agg' and v[1] == RES and v[2] == 0
def iserr(v): return v[0] == 'agg' and v[1] == RES and v[2] == 1

def sends(p, tag): return [x for x in p.ev if x[0] == 'send' and x[6] == tag]

def jobs(ck, t, out=None):
    """values that are jobs inside a term"""
    out = [] if out is None else out
    if isinstance(t, tuple):
        if t and t[0] == 'agg' and isinstance(t[1], str) and runner(ck, t[1]): out.append(t); return out
        for x in t:
            if isinstance(x, tuple): jobs(ck, x, out)
    return out

def runner(ck, adt):
    l = [f for f in ck.e.fns if f['name'] == 'run' and (f.get('impl') or {}).get('trait') == RUN and f['impl'].get('self_adt') == adt]
    return l[0] if l else None

def txs(t, out=None):
    out = set() if out is None else out
    if isinstance(t, tuple):
        if t and t[0] == 'tx': out.add(t[:2]); return out
        for x in t:
            if isinstance(x, tuple): txs(x, out)
    return out

class Sub:
    """one path of a submission taken apart"""
    def __init__(self, ck, p, work=S('work')):
        self.ck, self.p = ck, p
        w = lambda n: ck.fld(work, WORK, n)
        self.string, self.result, self.nonce, self.key = w('string'), w('result'), w('nonce'), w('key')
        r = sends(p, CM + 'RetrivePoW')
        self.retrievals = r
        self.ret = Chain(p, r[0]) if r else None
        self.entry = F0(F0(self.ret.result(), 0), 1) if self.ret and self.ret.answered else None
        self.found = p.st.facts.var.get(F0(self.ret.result(), 0)) if self.entry is not None else None
        self.store = sends(p, CM + 'CacheResult')
        self.put = Chain(p, self.store[0]) if self.store else None
        self.handed = [(x, j) for x in p.ev if x[0] == 'send_chan' for j in jobs(ck, x[3])]
        self.job = self.handed[0][1] if self.handed else None
        # the queue's decision and the verdict: channels whose sending half went along
        self.verdict = self.decision = None
        self.vch = None
        if self.handed:
            ev, job = self.handed[0]
            jt = txs(job); rt = txs(ev[3]) - jt
            for x in p.ev:
                if x[0] == 'await':
                    rx = rxof(x[2])
                    if rx is None: continue
                    if ('tx', rx[1]) in jt: self.verdict = x; self.vch = ('tx', rx[1])
                    if ('tx', rx[1]) in rt: self.decision = x
    def verdict_ok(self):
        """the verdict awaited says Ok"""
        if not self.verdict: return False
        f = self.p.st.facts
        r = self.verdict[3]
        if self.verdict[1] == 'recv': return f.var.get(r) == 1 and f.var.get(F0(r, 1)) == 0
        return f.var.get(r) == 0 and f.var.get(F0(r, 0)) == 0
    def verdict_err(self):
        """the error the verdict carries, when it carries one"""
        if not self.verdict: return None
        f = self.p.st.facts
        r = self.verdict[3]
        k = 1 if self.verdict[1] == 'recv' else 0
        if f.var.get(r) == k and f.var.get(F0(r, k)) == 1: return F0(F0(r, k), 1)
        return None
    def decision_err(self):
        if not self.decision: return None
        f = self.p.st.facts; r = self.decision[3]
        if f.var.get(r) == 0 and f.var.get(F0(r, 0)) == 1: return F0(F0(r, 0), 1)
        return None
    def same_site(self):
        k = self.ck.fld(self.entry, CPC, 'key') if self.entry is not None else None
        return None if k is None else (True if k == self.key else self.p.st.facts.ev(eq(k, self.key)))

def rxof(t):
    if isinstance(t, tuple):
        if t and t[0] == 'rx': return t
        for x in t:
            if isinstance(x, tuple):
                r = rxof(x)
                if r: return r
    return None

def verify_paths(ck):
    f = ck.method(SYS, 'verify_pow')
    return f, [(p, Sub(ck, p)) for p in ck.paths(f, args=[SELF, S('work'), S('ip')])]

def pow_paths(ck):
    f = ck.method(SYS, 'get_pow')
    return f, ck.paths(f, args=[SELF, S('id')])

def jobpaths(ck, job):
    c = ck.__dict__.setdefault('_jobs', {})
    if job not in c:
        f = runner(ck, job[1])
        ck.roots.add(f['key'])
        c[job] = ck.e.analyse(f['key'], args=[job])
    return c[job]

def verdicts(ck, job, ch):
    """[(path, [sends on the verdict channel])]"""
    return [(q, [x for x in ck.unroll(q.ev) if x[0] == 'send_chan' and x[2][:2] == ch]) for q in jobpaths(ck, job)]

def equal(p, a, b): return a == b or p.st.facts.ev(eq(a, b)) is True

def asked(fa, d):
    """the difficulties that ask for the same work as d: zero asks for as little as one does"""
    return [d] + ([I(1)] if fa.ev(le(d, I(1))) is True else [])

def enough(fa, c, pw, d):
    """whether the work was found sufficient for a difficulty"""
    return next((v for x in asked(fa, d) for v in [fa.ev(('is_sufficient_difficulty', c, pw, x))] if v is not None), None)

def cfgof(ck, job, p):
    """the proof-of-work configuration a job checks with"""
    out = set()
    for q in jobpaths(ck, job):
        for x in q.ev:
            if x[0] == 'check': out.add(x[2][0])
    return out

def salt_source(ck):
    """configuration whose salt challenges are handed out with"""
    f, ps = pow_paths(ck)
    out = set()
    for p in ps:
        v = p.st.snap(p.val) if p.kind == 'ret' else None
        if v is not None and isok(v) and v[3][0][0] == 'agg' and v[3][0][2] == 1:
            s = ck.fld(F0(v[3][0], 1), 'crate::pow::PoWConfig', 'salt')
            out.add(s)
    return out

# ---------------------------------------------------------------- C02
def c02(ck):
    f, ps = verify_paths(ck)
    salts = salt_source(ck)
    n = m = 0
    for p, s in ps:
        if p.kind != 'ret': continue
        v = p.st.snap(p.val)
        yields = isok(v)
        if yields: n += 1
        if not yields and not s.store: continue
        m += 1
        w = 'verify_pow, token issued' if yields else 'verify_pow, token stored'
        sp = f.get('span')
        g = ck.ob('entry looked up', w, len(s.retrievals) == 1 and s.ret.ok() and s.found == 1, 'a token is issued or stored on a path where the store did not return an entry', sp)
        if not g: continue
        q = get(s.retrievals[0][3], ('f', 0, None))
        ck.ob('exactly the submitted challenge', w, ck.fld(q, V, 'token') == s.string and equal(p, ck.fld(q, V, 'key'), s.key), 'the entry looked up is that of %s' % show(q), sp)
        ck.ob('the entry belongs to the submitted site', w, s.same_site() is True, 'a token is issued or stored without comparing the entry\'s site with the submitted one', sp)
        g = ck.ob('the proof was judged', w, len(s.handed) == 1 and s.verdict is not None, 'a token is issued or stored without a verdict on exactly one queued proof', sp)
        if g:
            ck.ob('the verdict was good', w, s.verdict_ok(), 'a token is issued or stored whatever the verdict', sp)
            judged(ck, p, s, w, salts, sp)
        if s.store:
            c = s.store[0][3]
            ck.ob('one token per submission', w, len(s.store) == 1, '%d tokens are stored' % len(s.store), sp)
            ck.ob('token of the entry\'s site', w, equal(p, ck.fld(c, CM + 'CacheResult', 'key'), ck.fld(s.entry, CPC, 'key')), 'the token is stored for %s' % show(ck.fld(c, CM + 'CacheResult', 'key')), sp)
            ck.ob('token with the entry\'s lifetime', w, ck.fld(c, CM + 'CacheResult', 'duration') == ck.fld(s.entry, CPC, 'duration'), 'the token lives for %s' % show(ck.fld(c, CM + 'CacheResult', 'duration')), sp)
        if yields:
            ck.ob('the token issued is the one stored', w, bool(s.store) and s.put.ok() and get(v[3][0], ('f', 0, None)) == ck.fld(s.store[0][3], CM + 'CacheResult', 'token'),
                  'the token handed out is not the one whose storing was confirmed', sp)
    ck.need(n, 'a path of verify_pow that yields a token')
    # nothing else is stored by a submission
    for p, s in ps:
        other = [x for x in ck.unroll(p.ev) if x[0] == 'send' and x[6] not in (CM + 'RetrivePoW', CM + 'CacheResult', CM + 'DeletePoW')]
        ck.ob('stores nothing else', 'verify_pow', not other, 'the submission sends %s' % (other and other[0][6]), where(other[0]) if other else None)
        if s.store:
            addr = {x[2] for x in s.store} | {x[2] for x in s.retrievals}
            ck.ob('one store', 'verify_pow', len(addr) == 1, 'the entry is looked up in one store and the token kept in another', f.get('span'))

def judged(ck, p, s, w, salts, sp):
    """an Ok verdict of the queued job means both checks passed on exactly this submission"""
    d = ck.fld(s.entry, CPC, 'difficulty_factor')
    pw = ('pow', s.result, s.nonce)
    good = 0
    for q, vs in verdicts(ck, s.job, s.vch):
        for x in vs:
            val = q.st.snap(x[3])
            if iserr(val): continue
            good += 1
            cf = cfgof(ck, s.job, q)
            fa = q.st.facts
            c = next(iter(cf)) if len(cf) == 1 else None
            ck.ob('judged sufficiently difficult', w, c is not None and enough(fa, c, pw, d) is True, 'the job can report success without the submitted work being sufficient for the entry\'s difficulty', where(x))
            ck.ob('judged valid for the challenge', w, c is not None and fa.ev(('is_valid_proof', c, pw, s.string)) is True, 'the job can report success without the submitted work being valid for the submitted challenge', where(x))
            ck.ob('under the system\'s salt', w, c is not None and contains(c, SELF) and all(x_[0] == 'fld' and x_[1] == c for x_ in salts) and bool(salts), 'the proof is checked with %s' % (show(c) if c else 'several configurations'), where(x))
    ck.ob('a good proof can be accepted', w, good > 0, 'the job never reports success', sp)

# ---------------------------------------------------------------- C10
def c10(ck):
    f, ps = pow_paths(ck)
    PC = 'crate::pow::PoWConfig'
    CP = CM + 'CachePoW'
    n = 0
    for p in ps:
        sp = f.get('span')
        if not ck.ob('no panic', 'get_pow', p.kind == 'ret', 'a path panics', pspan(p)): continue
        v = p.st.snap(p.val)
        vis = sends(p, M + 'AddVisitor')
        ck.ob('the registry counts the visitor once', 'get_pow', len(vis) == 1 and F0(vis[0][3], None) == S('id'), 'not exactly one visitor of the requested site is counted', sp)
        if not vis: continue
        ch = Chain(p, vis[0])
        known = ch.ok() and p.st.facts.var.get(F0(ch.result(), 0)) == 1
        res = F0(F0(ch.result(), 0), 1) if ch.answered else None
        puts = sends(p, CP)
        if puts and not known:
            ck.ob('an unknown site stores nothing', 'get_pow', False, 'a challenge is stored although the registry reported no such site', where(puts[0])); continue
        if not known: ck.ob('an unknown site stores nothing', 'get_pow', True)
        handed = isok(v) and not (v[3][0][0] == 'agg' and v[3][0][1] == OPT and v[3][0][2] == 0)
        if handed: ck.ob('an unknown site gets no challenge', 'get_pow', known, 'a challenge is handed out although the registry reported no such site', sp)
        if known: ck.ob('a known site\'s challenge is stored', 'get_pow', len(puts) == 1, '%d challenges are stored' % len(puts), sp)
        other = [x for x in ck.unroll(p.ev) if x[0] == 'send' and x[6] not in (CP, M + 'AddVisitor')]
        ck.ob('nothing else is stored', 'get_pow', not other, 'get_pow sends %s' % (other and other[0][6]), where(other[0]) if other else None)
        if not (known and puts): continue
        c = puts[0][3]
        g = lambda nm: ck.fld(c, CP, nm)
        ck.ob('stored for that site', 'get_pow', g('key') == S('id'), 'stored for %s' % show(g('key')), where(puts[0]))
        ck.ob('stored with the difficulty reported', 'get_pow', g('difficulty_factor') == ck.fld(res, AVR, 'difficulty_factor'), 'stored with %s' % show(g('difficulty_factor')), where(puts[0]))
        ck.ob('stored with the duration reported', 'get_pow', g('duration') == ck.fld(res, AVR, 'duration'), 'stored with %s' % show(g('duration')), where(puts[0]))
        if handed:
            n += 1
            h = F0(v[3][0], 1)
            pc = Chain(p, puts[0])
            ck.ob('handed out only once stored', 'get_pow', pc.ok(), 'the challenge is handed out although storing it was not confirmed', sp)
            ck.ob('the challenge handed out is the one stored', 'get_pow', ck.fld(h, PC, 'string') == g('string'), 'handed out %s, stored %s' % (show(ck.fld(h, PC, 'string')), show(g('string'))), sp)
            ck.ob('the difficulty handed out is the one stored', 'get_pow', ck.fld(h, PC, 'difficulty_factor') == g('difficulty_factor'), 'handed out %s' % show(ck.fld(h, PC, 'difficulty_factor')), sp)
            ok_, why = fresh(ck, p, g('string'))
            ck.ob('a fresh challenge', 'get_pow', ok_, why, where(puts[0]))
            sl = ck.fld(h, PC, 'salt')
            ck.ob('with the system\'s salt', 'get_pow', sl[0] == 'fld' and contains(sl, SELF) and saltfield(ck, sl), 'the salt is %s' % show(sl), sp)
    ck.need(n, 'a path of get_pow that hands out a challenge')
    f2, ps2 = verify_paths(ck)
    n = 0
    cfgs = set()
    for p, s in ps2:
        if p.kind != 'ret': continue
        v = p.st.snap(p.val)
        if s.retrievals:
            q = get(s.retrievals[0][3], ('f', 0, None))
            ck.ob('enforced for the submitted challenge', 'verify_pow', ck.fld(q, V, 'token') == s.string, 'the entry looked up is that of %s' % show(q), f2.get('span'))
        if s.job: cfgs |= cfgof(ck, s.job, p)
        if isok(v) and s.entry is not None:
            n += 1
            ck.ob('reports the difficulty stored', 'verify_pow', get(v[3][0], ('f', 1, None)) == ck.fld(s.entry, CPC, 'difficulty_factor'), 'reports %s' % show(get(v[3][0], ('f', 1, None))), f2.get('span'))
        if s.job and s.entry is not None:
            for q in jobpaths(ck, s.job):
                for x in q.ev:
                    if x[0] == 'check' and x[1] == 'is_sufficient_difficulty':
                        ck.ob('the stored difficulty is enforced', 'verify_pow', x[2][2] in asked(q.st.facts, ck.fld(s.entry, CPC, 'difficulty_factor')), 'the work is compared with %s' % show(x[2][2]), where(x))
    ck.need(n, 'a path of verify_pow that reports a difficulty')

def saltfield(ck, t):
    """t is the salt of the configuration proofs are checked with"""
    f2, ps2 = verify_paths(ck)
    for p, s in ps2:
        if s.job:
            return cfgof(ck, s.job, p) == {t[1]}
    return False

# ---------------------------------------------------------------- C11
CSPRNG = ('rand::rngs::thread::rng', 'rand::rng', 'rand::thread_rng', 'rand::rngs::thread::thread_rng', 'SeedableRng::from_os_rng', 'SeedableRng::from_entropy', 'rand::rngs::std::StdRng::from_os_rng')
def secure(ck, t):
    """a generator seeded by the operating system"""
    if t[0] == 'agg': return t[1].endswith('::OsRng') or t[1].endswith('::SysRng')
    if t[0] == 'const' and 'OsRng' in str(t): return True
    if t[0] == 'ret':
        c = ck.e.calls.get(t[1])
        if not c: return False
        if c[0] in CSPRNG or c[0].endswith('from_os_rng') or c[0].endswith('from_entropy'):
            return not any(x in c[0] for x in ('Small', 'Mock', 'Step'))
    return False

def sampled(ck, ch):
    """the sample call behind one character of 62, or None"""
    x = ch
    while x[0] in ('chr', 'cast'): x = x[1]
    if x[0] == 'ret':
        c = ck.e.calls.get(x[1])
        if c and c[0].endswith('::sample') and len(c[1]) == 2 and c[1][1] == ('agg', 'rand::distr::other::Alphanumeric', 0, ()): return x, c[1][0]
    if x[0] == 'elem' and x[1][0] in ('bytes', 'str') and x[2][0] == 'ret':
        t = x[1][1] if isinstance(x[1][1], str) else bytes(x[1][1]).decode('latin1')
        c = ck.e.calls.get(x[2][1])
        if len(t) == 62 and len(set(t)) == 62 and t.isalnum() and c and c[0].endswith('random_range'):
            r = c[1][1]
            if r == ('agg', 'core::ops::range::Range', 0, (I(0), I(62))): return x[2], c[1][0]
    return None

def fresh(ck, p, t, least=32):
    """t is made anew on this path of at least `least` independent secure samples"""
    if t[0] == 'ret':
        c = ck.e.calls.get(t[1])
        made = any(x[0] == 'call' and x[3] == t for x in p.ev)
        if c and c[0].endswith('sample_string') and made:
            if c[1][0] != ('agg', 'rand::distr::other::Alphanumeric', 0, ()): return False, 'the characters are not the 62 alphanumeric ones'
            if not secure(ck, c[1][1]): return False, 'the generator %s is not known to be cryptographically secure' % show(c[1][1])
            if p.st.facts.ev(le(I(least), c[1][2])) is not True: return False, 'fewer than %d characters' % least
            return True, ''
        return False, 'the string comes from %s' % (c[0] if c else show(t))
    if t[0] != 'phi': return False, 'the string is %s, not freshly generated' % show(t)
    L = ck.e.loops.get(t[1])
    if L is None or L.id not in loop_ids(p.ev): return False, 'the string is not generated on this path'
    init = at_path(L.entry, t[2])
    if init != ('str', '') and init != ('vempty',): return False, 'the string starts as %s' % show(init)
    if not L.iters: return False, 'nothing is appended'
    for s in L.iters:
        v = at_path(s, t[2])
        ch = None
        if v is not None and v[0] == 'concat' and len(v) == 3 and v[1] == t: ch = v[2]
        elif v is not None and v[0] == 'vpush' and v[1] == t: ch = v[2]
        if ch is None: return False, 'an iteration appends something other than one character'
        sm = sampled(ck, ch)
        if sm is None: return False, 'the character appended is %s, not an independent sample of the 62 alphanumeric ones' % show(ch)
        if not any(x[0] == 'call' and x[3] == sm[0] for x in s.ev): return False, 'the sample is not drawn anew for every character'
        if not secure(ck, sm[1]): return False, 'the generator %s is not known to be cryptographically secure' % show(sm[1])
        why = chosen(ck, s, sm[0])
        if why: return False, 'a character is kept only if %s: not all 62 are possible' % why
    for q, i0 in counters(ck.e, L):
        if i0[0] == 'int' and p.st.facts.ev(le(I(least + i0[1]), q)) is True: return True, ''
    # until the text is long enough: one character of one byte each
    if p.st.facts.ev(le(I(least), vlen(t))) is True: return True, ''
    # counting down
    from ..loops import phi_slots
    for path, q, i0 in phi_slots(L):
        if i0 is not None and i0[0] == 'int' and all(at_path(s, path) == add(q, -1) for s in L.iters) and p.st.facts.ev(le(q, I(i0[1] - least))) is True: return True, ''
    return False, 'nothing shows that at least %d characters are drawn' % least

def lifetimes(ck):
    """C04: the configured lifetime reaches the store unchanged"""
    f, ps = pow_paths(ck)
    for p in ps:
        vis = sends(p, M + 'AddVisitor')
        ch = Chain(p, vis[0]) if vis else None
        if ch is None or not ch.answered: continue
        res = F0(F0(ch.result(), 0), 1)
        for x in sends(p, CM + 'CachePoW'):
            d = ck.fld(x[3], CM + 'CachePoW', 'duration')
            ck.ob('a challenge gets the lifetime of its site', 'get_pow', d == ck.fld(res, AVR, 'duration'), 'the challenge lives for %s' % show(d), where(x))
    f, ps = verify_paths(ck)
    for p, s in ps:
        for x in s.store:
            if not (s.ret and s.found == 1): continue
            d = ck.fld(x[3], CM + 'CacheResult', 'duration')
            ck.ob('a token gets the lifetime of its challenge', 'verify_pow', d == ck.fld(s.entry, CPC, 'duration'), 'the token lives for %s' % show(d), where(x))
    CR = CM + 'CacheResult'
    for g in ck.e.fns:
        im = g.get('impl') or {}
        if im.get('self_adt') == CR and (im.get('trait') or '').endswith('convert::From'):
            for p in ck.paths(g, args=[S('entry')]):
                if p.kind == 'ret':
                    d = ck.fld(p.st.snap(p.val), CR, 'duration')
                    ck.ob('a token gets the lifetime of its challenge', 'CacheResult::from', d == ck.fld(S('entry'), CPC, 'duration'), 'the token lives for %s' % show(d), g.get('span'))

# true of every letter and digit
ALWAYS = {'is_ascii_alphanumeric': True, 'is_alphanumeric': True, 'is_ascii': True, 'is_ascii_graphic': True, 'is_control': False, 'is_ascii_control': False,
          'is_whitespace': False, 'is_ascii_whitespace': False, 'is_ascii_punctuation': False}
def chosen(ck, s, r):
    """what the path s asks of the sample r"""
    seen = {r}
    told = lambda t: t is not None and any(contains(t, y) for y in seen)
    for x in s.ev:
        if x[0] == 'call' and len(x) > 3 and x[3] != r and any(told(y) for y in x[2]): seen.add(x[3])
    fa = s.facts
    for b, v in fa.bools.items():
        if not told(b): continue
        c = ck.e.calls.get(b[1]) if b[0] == 'ret' else None
        if c and ALWAYS.get(c[0].split('::')[-1]) is v: continue
        return '%s is %s' % (show(b), v)
    for (a, b), c in fa.le.items():
        if (told(a) or told(b)) and not (a is None and c == 0) and not (b is None and c in UMAX.values()): return 'its code lies in a range'
    for y in fa.ne:
        if told(y[0]) or told(y[1]): return 'its code is not some other'
    return None

def c11(ck):
    f, ps = pow_paths(ck)
    n = 0
    for p in ps:
        for x in sends(p, CM + 'CachePoW'):
            n += 1
            ok_, why = fresh(ck, p, ck.fld(x[3], CM + 'CachePoW', 'string'))
            ck.ob('a challenge is a fresh secure sample', 'get_pow', ok_, why, where(x))
        v = p.st.snap(p.val) if p.kind == 'ret' else None
        if v is not None and isok(v) and v[3][0][0] == 'agg' and v[3][0][2] == 1:
            ok_, why = fresh(ck, p, ck.fld(F0(v[3][0], 1), 'crate::pow::PoWConfig', 'string'))
            ck.ob('a challenge is a fresh secure sample', 'get_pow, handed out', ok_, why, f.get('span'))
    ck.need(n, 'a path of get_pow that stores a challenge')
    f, ps = verify_paths(ck)
    n = 0
    for p, s in ps:
        for x in s.store:
            n += 1
            ok_, why = fresh(ck, p, ck.fld(x[3], CM + 'CacheResult', 'token'))
            ck.ob('a token is a fresh secure sample', 'verify_pow', ok_, why, where(x))
            ck.ob('a token is not the challenge', 'verify_pow', ck.fld(x[3], CM + 'CacheResult', 'token') != s.string, 'the token is the challenge', where(x))
        v = p.st.snap(p.val) if p.kind == 'ret' else None
        if v is not None and isok(v):
            ok_, why = fresh(ck, p, get(v[3][0], ('f', 0, None)))
            ck.ob('a token is a fresh secure sample', 'verify_pow, handed out', ok_, why, f.get('span'))
    ck.need(n, 'a path of verify_pow that stores a token')
    # the public ways to make either one
    PC = 'crate::pow::PoWConfig'
    g = ck.method(PC, 'new', optional=True)
    if g:
        for p in ck.paths(g):
            if p.kind == 'ret':
                ok_, why = fresh(ck, p, ck.fld(p.st.snap(p.val), PC, 'string'))
                ck.ob('a challenge is a fresh secure sample', 'PoWConfig::new', ok_, why, g.get('span'))
    CR = CM + 'CacheResult'
    for g in ck.e.fns:
        im = g.get('impl') or {}
        if im.get('self_adt') == CR and (im.get('trait') or '').endswith('convert::From'):
            for p in ck.paths(g, args=[S('entry')]):
                if p.kind == 'ret':
                    ok_, why = fresh(ck, p, ck.fld(p.st.snap(p.val), CR, 'token'))
                    ck.ob('a token is a fresh secure sample', 'CacheResult::from', ok_, why, g.get('span'))

# ---------------------------------------------------------------- C16
def c16(ck):
    f, ps = verify_paths(ck)
    seen = set()
    n = 0
    for p, s in ps:
        if not s.job or s.job in seen: continue
        seen.add(s.job); n += 1
        chs = {s.vch} if s.vch else txs(s.job)
        ck.need(len(chs) == 1, 'the verdict channel of a queued proof')
        ch = next(iter(chs))
        for q, vs in verdicts(ck, s.job, ch):
            w = 'job of verify_pow'
            if not ck.ob('the worker survives', w, q.kind == 'ret', 'a path of the job panics (%s)' % (q.info or {}).get('msg'), pspan(q)): continue
            total = q.ev
            k = len([x for x in q.ev if x[0] == 'send_chan' and x[2][:2] == ch])
            inloop = len(vs) != k
            ck.ob('exactly one verdict', w, k == 1 and not inloop, '%s verdicts are sent on a path' % ('a varying number of' if inloop else k), pspan(q) or runner(ck, s.job[1]).get('span'))
            for x in vs:
                tx = x[2]
                cap = tx[3] if len(tx) > 3 else None
                ck.ob('without blocking', w, cap is None or cap == I(1) or (cap[0] == 'int' and cap[1] >= 1) or x[1] == 'oneshot', 'the worker can block on the verdict channel', where(x))
            bad = [x for x in ck.unroll(q.ev) if x[0] in ('await', 'recv', 'join') or (x[0] == 'call' and any(b in x[1] for b in ('sleep', 'block_on', 'park')))]
            ck.ob('without blocking', w + ' waits for nothing', not bad, 'the job waits', where(bad[0]) if bad else None)
        # a job that is thrown away, run or not
        for q in ck.e.dropped(s.job):
            w = 'destruction of a job of verify_pow'
            if not ck.ob('the worker survives', w, q.kind == 'ret', 'throwing a job away panics', pspan(q)): continue
            for x in ck.unroll(q.ev):
                if x[0] == 'send_chan' and x[2][:2] == ch:
                    v = q.st.snap(x[3])
                    ck.ob('no acceptance but by judging', w, iserr(v), 'a job that is thrown away answers %s' % show(v), where(x))
    ck.need(n, 'a queued proof')
    # failures never become success
    for p, s in ps:
        fa = p.st.facts
        if p.kind == 'panic':
            rep = reported(ck, p)
            ck.ob('a reported failure ends in an error', 'verify_pow', not rep, 'a failure reported by %s panics the request' % ', '.join(rep), pspan(p)); continue
        v = p.st.snap(p.val)
        rep = reported(ck, p)
        if rep: ck.ob('a reported failure ends in an error', 'verify_pow: ' + ', '.join(rep), iserr(v), 'the answer is %s' % show(v), f.get('span'))
        if isok(v):
            ck.ob('success only after every step succeeded', 'verify_pow', unlooked(ck, p) == [], 'success without looking at %s' % ', '.join(unlooked(ck, p)), f.get('span'))
    f, ps = pow_paths(ck)
    for p in ps:
        if p.kind == 'panic':
            rep = reported(ck, p)
            ck.ob('a reported failure ends in an error', 'get_pow', False, 'a path panics', pspan(p)); continue
        v = p.st.snap(p.val)
        rep = reported(ck, p)
        none_ = isok(v) and v[3][0][0] == 'agg' and v[3][0][1] == OPT and v[3][0][2] == 0
        if rep: ck.ob('a reported failure ends in an error or no challenge', 'get_pow: ' + ', '.join(rep), iserr(v) or none_, 'the answer is %s' % show(v), f.get('span'))
        if isok(v) and not none_:
            ck.ob('success only after every step succeeded', 'get_pow', unlooked(ck, p) == [], 'success without looking at %s' % ', '.join(unlooked(ck, p)), f.get('span'))

def steps(ck, p):
    """(what, result term, variant that means failure) of everything awaited on a path"""
    out = []
    for x in p.ev:
        if x[0] != 'await': continue
        if x[1] == 'send': out.append(('the mailbox', x[3], 1))
        elif x[1] == 'recv':
            out.append(('the verdict channel', x[3], 0))
            if p.st.facts.var.get(x[3]) == 1: out.append(('the verdict', F0(x[3], 1), 1))
        elif x[1] == 'other':
            out.append(('the reply channel', x[3], 1))
            if p.st.facts.var.get(x[3]) == 0: out.append(('the answer', F0(x[3], 0), 1))
    return out

def reported(ck, p): return [w for w, t, bad in steps(ck, p) if p.st.facts.var.get(t) == bad]
def unlooked(ck, p): return [w for w, t, bad in steps(ck, p) if p.st.facts.var.get(t) is None]

# ---------------------------------------------------------------- C26
def c26(ck):
    f, ps = verify_paths(ck)
    E = lambda n: ('agg', ERR, ck.errvar(n), ())
    seen = set()
    for p, s in ps:
        if p.kind != 'ret': continue
        v = p.st.snap(p.val)
        sp = f.get('span')
        other = [i for i, x in enumerate(p.ev) if x[0] in ('send_chan',) or (x[0] == 'send' and x[6] != CM + 'RetrivePoW')]
        first = next((i for i, x in enumerate(p.ev) if x[0] == 'send' and x[6] == CM + 'RetrivePoW'), None)
        aw = next((i for i, x in enumerate(p.ev) if s.ret and s.ret.b is not None and x == s.ret.b), None)
        ck.ob('the challenge is looked up first', 'verify_pow', first is not None and all(aw is not None and i > aw for i in other), 'something happens before the challenge was looked up', sp)
        if first is None: continue
        def expect(rule, cond, want):
            seen.add(rule)
            ck.ob(rule, 'verify_pow', iserr(v) and v[3][0] == want, 'the answer is %s, expected %s' % (show(v), show(want)), sp)
        st = s.ret.state
        if s.ret.answered and st == [0, 0, 1]: expect('errors of the store pass through: look-up', 1, F0(s.ret.result(), 1)); continue
        if not s.ret.ok(): ck.ob('a failed look-up is an error', 'verify_pow', iserr(v), 'the answer is %s' % show(v), sp); continue
        if s.found == 0: expect('unknown challenge: string not found', 1, E('StringNotFound')); continue
        if s.same_site() is False: expect('challenge of another site: site mismatch', 1, E('MCaptchaKeyValidationFail')); continue
        if isok(v) or iserr(v): ck.ob('challenge of another site: site mismatch', 'verify_pow', s.same_site() is True, 'the answer %s is given before the sites were compared' % show(v), sp)
        de = s.decision_err()
        if de is not None: expect('refused by the queue: the queue\'s error', 1, de); continue
        ve = s.verdict_err()
        if ve is not None: expect('rejected proof: the verdict\'s error', 1, ve); continue
        if s.put and s.put.answered and s.put.state == [0, 0, 1]: expect('errors of the store pass through: token', 1, F0(s.put.result(), 1)); continue
        if isok(v): seen.add('accepted')
    for r in ('errors of the store pass through: look-up', 'unknown challenge: string not found', 'challenge of another site: site mismatch', 'refused by the queue: the queue\'s error',
              'rejected proof: the verdict\'s error', 'errors of the store pass through: token', 'accepted'):
        ck.ob('every outcome is distinguished', r, r in seen, 'no path of verify_pow for this outcome', f.get('span'))
    done = set(); kinds = set()
    for p, s in ps:
        if not s.job or s.job in done or s.entry is None: continue
        done.add(s.job)
        pw = ('pow', s.result, s.nonce); d = ck.fld(s.entry, CPC, 'difficulty_factor')
        for q, vs in verdicts(ck, s.job, s.vch or next(iter(txs(s.job)))):
            cf = cfgof(ck, s.job, q)
            if len(cf) != 1: ck.ob('the job checks the proof', 'job', False, 'no single configuration'); continue
            c = next(iter(cf))
            suff = enough(q.st.facts, c, pw, d); val = q.st.facts.ev(('is_valid_proof', c, pw, s.string))
            for x in vs:
                t = q.st.snap(x[3])
                if suff is False: kinds.add('insufficient'); ck.ob('too little work: insufficient difficulty', 'job', t == err(E('InsuffiencientDifficulty')), 'the verdict is %s' % show(t), where(x))
                elif suff is True and val is False: kinds.add('invalid'); ck.ob('wrong proof: invalid', 'job', t == err(E('InvalidPoW')), 'the verdict is %s' % show(t), where(x))
                elif suff is True and val is True: kinds.add('good'); ck.ob('good proof: accepted', 'job', t[0] == 'agg' and t[1] == RES and t[2] == 0, 'the verdict is %s' % show(t), where(x))
                else: ck.ob('the job decides by both checks', 'job', False, 'the verdict %s is given without the work having been compared with the difficulty%s' % (show(t), ' and the proof checked' if suff is True else ''), where(x))
    ck.ob('every outcome is distinguished', 'job', kinds == {'insufficient', 'invalid', 'good'}, 'only %s' % sorted(kinds))
    from . import queue as qu
    Q = qu.system(ck); k = 0
    for lo in Q.loops:
        for it in lo.feasible + lo.leaving:
            if it.kind != 'sched' or not qu.rejected(it): continue
            a = qu.answer(it)
            if len(a) != 1: continue
            k += 1
            e = a[0][3][3][0]
            ck.ob('refused by the queue: queue full', 'queue', e == E('QueueFull'), 'the refusal reads %s' % show(e), qu.span(it))
    ck.need(k, 'a refusal by the queue')

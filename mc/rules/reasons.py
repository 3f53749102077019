"""C37: a refused configuration and a failing backend are reported as what they are."""
from ..core import *
from . import defense as DF
from ..loops import witnessed
from .defense import at, get, isok, iserr, setter

from .rediscmd import CONN
from .safety import SYSTEM

S = lambda n: ('sym', n)
FROM = 'core::convert::From'

def elems(facts, seqs):
    """index terms of the elements the path looked at, of any of these sequences"""
    out = []
    for a in list(facts.le):
        for x in a[:2]:
            if not x: continue
            for s in subterms(x):
                if s[0] == 'elem' and DF.unsorted(s[1]) in seqs and (s[1], s[2]) not in out: out.append((s[1], s[2]))
    return out

def c37(ck):
    t = ck.field(DF.LV, 'visitor_threshold'); d = ck.field(DF.LV, 'difficulty_factor')
    ct = setter(ck, DF.LB, 'visitor_threshold', None); cd = setter(ck, DF.LB, 'difficulty_factor', 'maybe')
    cdef = setter(ck, DF.MB, 'defense', None); cdur = setter(ck, DF.MB, 'duration', 'maybe')
    names = [v['name'] for v in ck.e.adts[ERR]['variants']]
    seen = set()
    def judge(w, f, args, known):
        for p in ck.paths(f, args=args):
            if p.kind != 'ret': continue
            v = p.st.snap(p.val)
            if not iserr(v): continue
            x = v[3][0]
            if not ck.ob('the reason is known', w, x[0] == 'agg' and x[1] == ERR, 'the error is %s' % show(x), f.get('span')): continue
            nm = names[x[2]]
            if nm not in known:
                ck.ob('only the reasons that can apply', w + ', ' + nm, False, 'refused as %s, which cannot be the reason here' % nm, f.get('span')); continue
            seen.add((w, nm))
            ck.ob('refused for the reason given', w + ', ' + nm, known[nm](p, x), 'refused as %s although that is not shown to be what is wrong' % nm, f.get('span'))
    F = lambda v, i: get(v, ('f', i, None))
    # ---- a level
    f = ck.method(DF.LB, 'difficulty_factor')
    judge('LevelBuilder::difficulty_factor', f, [SELF, S('given')], {'DifficultyFactorZero': lambda p, x: p.st.facts.ev(le(S('given'), I(0))) is True})
    unset = lambda slot: lambda p, x: p.st.facts.var.get(at(SELF, slot)) == 0
    f = ck.method(DF.LB, 'build')
    judge('LevelBuilder::build', f, [SELF], {'SetVisitorThreshold': unset(ct), 'SetDifficultyFactor': unset(cd),
          'DifficultyFactorZero': lambda p, x: p.st.facts.ev(le(get(at(SELF, cd), ('f', 0, 1)), I(0))) is True})
    # ---- a defense
    f = ck.method(DF.DB, 'add_level'); lev = S('level')
    slot = None
    for p in ck.paths(f, args=[SELF, lev]):
        ds = DF.diffs(DF.selfval(p.st), SELF)
        if p.kind == 'ret' and isok(p.st.snap(p.val)) and len(ds) == 1: slot = ds[0][0]
    ck.need(slot is not None, 'a successful path of add_level')
    seq = at(SELF, slot)
    def wit(p, pred): return any(all(pred(g) for g in grp) for grp in witnessed(ck.e, p))
    def dup(p, x):
        return wit(p, lambda g: any(g.ev(ieq(F(('elem', q, i), t), F(lev, t))) is True for q, i in elems(g, (seq,))))
    judge('DefenseBuilder::add_level', f, [SELF, lev], {'DuplicateVisitorCount': dup, 'DifficultyFactorZero': lambda p, x: p.st.facts.ev(le(F(lev, d), I(0))) is True})
    f = ck.method(DF.DB, 'build')
    def zero(p, x): return wit(p, lambda g: any(g.ev(le(F(('elem', q, i), d), I(0))) is True for q, i in elems(g, (seq,))))
    def pairs(g): return ((q, i, j) for q, i in elems(g, (seq,)) for r, j in elems(g, (seq,)) if r == q)
    def twins(p, x):
        return wit(p, lambda g: any(g.ev(ieq(F(('elem', q, i), t), F(('elem', q, j), t))) is True and g.ev(ieq(i, j)) is False for q, i, j in pairs(g)))
    def down(p, x):
        # thresholds of sorted levels ascend with the position
        return wit(p, lambda g: any(DF.sortkey(q) == F(('sym', '$elem'), t) and g.ev(lt(i, j)) is True and g.ev(lt(F(('elem', q, j), d), F(('elem', q, i), d))) is True for q, i, j in pairs(g)))
    judge('DefenseBuilder::build', f, [SELF], {'LevelEmpty': lambda p, x: p.st.facts.ev(le(('len', seq), I(0))) is True, 'DifficultyFactorZero': zero, 'DuplicateVisitorCount': twins, 'DecreaseingDifficultyFactor': down})
    # ---- a site
    f = ck.method(DF.MB, 'build')
    def unset_named(p, x):
        nm = x[3][0] if x[3] else None
        return any(p.st.facts.var.get(at(SELF, s)) == 0 and nm == ('str', w) for s, w in ((cdef, 'defense'), (cdur, 'duration')))
    judge('MCaptchaBuilder::build', f, [SELF], {'PleaseSetValue': unset_named, 'CaptchaDurationZero': lambda p, x: p.st.facts.ev(le(get(at(SELF, cdur), ('f', 0, 1)), I(0))) is True})
    ck.need(len(seen) >= 8, 'the refusals of the builders (found %d)' % len(seen))
    # ---- failures of what the library stands on
    n = 0
    for f in ck.e.fns:
        im = f.get('impl') or {}
        if im.get('self_adt') != ERR or im.get('trait') != FROM or f['name'] != 'from': continue
        src = im.get('trait_args', [None, '?'])[1]
        short = src.split('<')[0].split('::')[-1]
        n += 1
        for p in ck.paths(f, args=[S('cause')]):
            if not ck.ob('a failure becomes an error', short, p.kind == 'ret', 'converting the failure panics', f.get('span')): continue
            v = p.st.snap(p.val)
            good = v[0] == 'agg' and v[1] == ERR and names[v[2]] == short and (not v[3] or v[3][0] == S('cause'))
            if short not in names: good = v[0] == 'agg' and v[1] == ERR
            ck.ob('a failure is reported as its own kind', short, good, 'a failure of %s becomes %s' % (short, show(v)), f.get('span'))
    ck.need(n >= 3, 'the conversions of failures into errors (found %d)' % n)
    operations(ck, names)

def operations(ck, names):
    """every error an operation answers with is the failure that happened, or says that the reply makes no sense"""
    def wrapped(nm, v): return ('agg', ERR, names.index(nm), v)
    def failures(p):
        out = []
        for x in ck.unroll(p.ev):
            if x[0] == 'redis' and p.st.facts.var.get(x[3]) == 1: out.append(('Redis', wrapped('RedisError', (get(x[3], ('f', 0, 1)),))))
            elif x[0] == 'await' and p.st.facts.var.get(x[3]) == 1:
                if x[1] == 'send': out.append(('the mailbox', wrapped('MailboxError', ())))
                elif x[1] == 'other': out.append(('the reply channel', wrapped('RecvError', (get(x[3], ('f', 0, 1)),))))
        return out
    n = [0]
    def judge(w, p, v, span, redis):
        if v is None or not iserr(v): return
        x = v[3][0]; fs = failures(p)
        if fs:
            n[0] += 1
            what, want = fs[-1]
            ck.ob('a failure met by an operation is reported as its own kind', '%s, %s' % (w, what), x == want, '%s failed and the answer is %s' % (what, show(v)), span)
        elif redis and any(y[0] == 'redis' for y in ck.unroll(p.ev)):
            n[0] += 1
            ck.ob('a reply that makes no sense is reported as such', w, x == wrapped('MCaptchaRedisModuleError', ()), 'the server answered and the answer is %s' % show(v), span)
    for f in ck.methods(CONN):
        if not f.get('async') or not f.get('pub'): continue
        for p in ck.paths(f):
            if p.kind == 'ret': judge(f['name'], p, p.st.snap(p.val), pspan(p), True)
    for f in ck.methods(SYSTEM):
        if not f.get('async'): continue
        for p in ck.paths(f):
            if p.kind == 'ret': judge('System::' + f['name'], p, p.st.snap(p.val), pspan(p), False)
    for actor in (RCACHE, RMASTER, MASTER):
        for f in ck.handlers(actor):
            for p in ck.hpaths(f):
                if p.kind != 'ret': continue
                k, rx = reply_of(p)
                if k != 'later': continue
                for sp_, fps in ck.futures(p):
                    for q in fpaths(ck, actor, sp_, fps):
                        if q.kind != 'ret': continue
                        for e in ck.unroll(q.ev):
                            if e[0] == 'send_chan' and e[2][:2] == ('tx', rx[1]): judge(f['key'].split('Handler<')[-1], q, q.st.snap(e[3]), where(e) or pspan(q), actor != MASTER)
    ck.need(n[0] >= 10, 'operations that can fail (found %d)' % n[0])

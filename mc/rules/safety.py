"""What every handler owes the rest of the system: C17 (shared connection), C18 (panics), C19 (answers)."""
from ..core import *
from ..loops import phi_slots
from .queue import locate
from . import counter as cnt
S = lambda n: ('sym', n)
CTX = S('ctx')
STORES = (HASH, RCACHE, MASTER, RMASTER)
UNITMSG = UNIT

class Seg:
    """a stretch of code that runs: the events and state of one abstract path of it"""
    def __init__(self, root, actor, kind, ev, st, how, span, info=None, val=None, up=None):
        self.root, self.actor, self.kind, self.ev, self.st, self.how, self.span, self.info, self.val, self.up = root, actor, kind, ev, st, how, span, info, val, up

def segments(ck, root, actor, paths, ctx=CTX, site=None):
    """paths, and all that they start: [(Seg)], depth first; how = 'now', 'wait', 'spawn' (own context), 'task', 'timer'"""
    out = []
    def walk(ev, st, up):
        for x in ev:
            if x[0] == 'loop':
                for s in ck.e.loops[x[1]].iters: walk(s.ev, s, up)
            elif x[0] == 'spawn':
                how = x[1] if x[2] == ctx else 'task'
                for q in ck.e.future_paths(st, x[3]):
                    if infeasible(ck, q, actor, ctx, how if x[2] == ctx else 'task'): continue
                    g = Seg(root, actor, q.kind, q.ev, q.st, how, x[-1], q.info, q.val, up)
                    out.append(g)
                    if q.kind == 'ret': walk(q.ev, q.st, g)
            elif x[0] in ('run_later', 'run_interval'):
                s = st.copy(); s.ev = ()
                if site and actor == COUNTER: site.setup(s, None, base=LATER)
                for q in ck.e.paths(ck.e.call_value(s, x[3], [LATER, ctx])):
                    g = Seg(root, actor, q.kind, q.ev, q.st, 'timer', x[-1], q.info, q.val, up)
                    out.append(g)
                    if q.kind == 'ret': walk(q.ev, q.st, g)
    for p in paths:
        g = Seg(root, actor, p.kind, p.ev, p.st, 'now', None, p.info, p.val)
        out.append(g)
        if p.kind == 'ret': walk(p.ev, p.st, g)
        else: walk(p.ev, p.st, g) if p.st is not None else None
    return out

def hname(f):
    i = f['impl']
    return '%s %s' % (i['self_adt'].replace('crate::', ''), i['trait_args'][1].split('::')[-1])

def actors(ck):
    return sorted({f['impl']['self_adt'] for f in ck.handlers()} | {f['impl']['self_adt'] for f in ck.e.fns if f.get('impl') and f['impl'].get('trait') == ACTOR and f['impl'].get('self_adt')})

def lifecycle(ck, a):
    return [f for f in ck.e.fns if f.get('impl') and f['impl'].get('self_adt') == a and (f['impl'].get('trait') or '').startswith('actix::') and f['impl'].get('trait') != HANDLER and f['key'] in ck.e.bodies]

def actor_roots(ck, a, site=None):
    """[(name, function, paths)] of everything an actor runs by itself"""
    for f in ck.handlers(a):
        yield hname(f), f, (site.paths(f) if a == COUNTER and site else ck.hpaths(f))
    for f in lifecycle(ck, a):
        b = ck.e.bodies[f['key']]
        args = [SELF, CTX][:b['argc']]
        yield '%s %s' % (a.replace('crate::', ''), f['name']), f, (site.paths(f) if a == COUNTER and site and b['argc'] == 2 else ck.paths(f, args=args))

def allsegs(ck, site=None, only=None):
    for a in actors(ck):
        if only and a not in only: continue
        for nm, f, ps in actor_roots(ck, a, site):
            yield nm, f, segments(ck, nm, a, ps, site=site)

# ---------------------------------------------------------------- C17
GUARDS = ('cell::RefMut<', 'cell::Ref<', 'MutexGuard<', 'RwLockReadGuard<', 'RwLockWriteGuard<')
TAKES = ('borrow_mut', 'borrow')
def isguard(s): return s and any(g in s for g in GUARDS)

def holds(ck, ev, live=(), inloop=False):
    """walks a timeline; yields ('suspend', guards, await event) and ('again', guards, borrow event)"""
    live = list(live); base = len(live)
    for x in ev:
        if x[0] == 'borrow' and x[2] in TAKES:
            if any(l[1] == x[1] and (l[2] == 'borrow_mut' or x[2] == 'borrow_mut') for l in live): yield ('again', list(live), x)
            live.append(x)
        elif x[0] == 'call' and any(m in x[1] for m in ('RefCell::<T>::try_borrow', 'RefCell::try_borrow', 'Mutex::<T>::lock', 'Mutex::lock', 'RwLock')) and x[2]:
            live.append(('borrow', x[2][0], 'borrow_mut', x[4]))
        elif x[0] == 'drop' and isguard(x[2]) and live: live.pop()
        elif x[0] == 'forget' and live: pass
        elif x[0] == 'await' and live: yield ('suspend', list(live), x)
        elif x[0] == 'loop':
            for s in ck.e.loops[x[1]].iters: yield from holds(ck, s.ev, live, True)
    return

def c17(ck):
    n = cmds = 0
    users = {}
    for nm, f, segs in allsegs(ck):
        for g in segs:
            hs = list(holds(ck, g.ev))
            touched = [x for x in ck.unroll(g.ev) if x[0] == 'borrow' or x[0] == 'redis']
            cmds += len([x for x in touched if x[0] == 'redis'])
            users.setdefault(g.actor, []).append((nm, g, hs, touched))
    roots = set()
    for a, l in sorted(users.items()):
        suspends = any(h[0] == 'suspend' for _, _, hs, _ in l for h in hs)
        for nm, g, hs, touched in l:
            if touched: roots.add(nm)
            for kind, held, x in hs:
                n += 1
                if kind == 'again':
                    ck.ob('never borrowed twice', nm, False, 'the connection is borrowed while this request holds it already', where(x))
                else:
                    ck.ob('suspended with the connection only while the actor waits', nm, g.how == 'wait',
                          'the request suspends with the connection borrowed (%s) and is not run with ctx.wait, so another request can borrow it meanwhile' % where(held[-1]), g.span or where(x))
            if touched and not any(h[0] == 'suspend' for h in hs):
                n += 1
                # a borrow outside the actor's own context may run while another request is suspended with it
                ck.ob('used on the actor\'s own context only', nm, not (suspends and g.how == 'task' and any(x[0] == 'borrow' for x in touched)),
                      'the connection is used outside the actor\'s context while a request may be suspended with it', g.span)
    ck.need(cmds, 'commands sent to Redis by the request handlers')
    for a in (RCACHE, RMASTER):
        for f in ck.handlers(a): pass
    ck.notes['requests that use the connection'] = sorted(roots)
    ck.need(len(roots) >= 8, 'the request handlers that use the Redis connection (found %d)' % len(roots))
# ---------------------------------------------------------------- C18
def culprit(e, info):
    """(function of this crate the panic arises in, what fails)"""
    st = info.get('stack') or []
    own = [s for s in st if 'crate::' in s.split(' in ')[0].split('::<')[0] and not s.startswith('core::') and not s.startswith('std::') and not s.startswith('alloc::')]
    fn = own[-1].split(' in ')[0] if own else '?'
    fn = fn.split('::{closure')[0]
    w = info.get('msg') or '?'
    if info.get('fn', '').startswith('core::') or info.get('fn', '').startswith('std::'): w = '%s of %s' % (w, info['fn'].split('::<')[-1][:160])
    return fn, w

def c18(ck):
    site = cnt.Site(ck); n = 0
    def judge(nm, f, g):
        where_ = 'now' if g.how == 'now' else {'wait': 'future', 'spawn': 'future', 'task': 'task', 'timer': 'timer'}[g.how]
        if g.kind == 'panic':
            fn, what = culprit(ck.e, g.info)
            sp = g.info.get('span')
            ck.ob('no panic', '%s' % nm, False, '%s panics: %s (in %s, %s)' % (nm, what, fn, where_), sp if sp and not sp.startswith('/root') else (f.get('span')), key='no panic | %s: %s' % (nm, what))
        else: ck.ob('no panic', '%s, %s' % (nm, where_), True)
    for nm, f, segs in allsegs(ck, site):
        n += 1
        for g in segs: judge(nm, f, g)
    ck.need(n >= 25, 'the request handlers of stores, registries and counters (found %d)' % n)
    # connecting, the module check, and each operation of a connection
    k = 0
    for adt in (RCACHE, RMASTER, REDIS, MREDIS, MCON, RCON):
        for f in ck.methods(adt):
            if not f.get('async'): continue
            k += 1; nm = '%s::%s' % (adt.split('::')[-1], f['name'])
            ps = ck.paths(f)
            for g in segments(ck, nm, adt, ps): judge(nm, f, g)
    ck.need(k >= 15, 'the operations of a Redis connection (found %d)' % k)
    for a in (HASH, MASTER, COUNTER):
        for f in ck.methods(a):
            if f.get('pub') and not f.get('async') and f['key'] in ck.e.bodies and f['name'] == 'new':
                for g in segments(ck, a, a, ck.paths(f)): judge('%s::%s' % (a.split('::')[-1], f['name']), f, g)
    # the system's own requests, whatever store, registry and clients do
    for f in ck.methods(SYSTEM):
        if not f.get('async'): continue
        k += 1; nm = 'System::%s' % f['name']
        for p in ck.paths(f):
            if p.kind == 'panic':
                # handing a job to the manager thread, which lives as long as the queue does (C15)
                sf = [x for x in p.ev if x[0] == 'send_failed']
                last = next((x for x in reversed(p.ev) if x[0] not in ('drop', 'forget', 'borrow')), None)
                if sf and last is sf[-1] and not any(x[0] == 'redis' for x in p.ev) and last[1][0] != 'tx': continue
            judge(nm, f, Seg(nm, None, p.kind, p.ev, p.st, 'now', None, p.info, p.val))

REDIS = 'crate::redis::Redis'
RCON = 'crate::redis::RedisConnection'
MREDIS = 'crate::redis::mcaptcha_redis::MCaptchaRedis'
MCON = 'crate::redis::mcaptcha_redis::MCaptchaRedisConnection'
SYSTEM = 'crate::system::System'

# ---------------------------------------------------------------- C19
OUTCOME = ('send', 'redis', 'map', 'seq', 'start', 'await')
def sends_on(ck, ev, rxid, depth=0):
    """[(position path, event, in loop)] of answers on a channel in a timeline"""
    for i, x in enumerate(ev):
        if x[0] == 'send_chan' and x[2][0] == 'tx' and x[2][1] == rxid: yield ev[i + 1:], x, depth
        elif x[0] == 'loop':
            for s in ck.e.loops[x[1]].iters:
                for r in sends_on(ck, s.ev, rxid, depth + 1): yield r

def unitval(v): return v == UNIT

def c19(ck):
    n = later = 0
    for a in STORES:
        for f in ck.handlers(a):
            nm = hname(f); sp = f.get('span'); n += 1
            for p in ck.hpaths(f):
                if not ck.ob('answered on every path', nm, p.kind == 'ret', 'a path ends without an answer: it panics (%s)' % ((p.info or {}).get('msg')), pspan(p) or sp,
                             key='answered on every path | %s: %s' % (nm, (p.info or {}).get('msg'))): continue
                k, v = reply_of(p)
                segs = segments(ck, nm, a, [p])
                for g in segs:
                    # while a future is waited for the actor handles nothing: it must not await an answer of its own
                    if g.how == 'wait':
                        own = [x for x in ck.unroll(g.ev) if x[0] == 'await' and x[1] == 'send' and awaits_self(g, x)]
                        ck.ob('no request waits for its own actor', nm, not own, 'the actor waits for a message to itself: it answers nothing any more', where(own[0]) if own else sp)
                if k == 'now':
                    # the message's own result; what is still to be done must not decide it
                    if unitval(v): ck.ob('answered', nm, True); continue
                    bad = [g for g in segs if g.how in ('spawn', 'wait', 'task') and not istimer(g) and work(ck, g.ev)]
                    ck.ob('answered after the outcome is known', nm, not bad, 'the request is answered at once while its work is still to be done', bad[0].span if bad else sp)
                    continue
                later += 1
                rx = v[1]
                direct = list(sends_on(ck, p.ev, rx))
                futs = {}
                for g in segs:
                    if g.up is None: continue
                    futs.setdefault(g.span, []).append(g)
                infut = {s: [(g, list(sends_on(ck, g.ev, rx))) for g in gs] for s, gs in futs.items()}
                ans = [s for s, l in infut.items() if any(x for _, x in l)]
                loops = any(d for _, _, d in direct) or any(d for l in infut.values() for _, x in l for _, _, d in x)
                # exactly one answer, whichever way the future takes
                if direct:
                    ck.ob('answered exactly once', nm, len(direct) == 1 and not ans and not loops, 'a path answers %d times' % (len(direct) + len(ans)), where(direct[0][1]))
                    bad = [g for g in segs if g.how in ('spawn', 'wait', 'task') and not istimer(g) and work(ck, g.ev)]
                    ck.ob('answered after the outcome is known', nm, not bad, 'the request is answered while its work is still to be done', bad[0].span if bad else sp)
                else:
                    ok1 = ck.ob('answered on every path', nm, len(ans) == 1 and not loops, 'the answer is dropped: no path of %s sends it' % nm if not ans else 'several tasks answer', sp)
                    if not ok1: continue
                    for g, x in infut[ans[0]]:
                        if g.kind != 'ret':
                            ck.ob('answered on every path', nm + ', future', False, 'a path of the future panics before it answers (%s)' % (g.info or {}).get('msg'), pspan2(g) or sp); continue
                        ck.ob('answered exactly once', nm + ', future', len(x) == 1, 'a path of the future answers %d times' % len(x), g.span)
                        for rest, e_, d in x:
                            ck.ob('answered after the outcome is known', nm + ', future', not work(ck, rest), 'the answer is sent before the work is done', where(e_))
                            if not d: outcome(ck, a, nm + ', future', g, e_)
                    other = [g for g in segs if g.up is not None and g.span != ans[0] and g.how in ('spawn', 'wait', 'task') and not istimer(g) and work(ck, g.ev)]
                    ck.ob('answered after the outcome is known', nm, not other, 'another task still works for the request when it is answered', other[0].span if other else sp)
    for nm, f, segs in allsegs(ck, only=STORES):
        own = [x for g in segs for x in ck.unroll(g.ev) if x[0] == 'stop' and x[1] == CTX]
        ck.ob('a store or registry never stops by itself', nm, not own, 'it stops itself: the requests that wait for it or are being answered are dropped', where(own[0]) if own else f.get('span'))
    ck.need(n >= 23 and later >= 15, 'the requests of stores and registries (found %d, %d answered later)' % (n, later))
    # the answer channel reaches the requester: the request is answered with its receiving half, made on this path
    for a in STORES:
        for f in ck.handlers(a):
            for p in ck.hpaths(f):
                if p.kind != 'ret': continue
                k, v = reply_of(p)
                if k == 'later': ck.ob('answered on a channel of its own', hname(f), v[0] == 'rx' and isinstance(v[1], int), 'the answer comes on a shared channel', f.get('span'))

def awaits_self(g, x):
    for y in g.ev:
        if y[0] == 'send' and y[4] == x[2] and is_own(y[2]): return True
    return False

def outcome(ck, a, nm, g, e_):
    """the answer says what the operations of the request came to"""
    v = g.st.snap(e_[3])
    ops = [x for x in g.ev[:g.ev.index(e_)] if x[0] == 'await' and x[1] in ('send', 'redis')]
    good = v[0] == 'agg' and v[1] == RES and v[2] == 0
    bad = v[0] == 'agg' and v[1] == RES and v[2] == 1
    if good:
        fail = [x for x in ops if g.st.facts.var.get(x[3]) != 0]
        ck.ob('answered with the outcome', nm, not fail, 'the request is answered as successful although its operation failed or was not looked at', where(e_))
    elif bad and a == MASTER:
        ck.ob('answered with the outcome', nm, any(g.st.facts.var.get(x[3]) == 1 for x in ops), 'the request is answered with an error although nothing failed', where(e_))

def pspan2(g): return (g.info or {}).get('span')

def istimer(g):
    ef = [x for x in effects(g.ev)]
    return g.how == 'timer' or (bool(ef) and ef[0][0] == 'await' and ef[0][1] == 'sleep') or (bool(ef) and ef[0][0] == 'send' and False)

def work(ck, ev):
    """effects that belong to an operation's outcome"""
    return [x for x in ck.unroll(effects(ev)) if x[0] in ('send', 'redis', 'map', 'seq', 'start', 'stop') or (x[0] == 'await' and x[1] != 'sleep')]

# ---------------------------------------------------------------- C24
import re
BLOCKING = re.compile(r'''(?x)
  std::thread::(functions::|)(sleep|sleep_ms|sleep_until|park|park_timeout|yield_now|scope) | std::thread::scoped::scope | thread::JoinHandle.*::join | Thread::join
| std::fs:: | std::net:: | std::process::(Command|Child) | std::io::(stdio::|)(stdin|Stdin) | std::io::(Read|Write|BufRead)::
| sync::(mpsc|mpmc)::.*::(recv|recv_timeout|recv_deadline|iter|into_iter)$ | SyncSender.*::send$ | Condvar.*::wait | Barrier::wait | OnceLock.*::wait | sync::once::Once::wait
| crossbeam_channel::.*::(recv|recv_timeout|recv_deadline|send_timeout|send_deadline|select|select_timeout|ready)$ | crossbeam_utils::.*::(park|wait)
| block_on | block_in_place | blocking_recv | blocking_send | blocking_lock | blocking_read | blocking_write | reqwest::blocking | ureq:: | SystemRunner::run
| redis::cmd::Cmd::(query|execute|exec|iter|req_command) | redis::pipeline::Pipeline::(query|execute|exec) | redis::client::Client::get_connection(_with_timeout)?$ | ClusterClient::get_connection(_with_config)?$
| sync::(poison::|nonpoison::|)(mutex|rwlock|reentrant_lock)::.*::(lock|read|write)$ | parking_lot::.*::(lock|read|write)$ | lock_api::.*::(lock|read|write)$
| redis::commands::Commands:: | ConnectionLike::req_ | hint::spin_loop
''')
NOTASYNC = re.compile(r'async')
POLLS = re.compile(r'try_recv|try_lock|try_borrow|is_closed|is_finished|try_iter|Atomic\w*(::<.*>)?::load|Instant|SystemTime|elapsed|poll|is_terminated|strong_count|spin_loop|yield_now|now_or_never|is_empty$|connected')
COSTLY = re.compile(r'pow_sha256::.*(Config::|)(prove_work|calculate|score|is_valid_proof|is_sufficient_difficulty|prove_work_progress)')

def asyncsegs(ck):
    """[(root name, 'request'|'connecting'|'operation', function, Seg)] of all that runs on an executor's thread"""
    for nm, f, segs in allsegs(ck):
        for g in segs: yield nm, 'in a request', f, g
    seen = {f['key'] for f in ck.handlers()}
    for f in ck.e.fns:
        if not f.get('async') or f['key'] in seen or f['key'] not in ck.e.bodies: continue
        if (f.get('impl') or {}).get('derived'): continue
        nm = f['key'].replace('crate::', '')
        kind = 'while connecting' if ctor(f) else 'in a request'
        for g in segments(ck, nm, (f.get('impl') or {}).get('self_adt'), ck.paths(f)): yield nm, kind, f, g

def ctor(f):
    """an associated operation that makes a connection rather than uses one"""
    return (f.get('impl') or {}).get('self_adt') in (RCACHE, RMASTER, REDIS, MREDIS, RCFG) and not f['name'].startswith('is_')
RCFG = 'crate::redis::RedisConfig'

def bounded_channels(ck):
    """[(element type, span)] of channels whose sender may block"""
    out = []
    for k, b in ck.e.bodies.items():
        for blk in b['blocks']:
            t = blk[1]
            if t['k'] != 'call' or t['f'][0] != 'k' or 'fn' not in t['f'][1]: continue
            fn = t['f'][1]['fn']
            if fn['path'].split('::<')[0] in ('crossbeam_channel::channel::bounded', 'std::sync::mpsc::sync_channel'): out.append(((fn.get('args') or ['?'])[0], t.get('s')))
    return out

def progress(ck, L):
    """None if every round of the loop suspends or makes progress; else why not"""
    spin = []
    for s in L.iters:
        evs = list(ck.unroll(s.ev))
        aw = [x for x in evs if x[0] == 'await' and not re.search(r'yield_now|ready', str(x[2])) ]
        if aw: continue
        if any(x[0] == 'recv' for x in evs): continue      # blocking: reported as such
        polls = [x for x in evs if x[0] == 'call' and POLLS.search(x[1])]
        if polls: return 'it polls (%s) without suspending' % polls[0][1].split('::')[-1], where(polls[0])
        spin.append(s)
    if not spin: return None
    for path, q, init in phi_slots(L):
        if all(advances(at_path(s, path), q) for s in spin): return None
    return 'a round neither suspends nor makes progress', L.span

def advances(v, q):
    if v is None or v == q: return False
    if v[0] == 'add' and v[1] == q: return v[2] > 0 or True
    if v[0] in ('sub', 'plus') and v[1] == q: return True
    # a collection that shrinks, an iterator that moves on
    return contains(v, q) and v[0] not in ('minsert', 'mset')

def c24(ck):
    from ..loops import phi_slots as _ps
    n = 0; loops = set(); bounded = bounded_channels(ck); seen = set()
    site = None
    for nm, kind, f, g in asyncsegs(ck):
        n += 1; bad = []
        if g.how == 'task' and g.st is None: continue
        for x in ck.unroll(g.ev):
            op = None
            if x[0] == 'recv': op = 'receiving on a channel without suspending'
            elif x[0] == 'join': op = 'joining a thread'
            elif x[0] == 'check': op = 'checking a proof'
            elif x[0] == 'send_chan' and x[1] == 'thread':
                t = x[3][1] if x[3][0] == 'agg' else None
                tx = x[2]
                if tx[0] == 'tx' and tx[3] is not None: op = 'sending on a bounded channel'
                elif tx[0] != 'tx':
                    b = [c for c in bounded if t is None or not c[0].startswith('crate::') or c[0] == t or c[0].split('<')[0] == t]
                    if b: op = 'sending on a bounded channel'
            elif x[0] == 'call':
                if COSTLY.search(x[1]): op = 'computing a proof'
                elif BLOCKING.search(x[1]) and not x[1].endswith('_async'):
                    op = x[1].split('::<')[0]
                    if op.endswith('Cmd::query'): op = 'Cmd::query on %s' % conname(ck, x)
            elif x[0] == 'loop' and x[1] not in loops:
                loops.add(x[1]); L = ck.e.loops[x[1]]
                w = progress(ck, L)
                ck.ob('no busy waiting', '%s, loop %d of %s' % (nm, sum(1 for l in loops if ck.e.loops[l].name == L.name), short(L.name)), w is None, 'a loop on the executor\'s thread may spin: %s' % (w and w[0]), (w and w[1]) or L.span,
                      key='no busy waiting | %s: %s' % (nm, w and w[0]))
            if op: bad.append((op, x))
        for op, x in bad:
            ck.ob('does not block the executor', '%s %s: %s' % (nm, kind, op), False, '%s blocks the executor\'s thread: %s' % (nm, op), where(x) or f.get('span'), key='does not block the executor | %s %s' % (op, kind))
        if not bad: ck.ob('does not block the executor', nm, True)
    ck.need(n >= 100, 'the paths that run on an executor (found %d)' % n)
    ck.notes['loops judged'] = len(loops)
    # proofs are checked by the queued job, which only worker threads run (C12, C16)
    users = [k for k, b in ck.e.bodies.items() if b.get('local', True) for blk in b['blocks'] if callname(blk[1]) and COSTLY.search(callname(blk[1]))]
    ck.need(users, 'the place where proofs are checked')
    run = [f for f in ck.e.fns if f.get('impl') and (f['impl'].get('trait') or '').endswith('::Runnable') and f['name'] == 'run']
    ck.need(run, 'the job that checks a proof')
    reach = set()
    for f in run:
        for p in ck.paths(f):
            for x in ck.unroll(p.ev):
                if x[0] == 'check': reach.add(f['key'])
    ck.ob('proofs are checked by the queued job', 'Runnable::run', bool(reach), 'no queued job checks a proof', run[0].get('span'))

def callname(t):
    if t['k'] == 'call' and t['f'][0] == 'k' and 'fn' in t['f'][1]: return t['f'][1]['fn']['path']
    return None

def short(n): return n.split('::{')[0].split('::')[-1]

def conname(ck, x):
    """the connection a synchronous command is sent on: one made by a client's get_connection, or a variant of RedisConnection"""
    con = x[2][1] if len(x[2]) > 1 else None
    while isinstance(con, tuple) and con[0] == 'fld':
        b = con[1]
        if b[0] == 'ret' and len(b) > 2:
            made = ' '.join(str(i) for i in ck.e.calls.get(b[1], ())) + str(b[2])
            if 'get_connection' in made or 'get_conn' in made: return 'the Cluster connection' if 'luster' in made else 'a connection'
            return 'a connection'
        if con[2] is not None and b[0] in ('fld', 'sym'):
            a = ck.e.adts.get(RCON)
            return 'the %s connection' % a['variants'][con[2]]['name'] if a and con[2] < len(a['variants']) else 'a connection'
        con = b
    return 'a connection'

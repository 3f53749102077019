"""C40: challenges, tokens and the salt stay out of the log and the standard streams."""
import re
from ..core import *
from ..loops import at_path
from . import safety

SECRET = {(CM + 'CachePoW', 'string'), (CM + 'CacheResult', 'token'), (CM + 'VerifyCaptchaResult', 'token'), (CM + 'DeletePoW', '0'),
          (CM + 'DeleteCaptchaResult', 'token'), ('crate::pow::PoWConfig', 'string'), ('crate::pow::PoWConfig', 'salt'), ('crate::pow::Work', 'string'),
          ('crate::pow::QueuedWork', 'string'), ('crate::cache::AddChallenge', 'challenge'), ('mcaptcha_pow_sha256::Config', 'salt'),
          (CM + 'CachePoWBuilder', 'string'), (CM + 'CacheResultBuilder', 'token')}
# the names the in-memory store keeps challenges and tokens under
TABLES = {HASH}
# what turns a text into a text that still tells it (an unknown operation of the standard library)
TEXTOP = re.compile(r'^<?&?(mut )?(core|alloc|std)?(::)?(str|String|slice|Vec|iter|Iterator|char|string|vec|traits|DoubleEndedIterator|IntoIterator|ToString|Cow|borrow|Chars|Rev|FromIterator|ascii|fmt|collections)\b')
TELLS = re.compile(r'(len|count|is_\w+|contains\w*|starts_with|ends_with|find|rfind|position|eq|ne|cmp|partial_cmp|hash|capacity|eq_ignore_ascii_case|any|all|sum|parse|with_capacity)$')
PLAIN = ('len', 'vlen', 'eq', 'le', 'lt', 'ieq', 'not', 'cmp', 'has', 'mhas', 'isempty')

def terms(e, base, ty, out, depth=6):
    """the terms of base, a value of the type, that are or hold a secret; whether there are any"""
    if depth == 0: return False
    while True:
        ty = re.sub(r"^&('\w+ )?(mut )?", '', ty)
        m = re.match(r'^[\w:]*\b(Arc|Rc|Box|RefCell|Pin)<(.*)>$', ty)
        if not m: break
        ty = m.group(2)
    m = re.match(r'^[\w:]*\bOption<(.*)>$', ty)
    if m:
        hit = terms(e, get(base, ('f', 0, 1)), m.group(1), out, depth - 1)
    else:
        path = ty.split('<')[0]
        a = e.adts.get(path)
        if not a or a['kind'] != 'struct': return False
        item = e.items.get(path)
        hit = False
        for i, n in enumerate(a['variants'][0]['fields']):
            t = get(base, ('f', i, None))
            ft = item['fields'][i]['ty'] if item else ''
            opt = ft.startswith('core::option::Option<')
            if (path, n) in SECRET or path in TABLES and re.search(r'\b(HashMap|BTreeMap|HashSet|BTreeSet)<', ft):
                out.add(t); hit = True
                if opt: out.add(get(t, ('f', 0, 1)))
            elif ft and terms(e, t, ft, out, depth - 1): hit = True
    if hit: out.add(base)
    return hit

def leaks(e, t, secret, seen=()):
    """a part of the term that is or holds a secret"""
    if not isinstance(t, tuple) or not t: return None
    if t in secret: return t
    k = t[0]
    if k == 'ret':
        c = e.calls.get(t[1])
        if not c: return None
        if c[0].endswith('::sample') or c[0].endswith('sample_string'): return t
        if t in seen or not TEXTOP.search(c[0]) or TELLS.search(re.sub(r'::<.*', '', c[0])): return None
        return next((r for r in (leaks(e, x, secret, seen + (t,)) for x in c[1] if isinstance(x, tuple)) if r), None)
    if k == 'phi':
        # what a loop put together
        L = e.loops.get(t[1])
        if t in seen or L is None: return None
        return next((t for s in [L.entry] + L.iters for v in [at_path(s, t[2])] if v is not None and leaks(e, v, secret, seen + (t,))), None)
    if k in PLAIN or k in ('fld', 'mapval', 'mget', 'int', 'bool', 'str', 'bytes', 'sym', 'fn', 'rx', 'tx', 'const'): return None
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], tuple):
                for y in x:
                    r = leaks(e, y, secret, seen)
                    if r: return r
            else:
                r = leaks(e, x, secret, seen)
                if r: return r
    return None

def roots(ck):
    e = ck.e
    for a in safety.actors(ck):
        for f in ck.handlers(a) + safety.lifecycle(ck, a): yield a, f
    for f in e.fns:
        im = f.get('impl') or {}
        if im.get('trait') in (HANDLER, ACTOR) or im.get('derived') or f['key'] not in e.bodies: continue
        t = im.get('trait') or ''
        if f.get('pub') or t.endswith('::Runnable') or t.endswith('::Drop') or f.get('trait_default'):
            if t.startswith('serde') or f['path'].startswith('<') and 'serde' in f['path']: continue
            if f['path'].startswith('crate::queue::'): continue
            yield None, f

def c40(ck):
    e = ck.e; e.items = {i['path']: i for i in e.F['items']}; nr = 0; seen = 0; kinds = set()
    for actor, f in roots(ck):
        b = e.bodies[f['key']]
        args, secret = [], set()
        for i in range(1, b['argc'] + 1):
            nm = b['locals'][i][1] if len(b['locals'][i]) > 1 else None
            v = SELF if nm == 'self' or actor and i == 1 else ('sym', 'msg') if actor and i == 2 and b['argc'] == 3 else ('sym', 'ctx') if actor and i == b['argc'] else ('sym', 'a%d' % i)
            args.append(v); terms(e, v, e.types[b['locals'][i][0]]['s'], secret)
        nr += 1; kinds |= secret and {f['key']} or set()
        n0 = len(e.prints)
        ck.pcache.pop((f['key'], tuple(args), 'c40'), None)
        ps = ck.paths(f, args=args, tag='c40')
        safety.segments(ck, f['key'], actor, ps)
        for vals, span, fn, how in e.prints[n0:]:
            seen += 1
            bad = next((r for r in (leaks(e, v, secret) for v in vals) if r), None)
            ck.ob('nothing secret is written out', '%s in %s' % (f['key'], span), not bad,
                  '%s writes %s to %s' % (f['path'], show(bad) if bad else '', 'the log' if 'log' in how else 'a standard stream'), span)
        ck.ob('every operation is followed', f['key'], True)
    ck.need(len(kinds) >= 8, 'operations that handle challenges, tokens or the salt')
    ck.notes['operations followed'] = nr
    ck.notes['operations that hold a secret'] = len(kinds)
    ck.notes['writes to the log or the standard streams judged'] = seen

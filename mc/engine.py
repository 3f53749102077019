"""Path-sensitive abstract interpreter over the MIR facts of one crate.

It never runs the program: values are terms (terms.py), conditions are decided by the facts of the
path (variants, booleans, difference bounds) or followed both ways, loops are brought to a fixpoint by
widening, and calls of functions whose source belongs to the crate are followed into their bodies.
The result of analysing a function is the set of its abstract paths: for each one what was returned or
that it panics, the memory effects, the ordered events (messages, spawns, awaits, replies, external
calls, drops) and the facts that select the path.
"""
import json, os, re, sys
from .terms import *
sys.setrecursionlimit(20000)

MAXPATHS = 6000
DEBUG = bool(os.environ.get("MC_DEBUG"))

class Imprecise(Exception): pass

class St:
    __slots__ = ('mem', 'facts', 'ev', 'dropped')
    def __init__(self):
        self.mem = {}; self.facts = Facts(); self.ev = ()
    def copy(self):
        s = St.__new__(St)
        s.mem = dict(self.mem); s.facts = self.facts.copy(); s.ev = self.ev
        return s
    def add(self, *e):
        self.ev = self.ev + (e,)
    # --- memory
    def root(self, r):
        v = self.mem.get(r)
        if v is None:
            if r[0] == 'P': return r[1]
            return ('uninit',)
        return v
    def read(self, loc):
        v = self.root(loc[0])
        for p in loc[1]:
            v = get(v, p)
        return v
    def write(self, loc, val):
        root, projs = loc
        if not projs: self.mem[root] = val
        else: self.mem[root] = put(self.root(root), projs, val)
    def load(self, v):
        """the value behind a pointer value"""
        n = 0
        while True:
            if v[0] == 'ref': return self.read((v[1], v[2]))
            if ('P', v) in self.mem: return self.mem[('P', v)]
            return v
    def deep(self, v):
        n = 0
        while n < 20:
            w = self.load(v)
            if w == v or w[0] == 'uninit': return v
            v = w; n += 1
        return v
    def snap(self, v, d=0):
        """value with all pointers replaced by what they point to"""
        if d > 12: return v
        v = self.deep(v)
        k = v[0]
        if k == 'agg':
            return ('agg', v[1], v[2], tuple(self.snap(x, d + 1) for x in v[3]))
        if k == 'upd':
            return mk_upd(v[1], tuple((p, self.snap(x, d + 1)) for p, x in v[2]))
        if k in ('vpush', 'vcons', 'minsert', 'mset', 'vset', 'concat'):
            return (k,) + tuple(self.snap(x, d + 1) if is_term(x) else x for x in v[1:])
        if k == 'elem' and v[1][0] == 'agg': return ('elem', self.snap(v[1], d + 1), v[2])
        return v
    def loc(self, v):
        """location a pointer value points to"""
        if v[0] == 'ref': return (v[1], v[2])
        return (('P', v), ())

def get(v, p):
    k = v[0]
    if p[0] == 'f':
        if k == 'agg':
            if p[1] < len(v[3]): return v[3][p[1]]
            return ('bad', 'field')
        if k == 'upd':
            for q, x in v[2]:
                if q == p: return x
            return get(v[1], p)
        if k in ('moved', 'uninit'): return v
        return ('fld', v, p[2], p[1])
    if p[0] == 'key':
        while True:
            k = v[0]
            if k in ('minsert', 'mset'):
                if v[2] == p[1]: return v[3]
                v = v[1]
            elif k == 'mremove': v = v[1]
            else: return ('mapval', v, p[1])
    if p[0] == 'at':
        i = p[1]
        while True:
            k = v[0]
            if k == 'agg' and v[1] == 'array':
                if i[0] == 'int' and i[1] < len(v[3]): return v[3][i[1]]
                return ('elem', v, i)
            if k == 'vset':
                if v[2] == i: return v[3]
                return ('elem', v, i)
            if k == 'vpush':
                n = vlen(v[1])
                if n == i: return v[2]
                (a, b), (c, d) = lin(n), lin(i)
                if a == c and d < b: v = v[1]; continue
                return ('elem', v, i)
            if k == 'vcons':
                if i == I(0): return v[1]
                return ('elem', v, i)
            if k == 'vtail':
                i = add(i, 1); v = v[1]; continue
            if k == 'vmap': return replace(v[2], ('sym', '$i'), i)
            if k == 'vslice':
                if v[2][0] == 'int': i = add(i, v[2][1])
                elif i[0] == 'int': i = add(v[2], i[1])
                else: return ('elem', v, i)
                v = v[1]; continue
            return ('elem', v, i)
    if p[0] == 'front': return get(v, ('at', I(0)))
    raise Imprecise('projection %r' % (p,))

def replace(t, a, b):
    if t == a: return b
    if isinstance(t, tuple): return tuple(replace(x, a, b) for x in t)
    return t

def mk_upd(base, ov):
    if base[0] == 'upd':
        d = dict(base[2]); d.update(dict(ov)); return mk_upd(base[1], tuple(d.items()))
    if base[0] == 'agg':
        fs = list(base[3])
        for p, x in ov: fs[p[1]] = x
        return mk_agg(base[1], base[2], tuple(fs))
    ov = tuple(sorted(((p, x) for p, x in ov if x != get(base, p)), key=repr))
    if not ov: return base
    return ('upd', base, ov)

def mk_agg(tag, variant, fields):
    # a value taken apart and put together again is the value
    if fields and fields[0][0] == 'fld' and tag not in ('array',):
        b = fields[0][1]
        vr = fields[0][2]
        if all(f[0] == 'fld' and f[1] == b and f[3] == i and f[2] == vr for i, f in enumerate(fields)):
            if Engine.tag_of and Engine.tag_of(b) == (tag, len(fields), variant): return b
    return ('agg', tag, variant, fields)

def put(v, projs, val):
    p = projs[0]
    if len(projs) > 1: val = put(get(v, p), projs[1:], val)
    k = v[0]
    if p[0] == 'f':
        if k == 'agg':
            fs = list(v[3])
            while len(fs) <= p[1]: fs.append(('uninit',))
            fs[p[1]] = val
            return ('agg', v[1], v[2], tuple(fs))
        if k in ('uninit', 'moved'):
            fs = [(k,)] * p[1] + [val]
            return ('agg', '$part', p[2] or 0, tuple(fs))
        return mk_upd(v, ((p, val),))
    if p[0] == 'key':
        return ('mset', v, p[1], val) if not (k == 'mset' and v[2] == p[1]) else ('mset', v[1], p[1], val)
    if p[0] == 'at':
        if k == 'agg' and v[1] == 'array' and p[1][0] == 'int':
            fs = list(v[3]); fs[p[1][1]] = val
            return ('agg', 'array', 0, tuple(fs))
        if val == get(v, p): return v
        return ('vset', v, p[1], val)
    if p[0] == 'front': return put(v, (('at', I(0)),), val)
    raise Imprecise('write through %r' % (p,))

def vlen(v):
    k = v[0]
    if k == 'vempty' or k == 'mempty': return I(0)
    if k in ('vpush', 'minsert'): return add(vlen(v[1]), 1)
    if k == 'vcons': return add(vlen(v[2]), 1)
    if k in ('vtail', 'vinit', 'mremove'): return add(vlen(v[1]), -1)
    if k in ('vset', 'sorted', 'mset', 'vrev'): return vlen(v[1])
    if k == 'agg' and v[1] == 'array': return I(len(v[3]))
    if k == 'str': return I(len(v[1].encode()))
    if k == 'vmap': return v[1]
    if k == 'vrange': return ('sub', v[2], v[1]) if v[1] != I(0) else v[2]
    if k == 'vslice':
        (x, n), (y, m) = lin(v[3]), lin(v[2])
        if x == y: return I(n - m)
        if y is None: return add(v[3], -m)
        if x is not None and x[0] == 'plus' and y in x[1:]: return add(x[2] if x[1] == y else x[1], n - m)
        return ('sub', v[3], v[2])
    return ('len', v)

SOME, NONE = 1, 0
OPT = 'core::option::Option'
RES = 'core::result::Result'
POLL = 'core::task::poll::Poll'
def some(x): return ('agg', OPT, 1, (x,))
none = ('agg', OPT, 0, ())
def ok(x): return ('agg', RES, 0, (x,))
def err(x): return ('agg', RES, 1, (x,))
def ready(x): return ('agg', POLL, 0, (x,))
def tup(*x): return ('agg', 'tuple', 0, tuple(x))

class Path:
    """one abstract path of an analysed function"""
    def __init__(self, kind, st, val=None, info=None):
        self.kind = kind; self.st = st; self.val = val; self.info = info
        self.ev = st.ev

CONDS = ('le', 'ieq', 'eq', 'streq', 'strop', 'not', 'and', 'or', 'has', 'seq_contains', 'is_valid_proof', 'is_sufficient_difficulty', 'delivered', 'received')
class Loop:
    def __init__(self, lid): self.id = lid; self.entry = None; self.head = None; self.iters = []; self.exits = []; self.span = None

def strip_generics(p):
    out = []; d = 0; i = 0
    while i < len(p):
        c = p[i]
        if c == '<': d += 1
        elif c == '>' and not (i > 0 and p[i-1] == '-'): d -= 1
        elif d == 0: out.append(c)
        i += 1
    return re.sub(r'(::)+', '::', ''.join(out)).strip(':')

def split_as(p):
    """'<X as Y>::m' -> (X, Y, m); otherwise None"""
    if not p.startswith('<'): return None
    d = 0
    for i, c in enumerate(p):
        if c == '<': d += 1
        elif c == '>' and p[i-1] != '-':
            d -= 1
            if d == 0: break
    inner, rest = p[1:i], p[i+1:].lstrip(':')
    d = 0
    for j in range(len(inner)):
        c = inner[j]
        if c == '<': d += 1
        elif c == '>' and inner[j-1] != '-': d -= 1
        elif d == 0 and inner.startswith(' as ', j):
            return inner[:j], inner[j+4:], rest
    return None

def last(p): return strip_generics(p).split('::')[-1]

class FnRef:
    """a callee, with the names models are looked up by"""
    def __init__(self, d):
        self.d = d
        self.path = d['path']; self.rpath = d.get('rpath', d['path'])
        self.inst = d.get('inst'); self.ctor = d.get('ctor'); self.kind = d['kind']
        self.trait = d.get('trait'); self.derived = d.get('derived')
        names = []
        s = split_as(self.rpath)
        if s:
            x, y, m = s
            x = x.lstrip('&').strip()
            self.short = '%s::%s' % (last(x) if not x.startswith('(') else 'tuple', m)
            self.method = m
            names = ['<%s as %s>::%s' % (last(x), last(y), m), '%s::%s' % (last(y), m)]
        else:
            q = re.sub(r'<impl ([^>]*(?:<[^>]*>)?[^>]*)>', lambda mm: 'IMPL', self.rpath) if '<impl' in self.rpath else self.rpath
            mm = re.search(r'<impl (.*)>::(\w+)$', self.rpath)
            if mm and ' for ' not in mm.group(1):
                t = mm.group(1)
                t = 'slice' if t.startswith('[') else last(t)
                self.method = mm.group(2)
                self.short = '%s::%s' % (t, self.method)
                names = [self.short]
            elif mm:
                tr, ty = mm.group(1).split(' for ', 1)
                self.method = mm.group(2)
                self.short = '%s::%s' % (last(ty), self.method)
                names = ['<%s as %s>::%s' % (last(ty), last(tr), self.method), '%s::%s' % (last(tr), self.method)]
            else:
                g = strip_generics(self.rpath)
                parts = g.split('::')
                self.method = parts[-1]
                self.short = '::'.join(parts[-2:])
                names = [self.short, g]
        if self.trait:
            names.append('%s::%s' % (last(self.trait), d.get('method', self.method)))
        self.names = names
        self.full = strip_generics(self.rpath) or self.rpath
    def selfty(self, eng):
        t = self.d.get('self')
        return eng.types[t] if t is not None else None

PATHRE = re.compile(r'\bcrate(?:::[a-z][a-z_0-9]*)*::[A-Z]\w*')
FREERE = re.compile(r'"path":\s*"(crate(?:::[a-z][a-z_0-9]*)+)"')
def homes(text):
    """items that moved to another module of the crate keep, for the rules, the path they are known by: which module a name lives in is no behaviour"""
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'known_paths.txt')) as f: known = set(f.read().split())
    now = set(PATHRE.findall(text)) | set(FREERE.findall(text))
    gone, new = {}, {}
    for p in known - now: gone.setdefault(p.rsplit('::', 1)[1], []).append(p)
    for p in now - known: new.setdefault(p.rsplit('::', 1)[1], []).append(p)
    ren = {}
    def common(a, b):
        n = 0
        for x, y in zip(a.split('::')[:-1], b.split('::')[:-1]):
            if x != y: break
            n += 1
        return n
    for n, ps in gone.items():
        left = list(new.get(n, []))
        for p in sorted(ps):
            if not left: break
            best = max(common(p, q) for q in left)
            c = [q for q in left if common(p, q) == best]
            if len(c) != 1 or any(common(p2, c[0]) > best for p2 in ps if p2 != p): continue
            ren[c[0]] = p; left.remove(c[0])
    if not ren: return text
    return re.sub('|'.join(r'\b%s\b' % re.escape(q) for q in sorted(ren, key=len, reverse=True)), lambda m: ren[m.group(0)], text)

SYSTEM, QUEUE, JOB = 'crate::system::System', 'crate::queue::Manager', 'crate::queue::Runnable'
def internals(text):
    """the facts, with the parts of the queue that only the crate itself sees under the names the rules use, told by
    what they are: the queue a system holds, the trait of the jobs it takes, how it is made, given a job and runs one"""
    F = json.loads(text)
    hidden = {i['path'] for i in F['items'] if not i['pub'] and i['path'].startswith('crate::')}
    ren = {}
    for i in F['items']:
        if i['path'] == SYSTEM and QUEUE not in hidden:
            c = {x['ty'] for x in i['fields']} & hidden
            if len(c) == 1: ren[c.pop()] = QUEUE
    mgr = next(iter(ren), QUEUE)
    own = [f for f in F['fns'] if f.get('impl') and f['impl'].get('self_adt') == mgr and not f['impl'].get('trait')]
    dyn = lambda f: set(t for x in f['inputs'] for t in re.findall(r'\bdyn (crate::[\w:]+)', x))
    jobs = {t for f in own for t in dyn(f)}
    job = jobs.pop() if len(jobs) == 1 else None
    if job and job != JOB: ren[job] = JOB
    meth = {}
    def pick(owner, l, name, all_):
        if name not in {f['name'] for f in all_} and len({f['name'] for f in l}) == 1: meth[(owner, l[0]['name'])] = name
    if own:
        pick(QUEUE, [f for f in own if f['async'] and dyn(f)], 'add', own)
        pick(QUEUE, [f for f in own if f['output'] in (mgr, 'Self') and mgr not in ' '.join(f['inputs'])], 'new', own)
    if job:
        im = [f for f in F['fns'] if f.get('impl') and f['impl'].get('trait') == job]
        pick(JOB, im, 'run', im)
    if not ren and not meth: return F
    for q, p in ren.items(): text = re.sub(r'\b%s\b' % re.escape(q), p, text)
    for (o, a), b in meth.items(): text = re.sub(r'(\b%s>?::)%s\b' % (re.escape(o), re.escape(a)), lambda m: m.group(1) + b, text)
    F = json.loads(text)
    for f in F['fns']:
        im = f.get('impl') or {}
        for o in (im.get('self_adt') if not im.get('trait') else None, im.get('trait')):
            if (o, f['name']) in meth: f['name'] = meth[(o, f['name'])]
    for b in F['bodies']:
        for blk in b['blocks']:
            t = blk[1]
            if t['k'] == 'call' and t['f'][0] == 'k':
                fn = t['f'][1].get('fn')
                if fn and (fn.get('trait'), fn.get('method')) in meth: fn['method'] = meth[(fn['trait'], fn['method'])]
    return F

class Engine:
    tag_of = None
    def __init__(self, facts, panics_as_paths=True):
        if isinstance(facts, str): facts = internals(homes(open(facts).read()))
        self.F = facts
        self.types = facts['types']
        self.adts = facts['adts']
        self.bodies = {b['key']: b for b in facts['bodies']}
        self.fns = facts['fns']
        # trait impls written in the crate are followed, whatever library model their name would match
        self.handwritten = {f['key'] for f in self.fns if f.get('impl') and f['impl'].get('trait') and not f['impl'].get('derived')}
        self.uid = 0
        self.fnrefs = []; self._fnidx = {}
        self.calls = {}
        self.loops = {}; self.built = {}
        self.stack = []
        self.analysed = set()
        self.callsites = 0
        self.npaths = 0
        self.unknown = {}
        self._loopinfo = {}
        self.sendok = False
        from . import models
        self.models = models.MODELS
        self.modfns = models
        self.typetag = {}
        self.frame = 0
        self.observers = []
        self.prints = []     # what is written to the log or the standard streams
        Engine.tag_of = self._tag_of

    def _tag_of(self, b):
        return self.typetag.get(b)

    def fresh(self, name, *info):
        self.uid += 1
        t = ('ret', self.uid, name)
        if info: self.calls[self.uid] = info
        return t

    def fnref(self, d):
        i = id(d)
        if i not in self._fnidx:
            self._fnidx[i] = len(self.fnrefs); self.fnrefs.append(FnRef(d))
        return self._fnidx[i]

    # ---------------------------------------------------------------- types
    def place_ty(self, body, place):
        t = body['locals'][place[0]][0]
        for e in place[1:]:
            ty = self.types[t]
            if e == '*':
                if ty['k'] in ('ref', 'ptr'): t = ty['to']
                elif ty['k'] == 'adt' and ty.get('args'): t = ty['args'][0]
                else: return None
            elif e[0] == 'f': t = e[2]
            elif e[0] == 'v': pass
            elif e[0] in ('i', 'ci'):
                if ty['k'] in ('slice', 'array'): t = ty['to']
                else: return None
            elif e[0] == 'sub': pass
            else: return None
        return t

    def note_type(self, v, tid):
        """remember the shape of unknown values of struct and tuple types"""
        if tid is None or v in self.typetag: return
        if v[0] in ('agg', 'upd', 'ref', 'int', 'str', 'bool'): return
        ty = self.types[tid]
        while ty['k'] == 'ref': ty = self.types[ty['to']]
        if ty['k'] == 'tuple': self.typetag[v] = ('tuple', len(ty['args']), 0)
        elif ty['k'] == 'adt':
            a = self.adts.get(ty['adt'])
            if a and a['kind'] == 'struct':
                self.typetag[v] = (ty['adt'], len(a['variants'][0]['fields']), 0)

    # ---------------------------------------------------------------- places and operands
    def place(self, body, fr, st, place, forwrite=False):
        root = ('L', fr, place[0]); projs = ()
        variant = None
        t = body['locals'][place[0]][0]
        for n, e in enumerate(place[1:]):
            if e == '*':
                v = st.read((root, projs))
                if v[0] == 'ref': root, projs = v[1], v[2]
                elif v[0] in ('agg', 'upd', 'str', 'int', 'bool', 'uninit', 'moved', 'bytes', 'vpush', 'vempty', 'mempty', 'minsert', 'mset', 'mremove', 'vtail', 'vcons', 'vset', 'concat', 'uninit_box'):
                    pass
                else: root, projs = ('P', v), ()
                variant = None
            elif e[0] == 'f':
                projs = projs + (('f', e[1], variant),); variant = None
            elif e[0] == 'v': variant = e[1]
            elif e[0] == 'i':
                i = st.read((('L', fr, e[1]), ()))
                projs = projs + (('at', i),); variant = None
            elif e[0] == 'ci':
                if e[3]:
                    base = st.read((root, projs))
                    projs = projs + (('at', add(vlen(base), -e[1])),)
                else: projs = projs + (('at', I(e[1])),)
                variant = None
            else:
                raise Imprecise('place projection %r in %s' % (e, body['key']))
        return (root, projs)

    def operand(self, body, fr, st, op):
        if op[0] == 'k': return self.const(body, fr, st, op[1])
        loc = self.place(body, fr, st, op[1])
        v = st.read(loc)
        t = self.place_ty(body, op[1])
        if t is not None:
            ty = self.types[t]
            if ty['k'] == 'uint' : st.facts.know(v if v[0] != 'add' else v[1], ty['s'])
            self.note_type(v, t)
        if op[0] == 'm' and t is not None and self.types[t]['k'] not in ('int', 'uint', 'bool', 'char'):
            if not (self.types[t]['k'] == 'ref' and not self.types[t].get('mut')):
                if v[0] not in ('uninit',): st.write(loc, ('moved',))
        return v

    def const(self, body, fr, st, c):
        if 'fn' in c: return ('fn', self.fnref(c['fn']))
        if 'promoted' in c:
            pb = body['promoted'][c['promoted']]
            pb.setdefault('key', body['key'] + '#p%d' % c['promoted']); pb.setdefault('promoted', [])
            key = ('prom', body['key'], c['promoted'])
            # promoted constants have one value
            f = ('prom', body['key'], c['promoted'])
            for s, k, v in self.run_blocks(pb, f, 0, st.copy()):
                if k == 'ret':
                    for r in s.mem:
                        if r[0] == 'L' and r[1] == f: st.mem[r] = s.mem[r]
                    return st.mem[('L', f, 0)]
            raise Imprecise('promoted constant')
        return self.constval(c)

    def constval(self, c):
        t = self.types[c['t']] if 't' in c else {'k': 'bool'}
        whole = 'val' in c and t['k'] in ('adt', 'tuple', 'array')
        if 'bool' in c and not whole: return Bc(c['bool'])
        if 'int' in c and not whole:
            n = int(c['int'])
            if t['k'] == 'int':
                bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(t['s'], 64)
                if n >= 1 << (bits - 1): n -= 1 << bits
            return I(n)
        if 'str' in c: return ('str', c['str'])
        if 'bytes' in c: return ('bytes', tuple(c['bytes']))
        if 'val' in c:
            d = c['val']
            fs = tuple(self.constval(x) for x in d['fields'])
            if d.get('seq'): return ('agg', 'array', 0, fs)
            if d.get('tuple'): return ('agg', 'tuple', 0, fs)
            if t['k'] == 'adt': return ('agg', t['adt'], d.get('variant', 0), fs)
            return ('agg', t['k'] if t['k'] != 'array' else 'array', 0, fs)
        if t['k'] == 'tuple' and not t['args']: return UNIT
        if 'zst' in c:
            if t['k'] == 'adt': return ('agg', t['adt'], 0, ())
            if t['k'] in ('closure', 'coroutine'):
                for k, b in self.bodies.items():
                    if b['path'] == t['def']: return ('agg', 'closure', k, ())
            return ('const', t['s'])
        return ('const', c.get('const') or c.get('dbg') or t.get('s', '?'))

    # ---------------------------------------------------------------- conditions
    def split(self, st, b):
        """[(state, truth)] of the ways condition b can come out"""
        v = self.truth(st, b)
        if v is not None: return [(st, v)]
        if b[0] == 'not': return [(s, not x) for s, x in self.split(st, b[1])]
        if b[0] in ('and', 'or'):
            out = []
            for s, x in self.split(st, b[1]):
                if x == (b[0] == 'or'): out.append((s, x))
                else: out += self.split(s, b[2])
            return out
        out = []
        for val in (True, False):
            s = st.copy()
            if s.facts.assume(b, val): out.append((s, val))
        return out

    def truth(self, st, b):
        k = b[0]
        if k == 'and':
            x, y = self.truth(st, b[1]), self.truth(st, b[2])
            if x is False or y is False: return False
            if x and y: return True
            return None
        if k == 'or':
            x, y = self.truth(st, b[1]), self.truth(st, b[2])
            if x or y: return True
            if x is False and y is False: return False
            return None
        if k == 'not':
            v = self.truth(st, b[1])
            return None if v is None else not v
        return st.facts.ev(b)

    def variant(self, st, v, adt):
        """[(state, variant index)] of an enum value"""
        if v[0] == 'agg': return [(st, v[2])]
        if v[0] == 'upd': v = v[1]
        k = st.facts.var.get(v)
        if k is not None: return [(st, k)]
        n = len(self.adts[adt]['variants'])
        no = st.facts.nvar.get(v, frozenset())
        out = []
        poss = [i for i in range(n) if i not in no]
        for i in poss:
            s = st.copy() if len(poss) > 1 else st
            s.facts.var[v] = i
            out.append((s, i))
        return out

    # ---------------------------------------------------------------- control flow
    def loopinfo(self, body):
        key = id(body)
        if key in self._loopinfo: return self._loopinfo[key]
        bl = body['blocks']
        succ = {}
        for i, (_, t, cl) in enumerate(bl):
            k = t['k']
            if cl: succ[i] = []; continue
            if k in ('goto', 'drop', 'assert'): s = [t['t']]
            elif k == 'switch': s = [b for _, b in t['targets']] + [t['otherwise']]
            elif k == 'call': s = [t['t']] if 't' in t else []
            else: s = []          # yield: resumption is not a loop of the program
            succ[i] = s
        # dominators, iteratively over reachable blocks
        order = []; seen = set()
        stack = [(0, iter(succ[0]))]; seen.add(0)
        # blocks behind a yield are reached through the ready edge as well
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m); stack.append((m, iter(succ[m]))); break
            else:
                order.append(n); stack.pop()
        rpo = order[::-1]; idx = {n: i for i, n in enumerate(rpo)}
        pred = {n: [] for n in rpo}
        for n in rpo:
            for m in succ[n]: pred[m].append(n)
        dom = {n: set(rpo) for n in rpo}; dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for n in rpo[1:]:
                d = set.intersection(*(dom[p] for p in pred[n])) | {n} if pred[n] else {n}
                if d != dom[n]: dom[n] = d; ch = True
        loops = {}
        for n in rpo:
            for m in succ[n]:
                if m in dom[n]:
                    s = loops.setdefault(m, {m})
                    w = [n]
                    while w:
                        x = w.pop()
                        if x not in s:
                            s.add(x); w.extend(pred[x])
        self._loopinfo[key] = loops
        return loops

    def run_blocks(self, body, fr, start, st, header=None, within=None):
        """outcomes [(state, kind, value)]: 'ret', 'panic', 'back' (to header), 'exit' (left within)"""
        out = []
        work = [(start, st, True)]
        loops = self.loopinfo(body)
        blocks = body['blocks']
        while work:
            bb, st, first = work.pop()
            if st.facts.bot: continue
            if not (first and bb == start):
                if header is not None and bb == header:
                    out.append((st, 'back', None)); continue
                if within is not None and bb not in within:
                    out.append((st, 'exit', bb)); continue
            if bb in loops and not (bb == header and first):
                for s, k, v in self.mir_loop(body, fr, bb, loops[bb], st):
                    if k == 'exit':
                        if within is not None and v not in within: out.append((s, 'exit', v))
                        elif header is not None and v == header: out.append((s, 'back', None))
                        else: work.append((v, s, False))
                    else: out.append((s, k, v))
                self.check(out, work)
                continue
            stmts, t, cleanup = blocks[bb]
            states = [st]
            for s in stmts:
                nxt = []
                for x in states:
                    for y in self.pre(body, fr, x, s):
                        self.stmt(body, fr, y, s); nxt.append(y)
                states = nxt
            for x in states:
                for s, k, v in self.term(body, fr, x, t):
                    if k == 'goto': work.append((v, s, False))
                    else: out.append((s, k, v))
            self.check(out, work)
        return out

    def check(self, out, work):
        if len(out) + len(work) > MAXPATHS: raise Imprecise('too many paths in %s' % (self.stack[-1:],))

    def mir_loop(self, body, fr, header, blocks, st):
        def step(s):
            res = []
            for s2, k, v in self.run_blocks(body, fr, header, s, header=header, within=blocks):
                res.append((s2, k, v))
            return res
        span = None
        for b in sorted(blocks):
            sp = body['blocks'][b][1].get('s')
            if sp: span = sp; break
        return self.loop(st, step, ('%s:bb%d' % (body['key'], header)), span)

    def loop(self, st, step, name, span=None):
        """fixpoint over an arbitrary number of iterations of step"""
        if any(self.modfns.few(st, v) for v in st.mem.values()):
            # over a few things that are written down: turn by turn
            out, cur = [], [st]
            for turn in range(6):
                nxt = []
                for s in cur:
                    for s2, k, v in step(s.copy()):
                        if s2.facts.bot: continue
                        if k == 'back': nxt.append(s2)
                        else: out.append((s2, k, v))
                if len(nxt) > 4: break
                if not nxt: return out
                cur = nxt
        self.uid += 1
        lid = 'l%d' % self.uid
        base_ev = st.ev
        head = st.copy(); head.ev = ()
        step = self.lastlap(st, step)
        for rnd in range(12):
            res = step(head.copy())
            backs = [s for s, k, v in res if k == 'back']
            new = dict(head.mem)
            changed = False
            for b in backs:
                for r, v in b.mem.items():
                    if r not in new:
                        if r[0] == 'P':
                            old = r[1]
                        else:
                            continue
                    else: old = new[r]
                    if r in head.mem or r[0] == 'P':
                        j = self.join(st, b, lid, (r,), old, v)
                        if j != old or r not in new:
                            if not (r not in new and j == old):
                                new[r] = j; changed = True
            if not changed: break
            head.mem = new
        else:
            raise Imprecise('no fixpoint for loop %s' % name)
        # monotone integers: a value that only grows stays above its initial one
        inv = []
        for r, v in head.mem.items():
            for path, phi in phis_in(v, lid, (r,)):
                init = at_path(st, path)
                if init is None: continue
                if init[0] == 'phi' or not intlike(init):
                    # also accept values whose steps are integer additions
                    pass
                lo = hi = True
                for b in backs:
                    bv = at_path(b, path)
                    if bv is None: lo = hi = False; break
                    x, n = lin(bv)
                    if x != phi: lo = hi = False; break
                    if n < 0: lo = False
                    if n > 0: hi = False
                if backs and lo: inv.append(le(init, phi))
                # no loop goes round 2^48 times: what goes up by a constant at each turn stays far below 2^63
                if backs and lo and init[0] == 'int' and init[1] <= 2**48 and all(lin(at_path(b, path))[1] <= 2**10 for b in backs): inv.append(le(phi, I(2**62)))
                if backs and hi: inv.append(le(phi, init))
        # values that move in step keep their distance
        steps = {}
        for r, v in head.mem.items():
            for path, phi in phis_in(v, lid, (r,)):
                init = at_path(st, path)
                if init is None or not backs: continue
                ends = [at_path(b, path) for b in backs]
                if any(x is None for x in ends): continue
                if any(x[0] == 'vset' for x in ends) and all(vlen(x) == vlen(phi) for x in ends):
                    # a sequence whose elements change keeps its length
                    inv.append(ieq(vlen(phi), vlen(init))); continue
                if any(x[0] in ('vpush', 'vtail', 'vinit') for x in ends):
                    # a sequence that grows or shrinks: its length
                    ms = (vlen(phi), vlen(init), [vlen(x) for x in ends])
                else: ms = (phi, init, ends)
                if any(lin(x)[0] != ms[0] for x in ms[2]): continue
                ib, io = lin(ms[1])
                k = (ib, tuple(lin(x)[1] for x in ms[2]))
                if not any(k[1]): continue
                if k in steps: inv.append(ieq(ms[0], add(steps[k][0], io - steps[k][1])))
                else: steps[k] = (ms[0], io)
        if inv:
            for b in inv: head.facts.assume(b, True)
        # bounds kept by every iteration: phi <= end where the loop tests phi < end
        cand = []
        res = step(head.copy())
        backs = [s for s, k, v in res if k == 'back']
        for r, v in head.mem.items():
            for path, phi in phis_in(v, lid, (r,)):
                init = at_path(st, path)
                if init is None or not (intlike(init) or init[0] == 'int'): continue
                ends = set()
                for b in backs:
                    for (x, y), c in list(b.facts.le.items()):
                        if x == phi and y is not None and not contains(y, phi): ends.add(y)
                # a constant no iteration takes the value past
                top = []
                for b in backs:
                    bv = at_path(b, path)
                    x, n = lin(bv) if bv is not None else (None, 0)
                    d = 0 if bv is not None and x is None else b.facts.dist(x, None) if bv is not None else None
                    top.append(None if d is None else d + n)
                if top and None not in top and max(top) < 2**62:
                    x, n = lin(init); d = 0 if x is None else st.facts.dist(x, None)
                    if d is not None: ends.add(I(max(max(top), d + n)))
                for e in ends:
                    good = st.facts.ev(le(init, e)) is True
                    for b in backs:
                        bv = at_path(b, path)
                        if bv is None or b.facts.ev(le(bv, e)) is not True: good = False
                    if good: cand.append(le(phi, e))
        if cand:
            for b in cand: head.facts.assume(b, True)
            res = step(head.copy())
        L = Loop(lid); L.entry = st; L.head = head; L.span = span; L.name = name
        out = []
        for s, k, v in res:
            if s.facts.bot: continue
            if k == 'back': L.iters.append(s)
            else:
                L.exits.append((s, k, v, s.ev))
                s2 = s.copy()
                s2.ev = base_ev + (('loop', lid),) + s.ev
                out.append((s2, k, v))
        self.loops[lid] = L
        out = self.modfns.gathered(self, L, out)
        return out

    def lastlap(self, entry, step):
        """a turn that sets a flag which ends the loop at its next test leaves the loop"""
        def decided(v): return v[0] == 'bool' and v or (v[0] == 'agg' and len(v) > 2 and isinstance(v[1], str) and len(self.adts.get(v[1], {}).get('variants', ())) > 1 and ('agg', v[1], v[2])) or None
        def flags(b):
            for r, v in entry.mem.items():
                w = b.mem.get(r)
                if w is None or w == v: continue
                if w[0] == 'agg' and v[0] == 'agg' and w[1:3] == v[1:3]:
                    for x, y in zip(v[3], w[3]):
                        if x != y and isinstance(x, tuple) and decided(x) and decided(y) and decided(x) != decided(y): return True
                if decided(v) and decided(w) and decided(v) != decided(w): return True
            return False
        def told(s, b):
            """flags take the value their condition has"""
            out = [b]
            for r, v in entry.mem.items():
                if v[0] != 'bool': continue
                nxt = []
                for x in out:
                    w = x.mem.get(r); old = s.mem.get(r)
                    if w is None or w == old or w[0] not in CONDS: nxt.append(x); continue
                    for y, t in self.split(x, w):
                        y = y.copy(); y.mem[r] = old if old is not None and y.facts.ev(old) is t else Bc(t)
                        nxt.append(y)
                out = nxt
            return out if len(out) <= 8 else [b]
        def wrapped(s):
            res = []
            for b, k, v in step(s):
                if k != 'back' or b.facts.bot: res.append((b, k, v)); continue
                for c in told(s, b):
                    if flags(c):
                        more = step(c.copy())
                        if more and all(k2 != 'back' or x.facts.bot for x, k2, v2 in more): res += more; continue
                    res.append((c, k, v))
            return res
        return wrapped

    def join(self, st, b, lid, path, old, new):
        if old == new: return old
        if old[0] == 'phi' and old[1] == lid and old[2] == path: return old
        if old[0] == 'agg' and new[0] == 'agg' and old[1:3] == new[1:3] and len(old[3]) == len(new[3]):
            return ('agg', old[1], old[2], tuple(self.join(st, b, lid, path + (('f', i, None),), x, y) for i, (x, y) in enumerate(zip(old[3], new[3]))))
        if (old[0] == 'upd' or new[0] == 'upd'):
            ob = old[1] if old[0] == 'upd' else old
            nb = new[1] if new[0] == 'upd' else new
            if ob == nb:
                keys = set()
                for v in (old, new):
                    if v[0] == 'upd': keys |= {p for p, _ in v[2]}
                ov = tuple((p, self.join(st, b, lid, path + (p,), get(old, p), get(new, p))) for p in sorted(keys, key=repr))
                return mk_upd(ob, ov)
        if old[0] in ('moved', 'uninit') or new[0] in ('moved', 'uninit'):
            # not readable at the head: keep whichever says so
            return ('uninit',) if 'uninit' in (old[0], new[0]) else ('moved',)
        return ('phi', lid, path)

    # ---------------------------------------------------------------- statements
    def pre(self, body, fr, st, s):
        """states to run a statement in: reading which of two variants a value has decides it"""
        if 'r' in s and s['r'][0] == 'discr':
            r = s['r']
            t = self.types[r[2]]
            if t['k'] == 'adt' and len(self.adts[t['adt']]['variants']) == 2:
                v = st.read(self.place(body, fr, st, r[1]))
                if v[0] != 'agg': return [x for x, i in self.variant(st, v, t['adt'])]
        return [st]

    def stmt(self, body, fr, st, s):
        if 'r' in s:
            self.span = s.get('s') or self.span
            v = self.rvalue(body, fr, st, s['r'], s)
            loc = self.place(body, fr, st, s['p'])
            st.write(loc, v)
        elif 'setdiscr' in s:
            loc = self.place(body, fr, st, s['p'])
            v = st.read(loc)
            if v[0] == 'agg': st.write(loc, ('agg', v[1], s['setdiscr'], v[3]))
            else: raise Imprecise('set discriminant')
        elif 'live' in s: st.mem[('L', fr, s['live'])] = ('uninit',)
        elif 'dead' in s: st.mem[('L', fr, s['dead'])] = ('uninit',)

    span = None

    def rvalue(self, body, fr, st, r, s):
        k = r[0]
        if k == 'use': return self.operand(body, fr, st, r[1])
        if k == 'ref':
            if r[3]: return ('fake',)
            loc = self.place(body, fr, st, r[1])
            if loc[0][0] == 'P' and not loc[1]: return loc[0][1]   # reborrow
            if loc[0][0] != 'P' or loc[1]:
                v = st.read(loc)
                if not r[2] and v[0] == 'str' and r[1][-1] == '*': return v     # reborrow of a constant
                t = self.place_ty(body, r[1])
                self.note_type(v, t)
                if t is not None and self.types[t]['k'] == 'uint': st.facts.know(v if v[0] != 'add' else v[1], self.types[t]['s'])
            return ('ref', loc[0], loc[1])
        if k == 'bin': return self.binop(st, r[1], self.operand(body, fr, st, r[2]), self.operand(body, fr, st, r[3]), self.types[r[4]])
        if k == 'un':
            v = self.operand(body, fr, st, r[2])
            if r[1] == 'Not':
                return neg(v)
            if r[1] == 'PtrMetadata': return self.knowlen(st, vlen(st.deep(v)))
            if r[1] == 'Neg': return I(-v[1]) if v[0] == 'int' else ('op', 'neg', v)
            return ('op', r[1], v)
        if k == 'discr':
            v = st.read(self.place(body, fr, st, r[1]))
            t = self.types[r[2]]
            if t['k'] != 'adt': return ('discr', v, t['s'])
            if v[0] == 'agg': return I(self.discr_of(t['adt'], v[2]))
            x = v[1] if v[0] == 'upd' else v
            if x in st.facts.var: return I(self.discr_of(t['adt'], st.facts.var[x]))
            return ('discr', x, t['adt'])
        if k == 'agg':
            d = r[1]
            fs = tuple(self.operand(body, fr, st, x) for x in r[2])
            if d['k'] == 'adt':
                if 'union' in d: return fs[0]
                return mk_agg(d['adt'], d['v'], fs)
            if d['k'] in ('closure', 'coroutine', 'coroutine_closure'):
                return ('agg', d['k'], d['inst'], fs)
            if d['k'] == 'rawptr': return fs[0]
            return mk_agg(d['k'], 0, fs)
        if k == 'cast':
            v = self.operand(body, fr, st, r[1])
            to = self.types[r[2]]
            kind = r[3]
            if 'IntToInt' in kind:
                if v[0] == 'int':
                    m = UMAX.get(to['s'])
                    return I(v[1] & m) if m else v
                if v[0] == 'discr': return v
                m = UMAX.get(to['s'])
                if m:
                    d = st.facts.dist(lin(v)[0], None)
                    lo = st.facts.dist(None, lin(v)[0])
                    if d is not None and d + lin(v)[1] <= m and lo is not None: return v
                return ('cast', v, to['s'])
            if 'IntToFloat' in kind or 'FloatToInt' in kind or 'FloatToFloat' in kind: return ('cast', v, to['s'])
            return v
        if k == 'repeat':
            v = self.operand(body, fr, st, r[1])
            if 0 <= r[2] <= 16: return ('agg', 'array', 0, (v,) * r[2])
            return ('op', 'repeat', v, I(r[2]))
        if k == 'tls': return ('static', r[1])
        raise Imprecise('rvalue %s in %s' % (r, body['key']))

    def knowlen(self, st, n):
        x = lin(n)[0]
        if x is not None: st.facts.know(x, 'usize')
        return n

    def discr_of(self, adt, variant):
        return int(self.adts[adt]['variants'][variant].get('discr', variant))

    def binop(self, st, op, a, b, ty):
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        isint = ty['k'] in ('int', 'uint', 'char')
        if ty['k'] == 'int':
            # signed numbers come as their bits (the discriminant of Less is -1)
            n = int(''.join(c for c in ty['s'] if c.isdigit()) or 64)
            a, b = (('int', v[1] - 2**n) if v[0] == 'int' and v[1] >= 2**(n - 1) else v for v in (a, b))
        if isint:
            for x in (a, b):
                y = lin(x)[0] if x[0] in ('add', 'int') or True else x
                if y is not None and ty['k'] == 'uint': st.facts.know(y, ty['s'])
        if base in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if isint:
                r = {'Lt': lambda: lt(a, b), 'Le': lambda: le(a, b), 'Gt': lambda: lt(b, a), 'Ge': lambda: le(b, a), 'Eq': lambda: ieq(a, b), 'Ne': lambda: neg(ieq(a, b))}[base]()
                return r
            if base == 'Eq': return eq(a, b)
            if base == 'Ne': return neg(eq(a, b))
            if ty['k'] == 'bool' and a[0] == 'bool' and b[0] == 'bool':
                return Bc({'Lt': a[1] < b[1], 'Le': a[1] <= b[1], 'Gt': a[1] > b[1], 'Ge': a[1] >= b[1]}[base])
            return ('op', base, a, b)
        if base in ('Add', 'Sub', 'Mul'):
            v = self.arith(base, a, b)
            if 'WithOverflow' in op:
                mx = UMAX.get(ty['s'])
                o = ('op', 'overflow', base, a, b, ty['s'])
                if mx is not None:
                    if base == 'Add':
                        o = lt(I(mx), v)
                    elif base == 'Sub':
                        o = lt(a, b)
                        if v[0] in ('sub',): st.facts.know(v, ty['s'])
                    elif a[0] == 'int' and b[0] == 'int': o = Bc(a[1] * b[1] > mx)
                    else: o = lt(I(mx), v)
                elif a[0] == 'int' and b[0] == 'int': o = Bc(False)
                elif ty['s'] in IMAX and base in ('Add', 'Sub') and 'int' in (a[0], b[0]) and v[0] in ('int', 'add', 'phi', 'fld', 'sym'):
                    o = mkor(lt(I(IMAX[ty['s']]), v), lt(v, I(-IMAX[ty['s']] - 1)))
                return tup(v, o)
            return v
        if ty['k'] == 'bool' and base in ('BitAnd', 'BitOr', 'BitXor'):
            if base == 'BitAnd': return mkand(a, b)
            if base == 'BitOr': return mkor(a, b)
            return neg(eq(a, b))
        if a[0] == 'int' and b[0] == 'int':
            x, y = a[1], b[1]
            if base == 'Div' and y: return I(x // y)
            if base == 'Rem' and y: return I(x % y)
            if base == 'BitAnd': return I(x & y)
            if base == 'BitOr': return I(x | y)
            if base in ('Shl',): return I((x << y) & UMAX.get(ty['s'], 2**64 - 1))
            if base in ('Shr',): return I(x >> y)
        return ('op', base, a, b)

    def arith(self, base, a, b):
        if base == 'Add':
            if b[0] == 'int': return add(a, b[1])
            if a[0] == 'int': return add(b, a[1])
            (x, n), (y, m) = lin(a), lin(b)
            l = sorted((x, y), key=repr)
            # x + (y - x)
            for p, q in ((x, y), (y, x)):
                if q[0] == 'sub' and q[2] == p: return add(q[1], n + m)
            return add(('plus', l[0], l[1]), n + m)
        if base == 'Sub':
            if b[0] == 'int': return add(a, -b[1])
            (x, n), (y, m) = lin(a), lin(b)
            if x == y: return I(n - m)
            if x is not None and x[0] == 'plus':
                if x[1] == y: return add(x[2], n - m)
                if x[2] == y: return add(x[1], n - m)
            return ('sub', a, b)
        if a[0] == 'int' and b[0] == 'int': return I(a[1] * b[1])
        if a[0] == 'int': a, b = b, a
        if b[0] == 'int':
            if b[1] == 1: return a
            if b[1] == 0: return I(0)
            return ('mul', a, b[1])
        l = sorted((a, b), key=repr)
        return ('op', 'Mul', l[0], l[1])

    # ---------------------------------------------------------------- terminators
    def term(self, body, fr, st, t):
        k = t['k']
        if t.get('s'): self.span = t['s']
        if k == 'goto': return [(st, 'goto', t['t'])]
        if k == 'return':
            return [(st, 'ret', st.root(('L', fr, 0)))]
        if k == 'switch':
            d = self.operand(body, fr, st, t['d'])
            return self.switch(st, d, self.types[t['ty']], t)
        if k == 'assert':
            c = self.operand(body, fr, st, t['c'])
            out = []
            for s, v in self.split(st, c):
                if v == t['e']: out.append((s, 'goto', t['t']))
                else: out.append(self.panic(s, t['msg'], t.get('s')))
            return out
        if k == 'drop':
            if t['needs']:
                loc = self.place(body, fr, st, t['p'])
                res = []
                for s in self.drop_loc(st, loc, t.get('ty')):
                    if isinstance(s, tuple): res.append(s)
                    else: res.append((s, 'goto', t['t']))
                return res
            return [(st, 'goto', t['t'])]
        if k == 'call':
            return self.call_term(body, fr, st, t)
        if k == 'yield':
            return []     # resumption only: the ready path is followed instead
        if k in ('unreachable', 'resume', 'abort', 'coroutine_drop'):
            return []
        raise Imprecise('terminator %s' % k)

    def panic(self, st, msg, span=None, where=None):
        info = {'msg': msg, 'span': span or self.span, 'fn': where or (self.stack[-1] if self.stack else '?'), 'stack': list(self.stack)}
        return (st, 'panic', info)

    def switch(self, st, d, ty, t):
        tg = [(int(v), b) for v, b in t['targets']]
        other = t['otherwise']
        if d[0] == 'bool': d = I(1 if d[1] else 0)
        if d[0] == 'int':
            n = d[1]
            for v, b in tg:
                if v == n or (n < 0 and v == n & 0xff): return [(st, 'goto', b)]
            return [(st, 'goto', other)]
        if d[0] == 'cast' and d[1][0] == 'discr': d = d[1]
        if d[0] == 'discr':
            adt = d[2]
            out = []
            x = d[1][1] if d[1][0] == 'upd' else d[1]
            n = len(self.adts[adt]['variants'])
            named = {}
            for i in range(n):
                dv = self.discr_of(adt, i)
                for v, b in tg:
                    if v == dv: named[i] = b; break
            if d[1][0] == 'agg': return [(st, 'goto', named.get(d[1][2], other))]
            k = st.facts.var.get(x)
            if k is not None: return [(st, 'goto', named.get(k, other))]
            no = st.facts.nvar.get(x, frozenset())
            rest = [i for i in range(n) if i not in no and i not in named]
            if len(rest) == 1: named[rest[0]] = other; rest = []
            for i, b in named.items():
                if i in no: continue
                s = st.copy(); s.facts.var[x] = i
                out.append((s, 'goto', b))
            if rest:
                s = st.copy(); s.facts.nvar[x] = no | frozenset(named)
                out.append((s, 'goto', other))
            return out
        if ty['k'] == 'bool':
            out = []
            for s, v in self.split(st, d):
                n = 1 if v else 0
                for x, b in tg:
                    if x == n: out.append((s, 'goto', b)); break
                else: out.append((s, 'goto', other))
            return out
        out = []
        rest = st
        for v, b in tg:
            c = ieq(d, I(v)) if ty['k'] in ('int', 'uint', 'char') else eq(d, I(v))
            r = self.split(rest, c)
            rest = None
            for s, tv in r:
                if tv: out.append((s, 'goto', b))
                else: rest = s
            if rest is None: break
        if rest is not None: out.append((rest, 'goto', other))
        return out

    # ---------------------------------------------------------------- drops
    def drop_loc(self, st, loc, tid):
        """states after dropping the value at loc (or a panic outcome)"""
        v = st.read(loc)
        if v[0] in ('moved', 'uninit'): return [st]
        res = self.drop_val(st, v, tid, loc)
        for s in res:
            if not isinstance(s, tuple): s.write(loc, ('moved',))
        return res

    def awaited(self, ev, v):
        for x in ev:
            if x[0] == 'await' and x[2] == v: return True
            if x[0] == 'loop' and any(self.awaited(s.ev, v) for s in self.loops[x[1]].iters): return True
        return False

    def drop_val(self, st, v, tid, loc=None, depth=0):
        k = v[0]
        if k in ('moved', 'uninit', 'int', 'bool', 'str', 'fn', 'const', 'bytes', 'fake', 'vempty', 'mempty'): return [st]
        ty = self.types[tid] if tid is not None else None
        if ty is not None and ty['k'] in ('ref', 'ptr', 'uint', 'int', 'bool', 'char', 'str'): return [st]
        if v[0] == 'ref' and ty is None: return [st]
        if v[0] == 'fut' and v[1] == 'send' and not self.awaited(st.ev, v):
            # a request given up before anybody waited for it: a full mailbox never gets it
            st.add('drop', v, ty['s'] if ty is not None else None)
            if not any(x[0] == 'send' and x[4] == v for x in st.ev): return [st]
            s2 = st.copy(); s2.ev = ()
            for x in st.ev:
                if x[0] == 'send' and x[4] == v: s2.add('unsent', x[2], 'full', x[5])
                else: s2.ev += (x,)
            return [st, s2]
        if v[0] == 'ref' and ty is not None and ty['k'] == 'adt' and (v[1][0] == 'H'):
            st.add('drop', v, ty['s']); return [st]
        adt = None
        if ty is not None and ty['k'] == 'adt': adt = ty['adt']
        elif k == 'agg' and isinstance(v[1], str) and v[1] in self.adts: adt = v[1]
        states = [st]
        if adt == 'alloc::boxed::Box' and ty.get('args'):
            return self.drop_val(st, v, ty['args'][0], loc, depth + 1)
        if adt in self.adts and self.adts[adt].get('drop'):
            # the destructor of a type of the crate
            f = self.adts[adt]['drop']
            key = None
            for b in self.fns:
                if b['path'] == f: key = b['key']
            if key is None: raise Imprecise('destructor %s' % f)
            if loc is None:
                self.uid += 1
                loc = (('H', self.uid), ()); st.mem[loc[0]] = v
            out = []
            for s, kk, val in self.call_key(st, key, [('ref', loc[0], loc[1])]):
                if kk == 'ret': out.append(s)
                else: out.append((s, kk, val))
            states = out
            nv = None
        done = []
        for s in states:
            if isinstance(s, tuple): done.append(s); continue
            w = s.read(loc) if loc is not None else v
            cur = [s]
            comps = []
            if w[0] == 'agg':
                fts = [None] * len(w[3])
                if ty is not None and ty.get('fields') and len(ty['fields']) == len(w[3]): fts = ty['fields']
                elif ty is not None and ty['k'] == 'tuple': fts = ty['args']
                elif adt in (OPT, POLL) and ty is not None and ty.get('args') and w[3]: fts = [ty['args'][0]]
                elif adt == RES and ty is not None and len(ty.get('args', ())) == 2 and w[3]: fts = [ty['args'][w[2]]]
                comps = [(('f', i, w[2] if self.is_enum(adt) else None), x, fts[i] if i < len(fts) else None) for i, x in enumerate(w[3])]
            elif w[0] == 'upd' or (ty is not None and (ty.get('fields') or ty['k'] == 'tuple')):
                fts = (ty.get('fields') if ty is not None and ty['k'] == 'adt' else ty['args'] if ty is not None and ty['k'] == 'tuple' else None)
                if fts and depth < 8:
                    comps = [(('f', i, None), get(w, ('f', i, None)), ft) for i, ft in enumerate(fts)]
                elif w[0] == 'upd':
                    comps = [(p, x, None) for p, x in w[2]]
                else: s.add('drop', w, ty['s'] if ty else None)
            else:
                s.add('drop', w, ty['s'] if ty is not None else None)
            for p, x, ft in comps:
                nxt = []
                for c in cur:
                    if isinstance(c, tuple): nxt.append(c); continue
                    if x[0] in ('moved', 'uninit') or (x[0] == 'fld' and ft is None): nxt.append(c); continue
                    if ft is not None and self.types[ft]['k'] in ('uint', 'int', 'bool', 'char', 'ref'): nxt.append(c); continue
                    sub = (loc[0], loc[1] + (p,)) if loc is not None else None
                    nxt += self.drop_val(c, x, ft, sub, depth + 1)
                cur = nxt
            done += cur
        return done

    def is_enum(self, adt):
        return adt in self.adts and self.adts[adt]['kind'] == 'enum'

    # ---------------------------------------------------------------- calls
    def call_term(self, body, fr, st, t):
        f = self.operand(body, fr, st, t['f'])
        tys = []
        for x in t['args']:
            if x[0] == 'k': tys.append(x[1].get('t'))
            else: tys.append(self.place_ty(body, x[1]))
        args = [self.operand(body, fr, st, x) for x in t['args']]
        self.callsites += 1
        out = []
        span = t.get('s')
        for s, k, v in self.call(st, f, args, {'span': span, 'tys': tys, 'dty': t.get('dty'), 'body': body['key']}):
            if k == 'ret':
                if 't' not in t:
                    out.append(self.panic(s, '%s%s' % (t['f'][1]['fn']['path'].split('::')[-1] if t['f'][0] == 'k' and 'fn' in t['f'][1] else 'diverges', ''.join(' "%s"' % a[1] for a in args if a[0] == 'str')), span)); continue
                loc = self.place(body, fr, s, t['d'])
                s.write(loc, v)
                if v[0] not in CONSTS: self.note_type(v, t.get('dty'))
                dt = self.types[t['dty']]
                if dt['k'] == 'uint' and v[0] != 'int': s.facts.know(v if v[0] != 'add' else v[1], dt['s'])
                out.append((s, 'goto', t['t']))
            else: out.append((s, k, v))
        return out

    def call(self, st, f, args, cx):
        """outcomes of calling function value f"""
        if f[0] == 'fn':
            ref = self.fnrefs[f[1]]
            return self.call_ref(st, ref, args, cx)
        if f[0] == 'ref': return self.call(st, st.load(f), args, cx)
        if f[0] == 'agg' and f[1] == 'closure':
            return self.call_closure(st, f, args, cx)
        return self.external(st, None, [f] + list(args), cx, name='fnptr')

    def call_closure(self, st, f, args, cx, selfptr=None):
        """args: the arguments, not tupled"""
        key = f[2]
        b = self.bodies.get(key)
        if b is None: return self.external(st, None, args, cx, name='closure')
        # closures take themselves by value or by reference
        t = self.types[b['locals'][1][0]]
        if t['k'] == 'ref':
            if selfptr is None:
                self.uid += 1
                r = ('H', self.uid)
                st.mem[r] = f
                selfptr = ('ref', r, ())
            a0 = selfptr
        else: a0 = f
        # closure bodies take the arguments as further locals or as one tuple
        n = b['argc']
        if n == 1 + len(args): return self.call_key(st, key, [a0] + list(args))
        if n == 2: return self.call_key(st, key, [a0, tup(*args)])
        return self.call_key(st, key, [a0] + list(args))

    def call_value(self, st, fv, args, cx=None):
        """call of a function value held at a pointer or directly"""
        cx = cx or {'span': self.span, 'tys': [None] * len(args)}
        ptr = fv if fv[0] == 'ref' else None
        f = st.deep(fv)
        if f[0] == 'agg' and f[1] == 'closure': return self.call_closure(st, f, args, cx, ptr)
        if f[0] == 'fn': return self.call_ref(st, self.fnrefs[f[1]], args, cx)
        return self.external(st, None, [f] + list(args), cx, name='fnptr')

    def call_ref(self, st, ref, args, cx):
        if ref.ctor:
            return [(st, 'ret', mk_agg(ref.d['adt'], ref.d['variant'], tuple(args)))]
        for n in (ref.names if ref.inst not in self.handwritten else ()):
            m = self.models.get(n)
            if m is not None:
                try: r = m(self, st, ref, args, cx)
                except (IndexError, KeyError, TypeError, ValueError, AttributeError):
                    # a use no model foresees is an unknown call
                    if DEBUG: raise
                    r = NotImplemented
                if r is not NotImplemented: return r
        if ref.inst and ref.inst in self.bodies:
            if self.stack.count(ref.inst) >= 2:
                return self.external(st, ref, args, cx)
            return self.call_key(st, ref.inst, args)
        if ref.kind == 'virtual' and args:
            r = self.virtual(st, ref, args, cx)
            if r is not None: return r
        return self.external(st, ref, args, cx)

    def virtual(self, st, ref, args, cx):
        """dynamic dispatch on a value whose type is known"""
        v = st.deep(args[0])
        if v[0] == 'agg' and v[1] in self.adts:
            for f in self.fns:
                im = f.get('impl')
                if im and im.get('trait') == ref.trait and im.get('self_adt') == v[1] and f['name'] == ref.d.get('method'):
                    return self.call_key(st, f['key'], args)
        return None

    def call_key(self, st, key, args):
        b = self.bodies[key]
        self.analysed.add(key)
        self.uid += 1
        fr = self.uid
        sp = self.span
        for i, a in enumerate(args):
            st.mem[('L', fr, i + 1)] = a
            if a[0] not in ('agg', 'ref'): self.note_type(a, b['locals'][i + 1][0])
        self.stack.append(key)
        if len(self.stack) > 80: raise Imprecise('call depth')
        try:
            res = self.run_blocks(b, fr, 0, st)
        finally:
            self.stack.pop()
        self.span = sp
        out = []
        for s, k, v in res:
            # references into the frame do not outlive it
            if k == 'ret':
                for r in [r for r in s.mem if r[0] == 'L' and r[1] == fr]:
                    del s.mem[r]
            out.append((s, k, v))
        if b['kind'] == 'fn' and len(out) > 1:
            out = self.merge(out)
        return out

    def merge(self, out):
        """identical outcomes are one"""
        seen = []
        res = []
        for s, k, v in out:
            key = (k, v if k == 'ret' else None, s.ev)
            dup = False
            for k2, s2, v2 in seen:
                if k == 'ret' and k2 == key and s2.mem == s.mem and s2.facts.var == s.facts.var and s2.facts.nvar == s.facts.nvar and s2.facts.bools == s.facts.bools and s2.facts.le == s.facts.le and s2.facts.ne == s.facts.ne:
                    dup = True; break
            if not dup:
                seen.append((key, s, v)); res.append((s, k, v))
        return res

    def external(self, st, ref, args, cx, name=None):
        """a function whose body is not analysed"""
        nm = name or ref.full
        self.unknown[nm] = self.unknown.get(nm, 0) + 1
        snaps = tuple(st.snap(a) for a in args)
        r = self.fresh(nm.split('::')[-1] if nm else '?', nm, snaps)
        st.add('call', nm, snaps, r, cx.get('span'))
        for a, t in zip(args, cx.get('tys', ())):
            if t is not None and self.types[t]['k'] == 'ref' and self.types[t].get('mut'):
                loc = st.loc(a)
                cur = st.read(loc)
                # the context of an actor keeps its identity
                ts = self.types[self.types[t]['to']]['s']
                if 'Context' in ts or cur[0] == 'ref': continue
                st.write(loc, self.fresh('havoc', nm, snaps))
            elif a[0] == 'agg' and a[1] == 'closure':
                for up in a[3]:
                    if up[0] == 'ref': st.write((up[1], up[2]), self.fresh('havoc', nm, snaps))
        return [(st, 'ret', r)]

    # ---------------------------------------------------------------- roots
    def fn_named(self, **kw):
        out = []
        for f in self.fns:
            good = True
            for k, v in kw.items():
                im = f.get('impl') or {}
                x = {'trait': im.get('trait'), 'self_adt': im.get('self_adt'), 'name': f['name'], 'path': f['path'], 'targs': im.get('trait_args'), 'derived': im.get('derived')}.get(k)
                if callable(v):
                    if not v(x): good = False
                elif x != v: good = False
            if good: out.append(f)
        return out

    def analyse(self, key, args=None, setup=None):
        """abstract paths of the function with the given key"""
        b = self.bodies[key]
        st = St()
        if args is None:
            args = [('sym', 'a%d' % i if len(b['locals'][i]) < 2 else b['locals'][i][1]) for i in range(1, b['argc'] + 1)]
        if setup: setup(st, args)
        for i, a in enumerate(args):
            t = self.types[b['locals'][i + 1][0]]
            if t['k'] == 'uint': st.facts.know(a, t['s'])
        return self.paths(self.call_key(st, key, list(args)))

    def dropped(self, v):
        """abstract paths of destroying a value of a type of the crate"""
        st = St()
        self.uid += 1
        loc = (('H', self.uid), ()); st.mem[loc[0]] = v
        outs = []
        for s in self.drop_val(st, v, None, loc):
            outs.append(s if isinstance(s, tuple) else (s, 'ret', ('agg', 'tuple', 0, ())))
        return self.paths(outs)

    def paths(self, outs):
        res = []
        for s, k, v in outs:
            if s.facts.bot: continue
            if k == 'ret': res.append(Path('ret', s, v))
            elif k == 'panic': res.append(Path('panic', s, None, v))
            else: raise Imprecise('outcome %s' % k)
        self.npaths += len(res)
        return res

    def run_future(self, st, fut):
        """outcomes of driving a future to completion"""
        return self.modfns.poll_value(self, st, fut, {'span': self.span, 'tys': []})

    def future_paths(self, st, fut, fresh_ev=True):
        s = st.copy()
        if fresh_ev: s.ev = ()
        return self.paths(self.run_future(s, fut))

def intlike(t): return t[0] in ('int', 'add', 'phi', 'len', 'sub', 'plus', 'fld', 'sym')

def phis_in(v, lid, path):
    if v[0] == 'phi' and v[1] == lid: yield v[2], v
    elif v[0] == 'agg':
        for i, x in enumerate(v[3]): yield from phis_in(x, lid, path + (('f', i, None),))
    elif v[0] == 'upd':
        for p, x in v[2]: yield from phis_in(x, lid, path + (p,))

def at_path(st, path):
    try:
        v = st.root(path[0])
        for p in path[1:]: v = get(v, p)
        return v
    except Exception:
        return None

def mkand(a, b):
    if a[0] == 'bool': return b if a[1] else a
    if b[0] == 'bool': return a if b[1] else b
    return ('and', a, b)
def mkor(a, b):
    if a[0] == 'bool': return a if a[1] else b
    if b[0] == 'bool': return b if b[1] else a
    return ('or', a, b)

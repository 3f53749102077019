"""Meaning of library functions (std, actix, tokio, crossbeam, redis, ...) for the abstract interpreter."""
import re
from .terms import *
from . import engine as E
LATER = ('sym', 'later')
from .engine import some, none, ok, err, ready, tup, get, put, vlen, mk_agg, OPT, RES, mkand, mkor

MODELS = {}
def model(*names):
    def d(f):
        for n in names: MODELS[n] = f
        return f
    return d

def R(st, v): return [(st, 'ret', v)]

def bind(outs, f):
    """continue the returning outcomes with f(state, value)"""
    res = []
    for s, k, v in outs:
        if k == 'ret': res += f(s, v)
        else: res.append((s, k, v))
    return res

def selfty(eng, ref):
    t = ref.d.get('self')
    return eng.types[t]['s'] if t is not None else ''

def tyk(eng, tid):
    return eng.types[tid] if tid is not None else {'k': '?', 's': '?'}

def argty(eng, cx, i):
    t = cx.get('tys') or []
    return tyk(eng, t[i]) if i < len(t) and t[i] is not None else {'k': '?', 's': '?'}

def stripref(eng, ty):
    while ty['k'] == 'ref': ty = eng.types[ty['to']]
    return ty

# ------------------------------------------------------------------ ranges of numbers
@model('RangeInclusive::new')
def m_rincl(eng, st, ref, args, cx): return R(st, ('agg', 'core::ops::range::RangeInclusive', 0, (args[0], args[1])))

@model('Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains', 'RangeBounds::contains')
def m_rcontains(eng, st, ref, args, cx):
    r = st.load(args[0]); x = st.load(args[1])
    if r[0] != 'agg' or not r[1].startswith('core::ops::range::Range'): return NotImplemented
    k = r[1].rsplit('::', 1)[1]; f = r[3]
    lo = f[0] if k in ('Range', 'RangeInclusive', 'RangeFrom') else None
    hi = f[1] if k in ('Range', 'RangeInclusive') else f[0] if k in ('RangeTo', 'RangeToInclusive') else None
    a = le(lo, x) if lo is not None else Bc(True)
    b = Bc(True) if hi is None else lt(x, hi) if k in ('Range', 'RangeTo') else le(x, hi)
    return R(st, mkand(a, b))

# ------------------------------------------------------------------ pointers and conversions
@model('Deref::deref', 'DerefMut::deref_mut', 'AsRef::as_ref', 'AsMut::as_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut',
       'String::as_str', 'String::as_mut_str', 'Vec::as_slice', 'Vec::as_mut_slice', 'str::as_bytes', 'String::as_bytes',
       'VecDeque::make_contiguous', 'Box::as_ref', 'Box::as_mut', 'Box::leak')
def m_deref(eng, st, ref, args, cx):
    if ref.inst and ref.inst in eng.bodies and ref.rpath.startswith(('<crate', 'crate')): return NotImplemented
    p = args[0]
    v = st.read(st.loc(p))
    if v[0] == 'ref': return R(st, v)
    if v[0] == 'lazy': return R(st, v[1])
    return R(st, p)

@model('Clone::clone')
def m_clone(eng, st, ref, args, cx):
    if ref.inst and ref.inst in eng.bodies: return NotImplemented
    v = st.read(st.loc(args[0]))
    return R(st, v)

@model('Clone::clone_from', 'ToOwned::clone_into')
def m_clone_from(eng, st, ref, args, cx):
    st.write(st.loc(args[0]), st.load(args[1])); return R(st, UNIT)

@model('ToOwned::to_owned', 'slice::to_vec', 'str::to_owned', 'slice::into_vec', 'str::to_string', 'String::into_boxed_str', 'str::into_string', 'String::into_bytes', 'String::from_utf8_lossy', 'Cow::into_owned')
def m_owned(eng, st, ref, args, cx): return R(st, st.load(args[0]))

@model('ToString::to_string')
def m_to_string(eng, st, ref, args, cx):
    t = selfty(eng, ref).lstrip('&')
    v = st.deep(args[0])
    if t in ('str', 'alloc::string::String') or v[0] in ('str', 'concat') or 'Rc<alloc::string::String>' in t or 'Cow<' in t: return R(st, v)
    if v[0] == 'int': return R(st, ('str', str(v[1])))
    return R(st, ('to_string', st.snap(v)))

@model('<String as From>::from', '<Box as From>::from', '<Rc as From>::from', '<Arc as From>::from', '<Vec as From>::from', '<VecDeque as From>::from', 'core::convert::identity', 'core::hint::must_use', 'core::hint::black_box', 'FromStr::from_str')
def m_from(eng, st, ref, args, cx):
    if ref.names[0] == 'FromStr::from_str' or ref.method == 'from_str':
        if 'String' in ref.rpath: return R(st, ok(st.load(args[0])))
        return NotImplemented
    v = args[0]
    v = st.load(v) if v[0] == 'ref' and argty(eng, cx, 0)['k'] == 'ref' else v
    if ref.rpath.startswith('<alloc::collections::vec_deque::VecDeque') and v[0] == 'agg' and v[1] == 'array':
        w = ('vempty',)
        for x in v[3]: w = ('vpush', w, x)
        v = w
    return R(st, v)

@model('<char as From>::from')
def m_char_from(eng, st, ref, args, cx): return R(st, ('chr', args[0]))

@model('String::from_utf8')
def m_from_utf8(eng, st, ref, args, cx):
    """letters and digits drawn one by one are valid text"""
    v = args[0]
    if v[0] == 'phi':
        L = eng.loops.get(v[1])
        if L is not None and L.iters:
            from .loops import at_path
            good = at_path(L.entry, v[2]) in (('vempty',), ('str', ''))
            for s in L.iters:
                w = at_path(s, v[2])
                c = eng.calls.get(w[2][1]) if w is not None and w[0] == 'vpush' and w[1] == v and w[2][0] == 'ret' else None
                good = good and bool(c) and c[0].endswith('::sample') and len(c[1]) == 2 and c[1][1] == ('agg', 'rand::distr::other::Alphanumeric', 0, ())
            if good: return R(st, ok(v))
    return NotImplemented

@model('Box::new', 'Pin::new', 'Pin::new_unchecked', 'Pin::as_mut', 'Pin::get_mut', 'Pin::get_unchecked_mut', 'Pin::into_inner', 'Box::pin', 'Box::into_pin', 'IntoFuture::into_future', 'WrapFuture::into_actor', 'future::wrap_future', 'actix::fut::wrap_future', 'Wrapping', 'ManuallyDrop::new', 'Box::from', 'Box::into_inner', 'RefCell::new', 'Cell::new', 'Mutex::new', 'RwLock::new', 'RefCell::into_inner', 'ActorFutureExt::boxed_local', 'FutureExt::boxed_local', 'FutureExt::boxed', 'FutureExt::fuse', 'AtomicUsize::new', 'AtomicU32::new', 'AtomicU64::new', 'AtomicBool::new', 'AssertUnwindSafe', 'Vec::into_boxed_slice', 'Rc::unwrap_or_clone', 'Arc::unwrap_or_clone', 'String::into_string', 'Rc::into_inner_unchecked')
def m_ident(eng, st, ref, args, cx):
    return R(st, args[0])

@model('Rc::new', 'Arc::new')
def m_rc(eng, st, ref, args, cx):
    t = ref.d.get('targs') or ref.d.get('args')
    s = ' '.join(eng.types[x]['s'] for x in (ref.d.get('targs') or []))
    if any(x in s for x in ('Cell<', 'Mutex<', 'RwLock<', 'Atomic')) and not args[0][0] == 'ret':
        eng.uid += 1
        r = ('H', eng.uid)
        st.mem[r] = args[0]
        return R(st, ('ref', r, ()))
    return R(st, args[0])

@model('RefCell::borrow_mut', 'RefCell::borrow', 'RefCell::get_mut', 'Mutex::get_mut')
def m_borrow(eng, st, ref, args, cx):
    p = args[0]
    st.add('borrow', st.snap(p), ref.method, cx.get('span'))
    v = st.read(st.loc(p))
    return R(st, v if v[0] == 'ref' else p)

@model('Mutex::lock', 'RwLock::write', 'RwLock::read', 'RefCell::try_borrow_mut', 'RefCell::try_borrow')
def m_lock(eng, st, ref, args, cx):
    p = args[0]
    st.add('call', ref.full, (st.snap(p),), UNIT, cx.get('span'))
    s2 = st.copy()
    return R(st, ok(p)) + R(s2, err(eng.fresh('poison')))

@model('Cell::get', 'Cell::take_')
def m_cellget(eng, st, ref, args, cx): return R(st, st.load(args[0]))
@model('Cell::set')
def m_cellset(eng, st, ref, args, cx):
    st.write(st.loc(args[0]), args[1]); return R(st, UNIT)
@model('core::mem::replace', 'Option::replace_', 'Cell::replace', 'RefCell::replace')
def m_replace(eng, st, ref, args, cx):
    l = st.loc(args[0]); v = st.read(l); st.write(l, args[1]); return R(st, v)
@model('core::mem::take')
def m_take(eng, st, ref, args, cx):
    l = st.loc(args[0]); v = st.read(l)
    t = eng.types[ref.d['targs'][0]]
    st.write(l, default_of(eng, t)); return R(st, v)
@model('core::mem::swap')
def m_swap(eng, st, ref, args, cx):
    a, b = st.loc(args[0]), st.loc(args[1])
    x, y = st.read(a), st.read(b)
    st.write(a, y); st.write(b, x); return R(st, UNIT)
@model('core::mem::drop', 'Box::drop')
def m_drop(eng, st, ref, args, cx):
    tid = ref.d['targs'][0] if ref.d.get('targs') else None
    eng.uid += 1
    loc = (('H', eng.uid), ()); st.mem[loc[0]] = args[0]
    out = []
    for s in eng.drop_loc(st, loc, tid):
        if isinstance(s, tuple): out.append(s)
        else: out.append((s, 'ret', UNIT))
    return out
@model('core::mem::forget')
def m_forget(eng, st, ref, args, cx):
    st.add('forget', st.snap(args[0]), cx.get('span')); return R(st, UNIT)

@model('core::intrinsics::discriminant_value', 'core::mem::discriminant')
def m_discr(eng, st, ref, args, cx):
    v = st.load(args[0])
    t = eng.types[ref.d['targs'][0]]
    if t['k'] != 'adt': return R(st, ('discr', v, t['s']))
    if v[0] == 'agg': return R(st, I(eng.discr_of(t['adt'], v[2])))
    x = v[1] if v[0] == 'upd' else v
    return [(s, 'ret', I(eng.discr_of(t['adt'], i))) for s, i in eng.variant(st, x, t['adt'])]

# ------------------------------------------------------------------ comparisons
@model('PartialEq::eq', 'PartialEq::ne')
def m_eq(eng, st, ref, args, cx):
    if ref.inst and ref.inst in eng.bodies: return NotImplemented
    a, b = st.snap(args[0]), st.snap(args[1])
    ne = ref.d.get('method') == 'ne' or ref.method == 'ne'
    for x, y in ((a, b), (b, a)):
        # equal to a variant that carries nothing: being that variant
        if x[0] == 'agg' and not x[3] and eng.adts.get(x[1], {}).get('kind') == 'enum' and y[0] != 'moved' and y != x:
            return [(s, 'ret', Bc((k == x[2]) != ne)) for s, k in eng.variant(st, y, x[1])]
    if a[0] == b[0] == 'agg' and a[1] == b[1] == 'tuple' and len(a[3]) == len(b[3]) and a != b:
        # pairs and the like: part by part
        ts = (eng.types[ref.d['self']].get('args') if ref.d.get('self') is not None and eng.types[ref.d['self']]['k'] == 'tuple' else None) or []
        cur = [st]; out = []
        for i, (x, y) in enumerate(zip(a[3], b[3])):
            q = ieq(x, y) if i < len(ts) and isintty(eng.types[ts[i]]['s']) else eq(x, y)
            nxt = []
            for s in cur:
                for s2, t in eng.split(s, q):
                    if t: nxt.append(s2)
                    else: out.append((s2, 'ret', Bc(ne)))
            cur = nxt
        return out + [(s, 'ret', Bc(not ne)) for s in cur]
    b = eq(a, b) if a[0] != 'moved' else Bc(False)
    return R(st, neg(b) if ne else b)
@model('Iterator::eq')
def m_itereq(eng, st, ref, args, cx):
    ws = []
    for x in args:
        x = st.deep(x) if x[0] == 'ref' else x
        if isiter(x) and x[1] == '$it' and x[2] in ('seq', 'seqval') and x[3][1] == I(0): ws.append(seqloc(st, x[3][0])[1] if x[2] == 'seq' else x[3][0])
        elif x[0] in ('fld', 'sym') : ws.append(x)
    return R(st, eq(*ws)) if len(ws) == 2 else NotImplemented

def isintty(s): return s.lstrip('&') in UMAX or s.lstrip('&') in ('i8', 'i16', 'i32', 'i64', 'isize', 'i128')

ORD = 'core::cmp::Ordering'
def ordering(i): return ('agg', ORD, i, ())
def cmp3(eng, st, a, b):
    out = []
    for s, v in eng.split(st, lt(a, b)):
        if v: out.append((s, 0))
        else:
            for s2, v2 in eng.split(s, ieq(a, b)):
                out.append((s2, 1 if v2 else 2))
    return out

@model('PartialOrd::partial_cmp', 'Ord::cmp')
def m_cmp(eng, st, ref, args, cx):
    if ref.rpath.startswith(('<log::', 'log::')): return R(st, some(ordering(0)))
    t = selfty(eng, ref)
    if not isintty(t):
        if ref.inst and ref.inst in eng.bodies: return NotImplemented
        a, b = st.snap(args[0]), st.snap(args[1])
        c = ('cmp', a, b)
        if ref.d.get('method') == 'partial_cmp': return R(st, some(c))
        return R(st, c)
    a, b = st.deep(args[0]), st.deep(args[1])
    for x in (a, b): know(st, x, t.lstrip('&'))
    w = some if (ref.d.get('method') or ref.method) == 'partial_cmp' else (lambda x: x)
    return [(s, 'ret', w(ordering(i))) for s, i in cmp3(eng, st, a, b)]

@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def m_ltle(eng, st, ref, args, cx):
    if ref.rpath.startswith(('<log::', 'log::')): return R(st, Bc(True))
    if 'log::Level' in selfty(eng, ref): return R(st, Bc(True))
    t = selfty(eng, ref)
    if not isintty(t): return NotImplemented
    a, b = st.deep(args[0]), st.deep(args[1])
    for x in (a, b): know(st, x, t.lstrip('&'))
    m = ref.d.get('method') or ref.method
    return R(st, {'lt': lambda: lt(a, b), 'le': lambda: le(a, b), 'gt': lambda: lt(b, a), 'ge': lambda: le(b, a)}[m]())

def know(st, v, ty):
    x = lin(v)[0]
    if x is not None: st.facts.know(x, ty)

@model('Ord::min', 'Ord::max', 'core::cmp::min', 'core::cmp::max')
def m_minmax(eng, st, ref, args, cx):
    a, b = args[0], args[1]
    t = eng.types[ref.d['targs'][0]]['s'] if ref.d.get('targs') else ''
    if not isintty(t): return NotImplemented
    know(st, a, t); know(st, b, t)
    mn = ref.method == 'min'
    out = []
    for s, v in eng.split(st, le(a, b)):
        out.append((s, 'ret', (a if v else b) if mn else (b if v else a)))
    return out

# ------------------------------------------------------------------ integers
def intop(name, kind):
    def f(eng, st, ref, args, cx):
        import re
        m = re.search(r'impl (\w+)>', ref.rpath)
        ty = m.group(1) if m else None
        if ty not in UMAX: return NotImplemented
        a, b = args[0], args[1]
        know(st, a, ty); know(st, b, ty)
        mx = UMAX[ty]
        out = []
        r = eng.arith({'add': 'Add', 'sub': 'Sub', 'mul': 'Mul'}[name], a, b)
        if name == 'sub': cond = le(b, a)
        else: cond = le(r, I(mx))
        for s, v in eng.split(st, cond):
            if v:
                if lin(r)[0] is not None: s.facts.know(lin(r)[0] if r[0] != 'add' else lin(r)[0], ty if r[0] != 'add' else None)
                val = {'checked': some(r), 'overflowing': tup(r, Bc(False))}.get(kind, r)
            else:
                if kind == 'saturating': val = I(0) if name == 'sub' else I(mx)
                elif kind == 'checked': val = none
                elif kind == 'wrapping': val = add(r, (mx + 1) if name == 'sub' else -(mx + 1))
                else: val = tup(add(r, (mx + 1) if name == 'sub' else -(mx + 1)), Bc(True))
            out.append((s, 'ret', val))
        return out
    return f
for t in list(UMAX):
    for n in ('add', 'sub', 'mul'):
        for k in ('saturating', 'checked', 'wrapping', 'overflowing'):
            MODELS['%s::%s_%s' % (t, k, n)] = intop(n, k)

def m_absdiff(eng, st, ref, args, cx):
    out = []
    for s, v in eng.split(st, le(args[1], args[0])):
        out.append((s, 'ret', eng.arith('Sub', *(args if v else args[::-1]))))
    return out
for t in UMAX: MODELS[t + '::abs_diff'] = m_absdiff

@model('Add::add', 'Sub::sub', 'Mul::mul')
def m_add(eng, st, ref, args, cx):
    if ref.inst and ref.inst in eng.bodies: return NotImplemented
    t = selfty(eng, ref)
    if t == 'alloc::string::String': return R(st, concat(st.deep(args[0]), st.deep(args[1])))
    if 'Duration' in t:
        return NotImplemented
    return NotImplemented

@model('AddAssign::add_assign')
def m_addassign(eng, st, ref, args, cx):
    if selfty(eng, ref) == 'alloc::string::String':
        l = st.loc(args[0]); st.write(l, concat(st.read(l), st.deep(args[1]))); return R(st, UNIT)
    return NotImplemented

# ------------------------------------------------------------------ strings and formatting
def parts(v):
    if v[0] == 'concat': return list(v[1:])
    if v == ('str', ''): return []
    return [v]
def concat(*vs):
    l = []
    for v in vs:
        for p in parts(v):
            if p[0] == 'str' and l and l[-1][0] == 'str': l[-1] = ('str', l[-1][1] + p[1])
            elif p == ('str', ''): pass
            else: l.append(p)
    if not l: return ('str', '')
    if len(l) == 1 and l[0][0] == 'str': return l[0]
    if len(l) == 1: return l[0]
    return ('concat',) + tuple(l)

@model('String::push_str', 'String::push', 'Write::write_str', 'Write::write_char')
def m_pushstr(eng, st, ref, args, cx):
    l = st.loc(args[0]); x = st.deep(args[1])
    if ref.method in ('push', 'write_char') and x[0] == 'int': x = ('str', chr(x[1]))
    elif ref.method in ('push', 'write_char'): x = ('chr', x)
    st.write(l, concat(st.read(l), x)); return R(st, ok(UNIT) if ref.method.startswith('write') else UNIT)
def to_stream(eng, st, ref, args, cx):
    """a write to the standard output or error"""
    if not re.search(r'\b(Stdout|Stderr)(Lock)?\b', selfty(eng, ref)): return False
    eng.prints.append((tuple(st.deep(a) for a in args[1:]), cx.get('span'), eng.stack[-1] if eng.stack else None, 'stream'))
    return True
@model('Write::write_all', 'Write::write', 'AsyncWriteExt::write_all', 'AsyncWriteExt::write')
def m_writeall(eng, st, ref, args, cx):
    return R(st, ok(UNIT)) if to_stream(eng, st, ref, args, cx) else NotImplemented
@model('Write::write_fmt')
def m_writefmt(eng, st, ref, args, cx):
    if to_stream(eng, st, ref, args, cx): return R(st, ok(UNIT))
    if 'String' not in selfty(eng, ref): return NotImplemented
    l = st.loc(args[0]); st.write(l, concat(st.read(l), fmt_concat(args[1]))); return R(st, ok(UNIT))
@model('String::new', 'String::with_capacity')
def m_strnew(eng, st, ref, args, cx): return R(st, ('str', ''))
@model('str::len', 'String::len')
def m_strlen(eng, st, ref, args, cx): return R(st, eng.knowlen(st, vlen(st.deep(args[0]))))
@model('str::is_empty', 'String::is_empty')
def m_strempty(eng, st, ref, args, cx): return R(st, ieq(eng.knowlen(st, vlen(st.deep(args[0]))), I(0)))
def strpred(n):
    def f(eng, st, ref, args, cx):
        a, b = st.deep(args[0]), st.deep(args[1])
        if a[0] == 'str' and b[0] == 'str':
            return R(st, Bc({'contains': b[1] in a[1], 'starts_with': a[1].startswith(b[1]), 'ends_with': a[1].endswith(b[1]), 'eq_ignore_ascii_case': a[1].lower() == b[1].lower()}[n]))
        return R(st, ('strop', n, a, b))
    return f
for n in ('contains', 'starts_with', 'ends_with', 'eq_ignore_ascii_case'):
    MODELS['str::' + n] = MODELS['String::' + n] = strpred(n)
def strfn(n):
    def f(eng, st, ref, args, cx): return R(st, ('strop', n) + tuple(st.deep(a) for a in args))
    return f
for n in ('to_lowercase', 'to_uppercase', 'trim', 'replace', 'to_ascii_lowercase', 'to_ascii_uppercase', 'trim_start', 'trim_end', 'repeat'):
    MODELS['str::' + n] = strfn(n)

@model('slice::concat', 'slice::join')
def m_join(eng, st, ref, args, cx):
    v = st.deep(args[0])
    if v[0] == 'agg' and v[1] == 'array':
        sep = st.deep(args[1]) if len(args) > 1 else ('str', '')
        l = []
        for i, x in enumerate(v[3]):
            if i: l.append(sep)
            l.append(st.deep(x))
        return R(st, concat(*l))
    return NotImplemented

@model('Argument::new_display', 'Argument::new_debug', 'Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_lower_exp', 'Argument::new_pointer', 'Argument::from_usize', 'Argument::new_binary', 'Argument::new_octal')
def m_fmtarg(eng, st, ref, args, cx):
    v = st.snap(args[0])
    t = stripref(eng, eng.types[ref.d['targs'][0]]) if ref.d.get('targs') else {'s': '', 'k': ''}
    return R(st, ('fmtarg', ref.method, v, t['s']))

def fmtval(a):
    if a[0] != 'fmtarg': return ('fmt', a)
    if a[1] == 'new_display':
        if a[3] in ('str', 'alloc::string::String') or a[2][0] in ('str', 'concat'): return a[2]
        if a[2][0] == 'int': return ('str', str(a[2][1]))
        return ('to_string', a[2])
    return ('fmt', a[1], a[2])

def decode(template, args):
    out = []; i = 0; n = 0; t = template
    while i < len(t):
        c = t[i]; i += 1
        if c == 0: break
        if c < 0x80:
            out.append(('str', bytes(t[i:i+c]).decode('utf8', 'replace'))); i += c
        elif c == 0x80:
            l = t[i] | t[i+1] << 8; i += 2
            out.append(('str', bytes(t[i:i+l]).decode('utf8', 'replace'))); i += l
        else:
            plain = True
            if c & 1: i += 4; plain = False
            if c & 2: i += 2; plain = False
            if c & 4: i += 2; plain = False
            if c & 8: n = t[i] | t[i+1] << 8; i += 2
            a = args[n] if n < len(args) else ('bad', 'fmt')
            n += 1
            v = fmtval(a)
            if not plain: v = ('fmtopt', v)
            out.append(v)
    return concat(*out)

@model('Arguments::new', 'Arguments::new_v1', 'Arguments::new_const')
def m_args(eng, st, ref, args, cx):
    t = st.deep(args[0]); a = st.deep(args[1]) if len(args) > 1 else ('agg', 'array', 0, ())
    if t[0] == 'bytes' and a[0] == 'agg':
        return R(st, ('fmtargs', decode(t[1], [st.deep(x) for x in a[3]])))
    return R(st, ('fmtargs', ('fmt', t, st.snap(a))))
@model('Arguments::from_str', 'Arguments::from_str_nonconst')
def m_argsstr(eng, st, ref, args, cx): return R(st, ('fmtargs', st.deep(args[0])))
def fmt_concat(a): return a[1] if a[0] == 'fmtargs' else ('fmt', a)
@model('alloc::fmt::format', 'alloc::fmt::format::format_inner')
def m_format(eng, st, ref, args, cx): return R(st, fmt_concat(args[0]))

@model('std::io::stdio::_print', 'std::io::stdio::_eprint', 'log::__private_api::log', 'log::__private_api::enabled')
def m_print(eng, st, ref, args, cx):
    eng.prints.append((tuple(st.deep(a) for a in args), cx.get('span'), eng.stack[-1] if eng.stack else None, ref.method))
    return R(st, UNIT)
@model('log::max_level')
def m_loglevel(eng, st, ref, args, cx): return R(st, ('const', 'log level'))

# ------------------------------------------------------------------ panics
def m_panic(eng, st, ref, args, cx):
    # the message goes to the standard error
    if ref.method in ('panic_fmt', 'panic_display', 'panic_str_2015', 'begin_panic', 'unreachable_display'):
        eng.prints.append((tuple(st.deep(a) for a in args), cx.get('span'), eng.stack[-1] if eng.stack else None, 'panic'))
    return [eng.panic(st, ref.method, cx.get('span'))]
for n in ('core::option::unwrap_failed', 'core::option::expect_failed', 'core::result::unwrap_failed', 'core::result::unwrap_failed::unwrap_failed_inner', 'core::panicking::panic_fmt', 'core::panicking::panic', 'core::panicking::panic_display',
          'core::panicking::panic_explicit', 'core::panicking::unreachable_display', 'core::panicking::assert_failed', 'core::panicking::panic_str_2015', 'std::rt::begin_panic', 'core::panicking::panic_str_literal', 'core::panicking::panic_nounwind', 'std::process::exit', 'std::process::abort', 'std::panic::panic_any', 'core::panicking::panic_bounds_check', 'std::panic::resume_unwind', 'std::rt::panic_fmt', 'core::panicking::assert_failed_inner', 'core::panicking::assert_matches_failed'):
    MODELS[n] = m_panic

# ------------------------------------------------------------------ closures
@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def m_callfn(eng, st, ref, args, cx):
    a = args[1] if len(args) > 1 else UNIT
    l = list(a[3]) if a[0] == 'agg' and a[1] == 'tuple' else [a]
    return eng.call_value(st, args[0], l, {'span': cx.get('span'), 'tys': [None] * len(l)})

# ------------------------------------------------------------------ default values
def default_of(eng, t):
    s = t['s']
    if t['k'] in ('uint', 'int'): return I(0)
    if t['k'] == 'bool': return Bc(False)
    a = t.get('adt', '')
    l = a.split('::')[-1]
    if l in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'): return ('mempty',)
    if l in ('Vec', 'VecDeque', 'BinaryHeap'): return ('vempty',)
    if l == 'String': return ('str', '')
    if l == 'Option': return none
    if t['k'] == 'tuple': return tup(*(default_of(eng, eng.types[x]) for x in t['args']))
    if l in ('Box', 'Rc', 'Arc', 'RefCell', 'Cell', 'Mutex') and t.get('args'): return default_of(eng, eng.types[t['args'][0]])
    if a == 'mcaptcha_pow_sha256::PoWBuilder': return ('pbuild', ())
    return ('op', 'default', ('const', s))
@model('Default::default')
def m_default(eng, st, ref, args, cx):
    if ref.inst and ref.inst in eng.bodies: return NotImplemented
    return R(st, default_of(eng, tyk(eng, cx.get('dty'))))

# ------------------------------------------------------------------ maps
MAPS = ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet')
def mapmodel(*ms):
    def d(f):
        for t in MAPS:
            for m in ms: MODELS['%s::%s' % (t, m)] = f
        return f
    return d

def canon(eng, st, m, k):
    """[(state, key)]: key made identical to an inserted or removed key it equals, or distinct from all"""
    seen = []
    x = m
    while x[0] in ('minsert', 'mset', 'mremove'):
        if x[2] not in seen: seen.append(x[2])
        x = x[1]
    if k in seen: return [(st, k)]
    out = []
    cur = st
    for k0 in seen:
        nxt = None
        for s, v in eng.split(cur, eq(k, k0)):
            if v: out.append((s, k0))
            else: nxt = s
        if nxt is None: return out
        cur = nxt
    out.append((cur, k))
    return out

def has_term(m, k):
    while True:
        if m[0] == 'minsert':
            if m[2] == k: return Bc(True)
            m = m[1]
        elif m[0] == 'mremove':
            if m[2] == k: return Bc(False)
            m = m[1]
        elif m[0] == 'mset': 
            m = m[1]
        elif m[0] == 'mempty': return Bc(False)
        else: break
    if k[0] == 'mkey' and k[1] == m: return Bc(True)
    return ('has', m, k)

def key_of(st, v): return st.snap(v)

def haskey(eng, st, m, k):
    """[(state, key, present)]"""
    out = []
    for s, k in canon(eng, st, m, k):
        for s2, v in eng.split(s, has_term(m, k)): out.append((s2, k, v))
    return out

@mapmodel('new', 'with_capacity', 'with_hasher', 'with_capacity_and_hasher')
def m_mapnew(eng, st, ref, args, cx): return R(st, ('mempty',))
@mapmodel('len')
def m_maplen(eng, st, ref, args, cx):
    return R(st, eng.knowlen(st, vlen(st.load(args[0]))))
@mapmodel('is_empty')
def m_mapempty(eng, st, ref, args, cx):
    return R(st, ieq(eng.knowlen(st, vlen(st.load(args[0]))), I(0)))
@mapmodel('contains_key', 'contains')
def m_mapcontains(eng, st, ref, args, cx):
    m = st.load(args[0])
    return [(s, 'ret', Bc(v)) for s, k, v in haskey(eng, st, m, key_of(st, args[1]))]

def mapref(loc, k): return ('ref', loc[0], loc[1] + (('key', k),))

@mapmodel('get', 'get_mut')
def m_mapget(eng, st, ref, args, cx):
    loc = st.loc(args[0]); m = st.read(loc)
    if m[0] == 'ref': loc = (m[1], m[2]); m = st.read(loc)
    out = []
    for s, k, v in haskey(eng, st, m, key_of(st, args[1])):
        if v: nonempty(s, m)
        if v and 'Set' in ref.short: out.append((s, 'ret', some(k)))
        else: out.append((s, 'ret', some(mapref(loc, k)) if v else none))
    return out
@mapmodel('get_key_value')
def m_mapgetkv(eng, st, ref, args, cx):
    loc = st.loc(args[0]); m = st.read(loc)
    return [(s, 'ret', some(tup(k, mapref(loc, k))) if v else none) for s, k, v in haskey(eng, st, m, key_of(st, args[1]))]

def nonempty(s, m):
    n = vlen(m)
    if lin(n)[0] is not None:
        s.facts.know(lin(n)[0], 'usize')
        s.facts.assume(le(I(1), n), True)

@mapmodel('insert')
def m_mapinsert(eng, st, ref, args, cx):
    loc = st.loc(args[0]); m = st.read(loc)
    isset = 'Set' in ref.short
    out = []
    val = args[2] if len(args) > 2 else UNIT
    for s, k, v in haskey(eng, st, m, key_of(st, args[1])):
        if v:
            nonempty(s, m)
            old = get(m, ('key', k))
            s.write(loc, ('mset', m, k, val))
            s.add('map', 'replace', loc_desc(loc), k, s.snap(val), cx.get('span'))
            out.append((s, 'ret', Bc(False) if isset else some(old)))
        else:
            s.write(loc, ('minsert', m, k, val))
            s.add('map', 'insert', loc_desc(loc), k, s.snap(val), cx.get('span'))
            out.append((s, 'ret', Bc(True) if isset else none))
    return out

def loc_desc(loc): return loc

@mapmodel('remove', 'remove_entry', 'take')
def m_mapremove(eng, st, ref, args, cx):
    loc = st.loc(args[0]); m = st.read(loc)
    isset = 'Set' in ref.short
    out = []
    for s, k, v in haskey(eng, st, m, key_of(st, args[1])):
        if v:
            nonempty(s, m)
            old = get(m, ('key', k))
            s.write(loc, ('mremove', m, k))
            s.add('map', 'remove', loc_desc(loc), k, old, cx.get('span'))
            if isset: r = Bc(True) if ref.method == 'remove' else some(k)
            else: r = some(tup(k, old)) if ref.method == 'remove_entry' else some(old)
            out.append((s, 'ret', r))
        else: out.append((s, 'ret', Bc(False) if isset and ref.method == 'remove' else none))
    return out

@mapmodel('clear')
def m_mapclear(eng, st, ref, args, cx):
    st.write(st.loc(args[0]), ('mempty',)); return R(st, UNIT)

@mapmodel('entry')
def m_entry(eng, st, ref, args, cx):
    loc = st.loc(args[0]); m = st.read(loc)
    adt = 'std::collections::hash::map::Entry' if 'Hash' in ref.short else 'alloc::collections::btree::map::entry::Entry'
    # the library orders the variants Occupied, Vacant / Vacant, Occupied
    occ = None
    a = eng.adts.get(adt)
    names = [v['name'] for v in a['variants']] if a else (['Occupied', 'Vacant'] if 'Hash' in ref.short else ['Vacant', 'Occupied'])
    out = []
    for s, k, v in haskey(eng, st, m, key_of(st, args[1])):
        e = ('entry', ('ref', loc[0], loc[1]), k, Bc(v))
        if v: nonempty(s, m)
        out.append((s, 'ret', ('agg', adt, names.index('Occupied' if v else 'Vacant'), (e,))))
    return out

def entry_parts(v):
    e = v[3][0] if v[0] == 'agg' else v
    return e[1], e[2], e[3][1]

@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert_with_key')
def m_orinsert(eng, st, ref, args, cx):
    v = args[0]
    if not (v[0] == 'agg' and v[3] and v[3][0][0] == 'entry'): return NotImplemented
    mp, k, occ = entry_parts(v)
    loc = st.loc(mp)
    if occ: return R(st, mapref(loc, k))
    def fin(s, val):
        s.write(loc, ('minsert', s.read(loc), k, val))
        s.add('map', 'insert', loc, k, s.snap(val), cx.get('span'))
        return R(s, mapref(loc, k))
    if ref.method == 'or_insert': return fin(st, args[1])
    if ref.method == 'or_default':
        t = tyk(eng, cx.get('dty'))
        return fin(st, default_of(eng, stripref(eng, t)))
    return bind(eng.call_value(st, args[1], [k] if ref.method.endswith('key') else []), fin)
@model('Entry::and_modify')
def m_andmodify(eng, st, ref, args, cx):
    mp, k, occ = entry_parts(args[0])
    if not occ: return R(st, args[0])
    return bind(eng.call_value(st, args[1], [mapref(st.loc(mp), k)]), lambda s, v: R(s, args[0]))
@model('OccupiedEntry::get', 'OccupiedEntry::get_mut', 'OccupiedEntry::into_mut')
def m_occget(eng, st, ref, args, cx):
    mp, k, occ = entry_parts(st.load(args[0])); return R(st, mapref(st.loc(mp), k))
@model('OccupiedEntry::insert')
def m_occins(eng, st, ref, args, cx):
    mp, k, occ = entry_parts(st.load(args[0])); loc = st.loc(mp)
    old = get(st.read(loc), ('key', k)); st.write(loc, ('mset', st.read(loc), k, args[1]))
    st.add('map', 'replace', loc, k, st.snap(args[1]), cx.get('span'))
    return R(st, old)
@model('OccupiedEntry::remove', 'OccupiedEntry::remove_entry')
def m_occrem(eng, st, ref, args, cx):
    mp, k, occ = entry_parts(st.load(args[0])); loc = st.loc(mp); m = st.read(loc)
    old = get(m, ('key', k)); st.write(loc, ('mremove', m, k))
    st.add('map', 'remove', loc, k, old, cx.get('span'))
    return R(st, old if ref.method == 'remove' else tup(k, old))
@model('VacantEntry::insert')
def m_vacins(eng, st, ref, args, cx):
    mp, k, occ = entry_parts(st.load(args[0])); loc = st.loc(mp)
    st.write(loc, ('minsert', st.read(loc), k, args[1]))
    st.add('map', 'insert', loc, k, st.snap(args[1]), cx.get('span'))
    return R(st, mapref(loc, k))
@model('OccupiedEntry::key', 'VacantEntry::key', 'Entry::key', 'VacantEntry::into_key')
def m_entkey(eng, st, ref, args, cx):
    return R(st, entry_parts(st.load(args[0]))[1])

# ------------------------------------------------------------------ sequences
SEQS = ('Vec', 'VecDeque', 'slice', 'array', 'SmallVec')
def seqmodel(*ms):
    def d(f):
        for t in SEQS:
            for m in ms: MODELS['%s::%s' % (t, m)] = f
        return f
    return d

def seqloc(st, p):
    loc = st.loc(p); v = st.read(loc)
    while v[0] == 'ref': loc = (v[1], v[2]); v = st.read(loc)
    return loc, v

@seqmodel('new', 'with_capacity')
def m_seqnew(eng, st, ref, args, cx): return R(st, ('vempty',))
@seqmodel('len')
def m_seqlen(eng, st, ref, args, cx): return R(st, eng.knowlen(st, vlen(seqloc(st, args[0])[1])))
@seqmodel('is_empty')
def m_seqempty(eng, st, ref, args, cx): return R(st, ieq(eng.knowlen(st, vlen(seqloc(st, args[0])[1])), I(0)))
def nullable(v):
    return v if not (v[0] == 'agg' and v[1] == 'array') else v
@seqmodel('push', 'push_back')
def m_push(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    if v[0] == 'agg' and v[1] == 'array': st.write(loc, ('agg', 'array', 0, v[3] + (args[1],)))
    else: st.write(loc, ('vpush', v, args[1]))
    st.add('seq', 'push', loc, st.snap(args[1]), cx.get('span'))
    return R(st, UNIT)
@seqmodel('push_front')
def m_pushf(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    st.write(loc, ('vcons', args[1], v)); st.add('seq', 'push_front', loc, st.snap(args[1]), cx.get('span')); return R(st, UNIT)

def tail_of(eng, st, v):
    """[(state, first, rest)] of a sequence known not to be empty"""
    if v[0] == 'vcons': return [(st, v[1], v[2])]
    if v[0] == 'vpush':
        out = []
        n = eng.knowlen(st, vlen(v[1]))
        for s, e in eng.split(st, ieq(n, I(0))):
            if e: out.append((s, v[2], ('vempty',)))
            else:
                for s2, h, t in tail_of(eng, s, v[1]): out.append((s2, h, ('vpush', t, v[2])))
        return out
    if v[0] == 'agg' and v[1] == 'array': return [(st, v[3][0], ('agg', 'array', 0, v[3][1:]))]
    if v[0] == 'vrange':
        return [(st, v[1], ('vrange', add(v[1], 1), v[2]))]
    return [(st, get(v, ('at', I(0))), ('vtail', v))]
def init_of(eng, st, v):
    if v[0] == 'vpush': return [(st, v[2], v[1])]
    if v[0] == 'agg' and v[1] == 'array': return [(st, v[3][-1], ('agg', 'array', 0, v[3][:-1]))]
    return [(st, get(v, ('at', add(vlen(v), -1))), ('vinit', v))]

@seqmodel('pop_front')
def m_popf(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    out = []
    for s, e in eng.split(st, ieq(eng.knowlen(st, vlen(v)), I(0))):
        if e: out.append((s, 'ret', none))
        else:
            for s2, h, t in tail_of(eng, s, v):
                s2.write(loc, t); s2.add('seq', 'pop_front', loc, h, cx.get('span'))
                out.append((s2, 'ret', some(h)))
    return out
@seqmodel('pop', 'pop_back')
def m_pop(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    out = []
    for s, e in eng.split(st, ieq(eng.knowlen(st, vlen(v)), I(0))):
        if e: out.append((s, 'ret', none))
        else:
            for s2, h, t in init_of(eng, s, v):
                s2.write(loc, t); s2.add('seq', 'pop', loc, h, cx.get('span'))
                out.append((s2, 'ret', some(h)))
    return out
def refat(loc, i): return ('ref', loc[0], loc[1] + (('at', i),))
@seqmodel('front', 'first', 'front_mut', 'first_mut')
def m_front(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    return [(s, 'ret', none if e else some(refat(loc, I(0)))) for s, e in eng.split(st, ieq(eng.knowlen(st, vlen(v)), I(0)))]
@seqmodel('back', 'last', 'back_mut', 'last_mut')
def m_back(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    n = eng.knowlen(st, vlen(v))
    return [(s, 'ret', none if e else some(refat(loc, add(n, -1)))) for s, e in eng.split(st, ieq(n, I(0)))]
@seqmodel('get', 'get_mut')
def m_get(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    i = args[1]
    if i[0] == 'agg': return NotImplemented
    know(st, i, 'usize')
    out = []
    for s, e in eng.split(st, lt(i, eng.knowlen(st, vlen(v)))):
        if not e: out.append((s, 'ret', none)); continue
        if v[0] == 'agg' and v[1] == 'array' and i[0] != 'int' and len(v[3]) <= 8:
            # one case per place of a short table
            rest = [s]
            for k in range(len(v[3])):
                nxt = []
                for r in rest:
                    for r2, y in eng.split(r, ieq(i, I(k))):
                        if y: out.append((r2, 'ret', some(refat(loc, I(k)))))
                        else: nxt.append(r2)
                rest = nxt
            continue
        out.append((s, 'ret', some(refat(loc, i))))
    return out
@seqmodel('clear')
def m_clear(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0]); st.write(loc, ('vempty',)); st.add('seq', 'clear', loc, v, cx.get('span')); return R(st, UNIT)
@seqmodel('sort_by_key', 'sort_unstable_by_key', 'sort_by_cached_key')
def m_sortkey(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    x = ('sym', '$elem')
    key = ('op', 'unknown key')
    s = st.copy(); s.ev = ()
    outs = eng.call_value(s, args[1], [x])
    vals = [o for o in outs if o[1] == 'ret']
    if len(outs) == 1 and vals: key = outs[0][0].snap(vals[0][2])
    st.write(loc, ('sorted', v, key)); return R(st, UNIT)
@seqmodel('sort_by', 'sort_unstable_by')
def m_sortby(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    a, b = ('sym', '$elem'), ('sym', '$elem2')
    key = ('op', 'unknown order')
    s = st.copy(); s.ev = ()
    n0 = dict(s.facts.le)
    outs = eng.call_value(s, args[1], [a, b])
    # an order that is the natural order of one projection of the elements
    if outs and all(k == 'ret' for _, k, _ in outs):
        ks = set(); good = True
        for o, _, r in outs:
            new = [(x, y, c) for (x, y), c in o.facts.le.items() if x is not None and y is not None and n0.get((x, y)) != c]
            if r[0] == 'agg' and r[1] == ORD:
                found = None
                for x, y, c in new:
                    for p, q, sg in ((x, y, 0), (y, x, 1)):
                        if contains(p, a) and subst(p, a, b) == q: found = (p, q)
                if not found: good = False; break
                p, q = found
                rel = 0 if o.facts.ev(lt(p, q)) else 1 if o.facts.ev(ieq(p, q)) else 2 if o.facts.ev(lt(q, p)) else None
                if rel != r[2]: good = False
                ks.add(p)
            elif r[0] == 'cmp' and contains(r[1], a) and subst(r[1], a, b) == r[2]: ks.add(r[1])
            else: good = False
        if good and len(ks) == 1: key = ks.pop()
    st.write(loc, ('sorted', v, key)); return R(st, UNIT)
def subst(t, a, b):
    if t == a: return b
    if isinstance(t, tuple): return tuple(subst(x, a, b) for x in t)
    return t
@seqmodel('sort', 'sort_unstable')
def m_sort(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0]); st.write(loc, ('sorted', v, ('sym', '$elem'))); return R(st, UNIT)
@seqmodel('reverse')
def m_reverse(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0]); st.write(loc, vrev(v)); return R(st, UNIT)
@seqmodel('contains')
def m_contains(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    return R(st, ('contains', st.snap(v), st.snap(args[1])))

@model('Index::index', 'IndexMut::index_mut')
def m_index(eng, st, ref, args, cx):
    t = selfty(eng, ref)
    base = t.split('<')[0].split('::')[-1]
    loc, v = seqloc(st, args[0])
    if base in ('HashMap', 'BTreeMap'):
        out = []
        for s, k, h in haskey(eng, st, v, key_of(st, args[1])):
            out.append((s, 'ret', mapref(loc, k)) if h else eng.panic(s, 'missing key', cx.get('span')))
        return out
    i = args[1]
    n = eng.knowlen(st, vlen(v))
    if i[0] == 'agg':
        kind = i[1].split('::')[-1]
        lo, hi = I(0), n
        if kind == 'RangeFrom': lo = i[3][0]
        elif kind == 'RangeTo': hi = i[3][0]
        elif kind == 'Range': lo, hi = i[3]
        elif kind == 'RangeFull': pass
        else: return NotImplemented
        out = []
        for s, a in eng.split(st, mkand(le(lo, hi), le(hi, n))):
            if a: out.append((s, 'ret', v if (lo, hi) == (I(0), n) else ('vslice', v, lo, hi)))
            else: out.append(eng.panic(s, 'slice', cx.get('span')))
        return out
    know(st, i, 'usize')
    out = []
    for s, b in eng.split(st, lt(i, n)):
        if b: out.append((s, 'ret', refat(loc, i)))
        else: out.append(eng.panic(s, 'bounds', cx.get('span')))
    return out

@model('Box::new_uninit', 'Box::new_uninit_in')
def m_uninit(eng, st, ref, args, cx): return R(st, ('agg', '$uninit', 0, (UNIT, UNIT)))
@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def m_assume(eng, st, ref, args, cx):
    v = args[0]
    for p in (('f', 1, None), ('f', 0, None)):
        w = get(v, p) if v[0] in ('agg', 'upd') else v
        while w[0] == 'agg' and w[1] in ('$part', 'core::mem::manually_drop::ManuallyDrop', 'core::mem::maybe_dangling::MaybeDangling') and w[3]: w = w[3][0]
        if w[0] == 'agg' and w[1] == 'array': return R(st, w)
    def find(x):
        if x[0] == 'agg' and x[1] == 'array': return x
        if x[0] == 'agg':
            for y in x[3]:
                r = find(y)
                if r: return r
        return None
    r = find(v)
    if r: return R(st, r)
    return NotImplemented

@seqmodel('insert')
def m_vinsert(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    if args[1] == I(0): st.write(loc, ('vcons', args[2], v))
    elif args[1] == vlen(v): st.write(loc, ('vpush', v, args[2]))
    else: st.write(loc, eng.fresh('vinsert', 'Vec::insert', (v, args[1], args[2])))
    st.add('seq', 'insert', loc, st.snap(args[2]), cx.get('span'))
    return R(st, UNIT)
@seqmodel('remove', 'swap_remove')
def m_vremove(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0]); i = args[1]
    isdeque = 'VecDeque' in ref.short
    n = eng.knowlen(st, vlen(v)); know(st, i, 'usize')
    out = []
    for s, b in eng.split(st, lt(i, n)):
        if not b:
            if isdeque: out.append((s, 'ret', none))
            else: out.append(eng.panic(s, 'bounds', cx.get('span')))
            continue
        if i == I(0) and ref.method == 'remove':
            for s2, h, t in tail_of(eng, s, v):
                s2.write(loc, t); s2.add('seq', 'pop_front', loc, h, cx.get('span')); out.append((s2, 'ret', some(h) if isdeque else h))
        else:
            h = get(v, ('at', i))
            s.write(loc, ('vdel', v, i)); s.add('seq', 'remove', loc, h, cx.get('span')); out.append((s, 'ret', some(h) if isdeque else h))
    return out

# ------------------------------------------------------------------ iterators
def it(kind, *fs): return ('agg', '$it', kind, tuple(fs))

def isiter(v): return v[0] == 'agg' and (v[1] == '$it' or v[1] in ('core::ops::range::Range', 'core::ops::range::RangeInclusive'))

def seqiter(eng, st, p):
    loc, v = seqloc(st, p)
    if v[0] == 'vfilt': return it('aref', v[1])
    return it('seq', ('ref', loc[0], loc[1]) if not (loc[0][0] == 'P' and not loc[1]) else p, I(0))

@seqmodel('iter', 'iter_mut')
def m_iter(eng, st, ref, args, cx): return R(st, seqiter(eng, st, args[0]))
@mapmodel('iter', 'iter_mut', 'keys', 'values', 'values_mut')
def m_mapiter(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    kind = {'iter': 'map', 'iter_mut': 'map', 'keys': 'keys', 'values': 'values', 'values_mut': 'values'}[ref.method]
    if v[0] == 'mfilt' and kind == 'map': return R(st, it('aref2', v[1]))
    if 'Set' in ref.short: kind = 'keys'
    return R(st, it(kind, ('ref', loc[0], loc[1]), v, I(0)))
@mapmodel('drain', 'into_iter', 'into_keys', 'into_values')
def m_mapdrain(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0]) if args[0][0] == 'ref' or argty(eng, cx, 0)['k'] == 'ref' else (None, args[0])
    if loc is not None and ref.method == 'drain': st.write(loc, ('mempty',))
    kind = {'into_keys': 'keyval', 'into_values': 'valval'}.get(ref.method, 'mapval')
    if 'Set' in ref.short: kind = 'keyval'
    return R(st, it(kind, v, I(0)))
@seqmodel('drain')
def m_seqdrain(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    a = args[1]
    if a[0] == 'agg' and a[1].endswith('RangeFull') or (a[0] == 'const' and 'RangeFull' in a[1]):
        st.write(loc, ('vempty',)); return R(st, it('seqval', v, I(0)))
    return NotImplemented
@seqmodel('windows')
def m_windows(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0]); return R(st, it('windows', v, args[1], I(0)))

@model('IntoIterator::into_iter')
def m_intoiter(eng, st, ref, args, cx):
    if ref.inst and ref.inst in eng.bodies and ref.rpath.startswith(('<crate', '<&crate')): return NotImplemented
    v = args[0]
    if isiter(v): return R(st, v)
    t = eng.types[ref.d['targs'][0]] if ref.d.get('targs') and 'of' not in cx else argty(eng, cx, 0)
    isref = t['k'] == 'ref'
    b = stripref(eng, t)
    l = b.get('adt', b['k']).split('::')[-1]
    if l in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
        if not isref and v[0] == 'mfilt': return R(st, v[1])
        if isref:
            loc, m = seqloc(st, v)
            if m[0] == 'mfilt': return R(st, it('aref2', m[1]))
            return R(st, it('keys' if 'Set' in l else 'map', ('ref', loc[0], loc[1]), m, I(0)))
        return R(st, it('keyval' if 'Set' in l else 'mapval', v, I(0)))
    if l in ('Vec', 'VecDeque', 'slice', 'array'):
        if isref: return R(st, seqiter(eng, st, v))
        if v[0] == 'vfilt': return R(st, v[1])
        return R(st, it('seqval', v, I(0)))
    if l == 'Option':
        if isref:
            return NotImplemented
        return R(st, it('opt', v))
    if l == 'RangeInclusive' and v[0] == 'agg': return R(st, ('agg', 'core::ops::range::Range', 0, (v[3][0], add(v[3][1], 1))))
    if l in ('Range', 'RangeInclusive', 'RangeFrom'): return R(st, v)
    # an iterator of unknown origin
    return R(st, it('unknown', v, I(0)) if v[0] != 'agg' else v)

def adaptor(kind, *more):
    def f(eng, st, ref, args, cx):
        if not (isiter(args[0])): 
            if ref.method in ('map', 'take') and args[0][0] == 'ref': return NotImplemented
            return NotImplemented
        return R(st, it(kind, *args, *more))
    return f
for n, k, m in (('map', 'amap', ()), ('filter', 'afilter', ()), ('take', 'atake', (I(0),)), ('enumerate', 'aenum', (I(0),)), ('zip', 'azip', ()), ('filter_map', 'afmap', ()),
                ('take_while', 'atakew', ()), ('chain', 'achain', ()), ('inspect', 'ainspect', ())):
    MODELS['Iterator::' + n] = adaptor(k, *m)
@model('Iterator::chain')
def m_chain(eng, st, ref, args, cx):
    # one written-down row after the other is one row
    if all(isiter(x) and x[1] == '$it' and x[2] in ('seq', 'seqval') and x[3][1] == I(0) for x in args) and args[0][2] == args[1][2]:
        own = args[0][2] == 'seqval'
        ws = [x[3][0] if own else seqloc(st, x[3][0])[1] for x in args]
        if all(w[0] == 'agg' and w[1] == 'array' for w in ws) and (own or 'Mut' not in tyk(eng, cx.get('dty')).get('s', '')):
            w = ('agg', 'array', 0, ws[0][3] + ws[1][3])
            return R(st, it('seqval', w, I(0)) if own else it('aref', it('seqval', w, I(0))))
    return R(st, it('achain', *args)) if isiter(args[0]) else NotImplemented
def vrev(v):
    if v[0] == 'agg' and v[1] == 'array': return ('agg', 'array', 0, tuple(reversed(v[3])))
    return v[1] if v[0] == 'vrev' else ('vrev', v)
@model('Iterator::rev')
def m_rev(eng, st, ref, args, cx):
    v = args[0]
    if not isiter(v): return NotImplemented
    if v[1] == '$it' and v[2] == 'seqval' and v[3][1] == I(0): return R(st, it('seqval', vrev(v[3][0]), I(0)))
    if v[1] == '$it' and v[2] == 'seq' and v[3][1] == I(0) and 'Mut' not in tyk(eng, cx.get('dty')).get('s', ''):
        return R(st, it('aref', it('seqval', vrev(seqloc(st, v[3][0])[1]), I(0))))
    return R(st, it('arev', v))
@model('Iterator::skip')
def m_skip(eng, st, ref, args, cx):
    i0, n = args
    if not isiter(i0): return NotImplemented
    if i0[2] in ('seq', 'seqval', 'map', 'keys', 'values', 'mapval'):
        fs = list(i0[3]); fs[-1] = eng.arith('Add', fs[-1], n)
        return R(st, it(i0[2], *fs))
    return R(st, it('askip', i0, n))
@model('Iterator::cloned', 'Iterator::copied')
def m_cloned(eng, st, ref, args, cx):
    return R(st, it('acloned', args[0])) if isiter(args[0]) else NotImplemented
@model('Iterator::by_ref', 'Iterator::fuse', 'Iterator::peekable_')
def m_byref(eng, st, ref, args, cx): return R(st, args[0])
@model('core::iter::sources::repeat::repeat')
def m_repeat(eng, st, ref, args, cx): return R(st, it('repeat', args[0]))
@model('core::iter::sources::repeat_with::repeat_with')
def m_repeatw(eng, st, ref, args, cx): return R(st, it('repeatw', args[0]))
@model('core::iter::sources::once::once')
def m_once(eng, st, ref, args, cx): return R(st, it('opt', some(args[0])))
@model('Rng::sample_iter', 'RngExt::sample_iter', 'Distribution::sample_iter', 'Rng::random_iter')
def m_sampleiter(eng, st, ref, args, cx):
    return R(st, it('sample', args[0], args[1] if len(args) > 1 else UNIT, ('const', ref.full)))
@model('core::iter::adapters::zip::zip')
def m_zip(eng, st, ref, args, cx): return R(st, it('azip', *args)) if all(isiter(a) for a in args) else NotImplemented

def it_next(eng, st, v, cx):
    """outcomes; value is (new iterator, item or None)"""
    def some_none(pos, n, mkitem, mkit):
        out = []
        eng.knowlen(st, n)
        know(st, pos, 'usize')
        for s, b in eng.split(st, lt(pos, n)):
            if b: out.append((s, 'ret', (mkit(add(pos, 1)), mkitem(s))))
            else: out.append((s, 'ret', (v, None)))
        return out
    if v[1] == 'core::ops::range::Range':
        a, b = v[3]
        out = []
        for x in (a, b): know(st, x, 'usize') if x[0] != 'int' else None
        for s, c in eng.split(st, lt(a, b)):
            if c: out.append((s, 'ret', (('agg', v[1], 0, (add(a, 1), b)), a)))
            else: out.append((s, 'ret', (v, None)))
        return out
    if v[1] == 'core::ops::range::RangeInclusive': raise E.Imprecise('inclusive range')
    k = v[2]; f = v[3]
    if k == 'seq':
        p, pos = f
        loc, w = seqloc(st, p)
        return some_none(pos, vlen(w), lambda s: refat(loc, pos), lambda n: it(k, p, n))
    if k == 'seqval':
        return some_none(f[1], vlen(f[0]), lambda s: get(f[0], ('at', f[1])) if f[0][0] != 'vrange' else eng.arith('Add', f[0][1], f[1]), lambda n: it(k, f[0], n))
    if k in ('map', 'keys', 'values'):
        p, m, pos = f
        loc = st.loc(p)
        key = ('mkey', m, pos)
        val = mapref(loc, key)
        item = {'map': tup(key, val), 'keys': key, 'values': val}[k]
        return some_none(pos, vlen(m), lambda s: item, lambda n: it(k, p, m, n))
    if k in ('mapval', 'keyval', 'valval'):
        m, pos = f
        key = ('mkey', m, pos); val = get(m, ('key', key))
        item = {'mapval': tup(key, val), 'keyval': key, 'valval': val}[k]
        return some_none(pos, vlen(m), lambda s: item, lambda n: it(k, m, n))
    if k == 'windows':
        w, n, pos = f
        end = eng.arith('Add', pos, n)
        out = []
        eng.knowlen(st, vlen(w)); know(st, pos, 'usize')
        for s, b in eng.split(st, le(end, vlen(w))):
            out.append((s, 'ret', (it(k, w, n, add(pos, 1)), ('vslice', w, pos, end)) if b else (v, None)))
        return out
    if k == 'opt':
        out = []
        for s, i in eng.variant(st, f[0], OPT):
            if i == 1: out.append((s, 'ret', (it('opt', none), get(f[0], ('f', 0, 1)))))
            else: out.append((s, 'ret', (v, None)))
        return out
    if k == 'repeat': return R(st, (v, f[0]))
    if k == 'repeatw': return bind(eng.call_value(st, f[0], []), lambda s, x: R(s, (v, x)))
    if k == 'sample':
        r = eng.fresh('sample', 'rand::rng::Rng::sample', (st.snap(f[0]), st.snap(f[1])))
        st.add('call', 'rand::rng::Rng::sample', (st.snap(f[0]), st.snap(f[1])), r, cx.get('span'))
        return R(st, (v, r))
    if k == 'built':
        p, n, alts = eng.built[f[0][1]]
        eng.uid += 1
        cell = ('H', eng.uid)
        st.mem[cell] = f[1]
        def go(s):
            res = []; pos = s.mem[cell]
            know(s, pos, 'usize')
            for s1, b in eng.split(s, lt(pos, n)):
                if not b: res.append((s1, 'exit', None)); continue
                for c, item in alts:
                    s2 = s1.copy()
                    if not assume_at(s2, c, p, pos): continue
                    s2.mem[cell] = add(pos, 1)
                    res.append((s2, 'back', None) if item is None else (s2, 'exit', at(item, p, pos)))
            return res
        out = []
        eng.knowlen(st, n)
        if all(i is not None for c, i in alts):
            return [(s, 'ret', (it(k, f[0], s.mem[cell]), x)) for s, kk, x in go(st)]
        for s, kk, x in eng.loop(st, go, 'filter', cx.get('span')): out.append((s, 'ret', (it(k, f[0], s.mem[cell]), x)) if kk == 'exit' else (s, kk, x))
        return out
    if k == 'unknown':
        s2 = st.copy()
        item = ('item', f[0], f[1])
        know(st, f[1], 'usize')
        return R(st, (it('unknown', f[0], add(f[1], 1)), item)) + R(s2, (v, None))
    # adaptors
    def inner(cont, v0=f[0] if f else None):
        return bind(it_next(eng, st, v0, cx), lambda s, r: cont(s, r[0], r[1]))
    if k == 'amap':
        def c(s, i2, x):
            if x is None: return R(s, (it(k, i2, f[1]), None))
            return bind(eng.call_value(s, f[1], [x]), lambda s2, y: R(s2, (it(k, i2, f[1]), y)))
        return inner(c)
    if k == 'ainspect':
        def c(s, i2, x):
            if x is None: return R(s, (it(k, i2, f[1]), None))
            eng.uid += 1
            h = ('H', eng.uid); s.mem[h] = x
            return bind(eng.call_value(s, f[1], [('ref', h, ())]), lambda s2, y: R(s2, (it(k, i2, f[1]), x)))
        return inner(c)
    if k == 'aref2':
        def c(s, i2, x):
            if x is None: return R(s, (it(k, i2), None))
            eng.uid += 1
            h = ('H', eng.uid); s.mem[h] = x
            return R(s, (it(k, i2), tup(('ref', h, (('f', 0, None),)), ('ref', h, (('f', 1, None),)))))
        return inner(c)
    if k == 'aref':
        def c(s, i2, x):
            if x is None: return R(s, (it(k, i2), None))
            eng.uid += 1
            h = ('H', eng.uid); s.mem[h] = x
            return R(s, (it(k, i2), ('ref', h, ())))
        return inner(c)
    if k == 'acloned':
        return inner(lambda s, i2, x: R(s, (it(k, i2), None if x is None else s.load(x))))
    if k == 'aenum':
        return inner(lambda s, i2, x: R(s, (it(k, i2, f[1] if x is None else add(f[1], 1)), None if x is None else tup(f[1], x))))
    if k == 'atake':
        i0, n, pos = f
        out = []
        know(st, pos, 'usize'); know(st, n, 'usize')
        for s, b in eng.split(st, lt(pos, n)):
            if not b: out.append((s, 'ret', (v, None)))
            else:
                for s2, kk, r in it_next(eng, s, i0, cx):
                    if kk != 'ret': out.append((s2, kk, r))
                    else: out.append((s2, 'ret', (it(k, r[0], n, add(pos, 1)), r[1])))
        return out
    if k == 'azip':
        def c(s, i2, x):
            if x is None: return R(s, (it(k, i2, f[1]), None))
            return bind(it_next(eng, s, f[1], cx), lambda s2, r: R(s2, (it(k, i2, r[0]), None if r[1] is None else tup(x, r[1]))))
        return inner(c)
    if k == 'askip':
        i0, n = f
        if i0[2] in ('seq', 'seqval', 'map', 'keys', 'values', 'mapval'):
            fs = list(i0[3]); fs[-1] = eng.arith('Add', fs[-1], n)
            return it_next(eng, st, it(i0[2], *fs), cx)
        raise E.Imprecise('skip')
    if k == 'arev':
        i0 = f[0]
        if i0[1] == 'core::ops::range::Range':
            a, b = i0[3]
            out = []
            for s, c in eng.split(st, lt(a, b)):
                if c: out.append((s, 'ret', (it(k, ('agg', i0[1], 0, (a, add(b, -1)))), add(b, -1))))
                else: out.append((s, 'ret', (v, None)))
            return out
        if i0[2] == 'seq':
            p, pos = i0[3]
            loc, w = seqloc(st, p)
            n = vlen(w)
            if n[0] == 'int' and pos[0] == 'int':
                if pos[1] >= n[1]: return [(st, 'ret', (v, None))]
                return [(st, 'ret', (it(k, it('seq', p, add(pos, 1))), refat(loc, I(n[1] - pos[1] - 1))))]
            idx = add(eng.arith('Sub', n, pos), -1)
            def mk(n2): return it(k, it('seq', p, n2))
            out = []
            eng.knowlen(st, n); know(st, pos, 'usize')
            for s, b in eng.split(st, lt(pos, n)):
                out.append((s, 'ret', (mk(add(pos, 1)), refat(loc, idx)) if b else (v, None)))
            return out
        if i0[2] == 'seqval' and i0[3][0][0] == 'agg' and i0[3][1][0] == 'int':
            w, pos = i0[3]; n = len(w[3])
            if pos[1] >= n: return [(st, 'ret', (v, None))]
            return [(st, 'ret', (it(k, it('seqval', w, add(pos, 1))), w[3][n - pos[1] - 1]))]
        raise E.Imprecise('rev of %s' % i0[2])
    if k == 'achain':
        def c(s, i2, x):
            if x is not None: return R(s, (it(k, i2, f[1]), x))
            return bind(it_next(eng, s, f[1], cx), lambda s2, r: R(s2, (it(k, i2, r[0]), r[1])))
        return inner(c)
    if k in ('afilter', 'afmap', 'atakew'):
        if k == 'atakew':
            def c(s, i2, x):
                if x is None: return R(s, (it(k, i2, f[1]), None))
                eng.uid += 1
                h = ('H', eng.uid); s.mem[h] = x
                def d(s2, b):
                    return [(s3, 'ret', (it(k, i2, f[1]), x) if t else (it('opt', none), None)) for s3, t in eng.split(s2, b)]
                return bind(eng.call_value(s, f[1], [('ref', h, ())]), d)
            return inner(c)
        # skipping is a loop of its own
        eng.uid += 1
        cell = ('H', eng.uid)
        st.mem[cell] = f[0]
        def step(s):
            res = []
            for s1, kk, r in it_next(eng, s, s.mem[cell], cx):
                if kk != 'ret': res.append((s1, kk, r)); continue
                s1.mem[cell] = r[0]
                x = r[1]
                if x is None: res.append((s1, 'exit', None)); continue
                if k == 'afilter':
                    eng.uid += 1
                    h = ('H', eng.uid); s1.mem[h] = x
                    for s2, k2, b in eng.call_value(s1, f[1], [('ref', h, ())]):
                        if k2 != 'ret': res.append((s2, k2, b)); continue
                        for s3, t in eng.split(s2, b):
                            res.append((s3, 'exit', x) if t else (s3, 'back', None))
                else:
                    for s2, k2, b in eng.call_value(s1, f[1], [x]):
                        if k2 != 'ret': res.append((s2, k2, b)); continue
                        for s3, i in eng.variant(s2, b, OPT):
                            res.append((s3, 'exit', get(b, ('f', 0, 1))) if i == 1 else (s3, 'back', None))
            return res
        out = []
        for s, kk, x in eng.loop(st, step, 'filter', cx.get('span')):
            if kk == 'exit': out.append((s, 'ret', (it(k, s.mem[cell], f[1]), x)))
            else: out.append((s, kk, x))
        return out
    raise E.Imprecise('iterator %s' % k)

@model('Iterator::next', 'DoubleEndedIterator::next_back')
def m_next(eng, st, ref, args, cx):
    loc = st.loc(args[0]); v = st.read(loc)
    if v[0] == 'ref': loc = (v[1], v[2]); v = st.read(loc)
    if not isiter(v): return NotImplemented
    if ref.method == 'next_back': return NotImplemented
    def c(s, r):
        s.write(loc, r[0])
        return R(s, none if r[1] is None else some(r[1]))
    return bind(it_next(eng, st, v, cx), c)

FEW = 4
def few(st, v):
    """an iterator over at most a handful of elements that are written down"""
    if not isiter(v): return False
    if v[1] == 'core::ops::range::Range':
        a, b = v[3]
        return a[0] == 'int' and b[0] == 'int' and b[1] - a[1] <= FEW
    if v[1] != '$it': return False
    k, f = v[2], v[3]
    if k in ('seq', 'seqval'):
        try: w = seqloc(st, f[0])[1] if k == 'seq' else f[0]
        except Exception: return False
        return w[0] == 'agg' and w[1] == 'array' and len(w[3]) <= FEW
    return bool(f) and isinstance(f[0], tuple) and few(st, f[0])
def consume(eng, st, v, cx, init, body, done, name):
    """fold of an iterator: body(state, acc, item) -> [(state, 'back'|'exit'|kind, acc or result)]"""
    eng.uid += 1
    ci, ca = ('H', eng.uid, 'it'), ('H', eng.uid, 'acc')
    st.mem[ci] = v; st.mem[ca] = init
    def step(s):
        res = []
        for s1, k, r in it_next(eng, s, s.mem[ci], cx):
            if k != 'ret': res.append((s1, k, r)); continue
            s1.mem[ci] = r[0]
            if r[1] is None: res.append((s1, 'exit', ('done', s1.mem[ca]))); continue
            for s2, k2, a in body(s1, s1.mem[ca], r[1]):
                if k2 == 'back': s2.mem[ca] = a; res.append((s2, 'back', None))
                elif k2 == 'exit': res.append((s2, 'exit', ('early', a)))
                else: res.append((s2, k2, a))
        return res
    out = []
    for s, k, r in eng.loop(st, step, name, cx.get('span')):
        if k == 'exit':
            for c in (ci, ca): s.mem.pop(c, None)
            if r[0] == 'done': out += done(s, r[1])
            else: out.append((s, 'ret', r[1]))
        else: out.append((s, k, r))
    return out

def itarg(st, a):
    """iterator passed by value or by mutable reference"""
    if isiter(a): return a, None
    loc = st.loc(a); v = st.read(loc)
    if isiter(v): return v, loc
    return None, None

@model('Iterator::any', 'Iterator::all', 'Iterator::find', 'Iterator::position', 'Iterator::find_map', 'Iterator::for_each', 'Iterator::try_for_each', 'Iterator::fold', 'Iterator::count', 'Iterator::sum', 'Iterator::try_fold')
def m_consume(eng, st, ref, args, cx):
    v, loc = itarg(st, args[0])
    if v is None: return NotImplemented
    n = ref.method
    f = args[-1]
    def hold(s, x):
        eng.uid += 1
        h = ('H', eng.uid); s.mem[h] = x
        return ('ref', h, ())
    init = UNIT
    if n in ('position', 'count', 'sum'): init = I(0)
    if n in ('fold', 'try_fold'): init = args[1]
    def body(s, acc, x):
        if n == 'count': return [(s, 'back', add(acc, 1))]
        if n == 'sum': return [(s, 'back', eng.arith('Add', acc, s.deep(x)))]
        if n in ('fold', 'try_fold'): outs = eng.call_value(s, f, [acc, x])
        elif n == 'find': outs = eng.call_value(s, f, [hold(s, x)])
        else: outs = eng.call_value(s, f, [x])
        res = []
        for s1, k, b in outs:
            if k != 'ret': res.append((s1, k, b)); continue
            if n == 'for_each': res.append((s1, 'back', acc))
            elif n == 'fold': res.append((s1, 'back', b))
            elif n in ('try_for_each', 'try_fold'):
                t = stripref(eng, tyk(eng, cx.get('dty')))
                adt = t.get('adt', RES)
                for s2, i in eng.variant(s1, b, adt):
                    good = (i == 0) if adt == RES else (i == 1)
                    if adt.endswith('ControlFlow'): good = i == 0
                    if good: res.append((s2, 'back', get(b, ('f', 0, i)) if n == 'try_fold' else acc))
                    else: res.append((s2, 'exit', b))
            elif n == 'find_map':
                for s2, i in eng.variant(s1, b, OPT): res.append((s2, 'exit', b) if i == 1 else (s2, 'back', acc))
            else:
                for s2, t in eng.split(s1, b):
                    if n == 'any': res.append((s2, 'exit', Bc(True)) if t else (s2, 'back', acc))
                    elif n == 'all': res.append((s2, 'back', acc) if t else (s2, 'exit', Bc(False)))
                    elif n == 'find': res.append((s2, 'exit', some(x)) if t else (s2, 'back', acc))
                    elif n == 'position': res.append((s2, 'exit', some(acc)) if t else (s2, 'back', add(acc, 1)))
        return res
    def done(s, acc):
        r = {'any': Bc(False), 'all': Bc(True), 'find': none, 'position': none, 'find_map': none, 'for_each': UNIT, 'try_for_each': ok(UNIT)}.get(n, acc)
        if n == 'try_fold': r = ok(acc)
        return R(s, r)
    return consume(eng, st, v, cx, init, body, done, n)

@model('Iterator::collect', 'FromIterator::from_iter', 'Extend::extend', 'Vec::extend_from_slice', 'Vec::append', 'VecDeque::append')
def m_collect(eng, st, ref, args, cx):
    n = ref.method
    if n in ('extend', 'extend_from_slice', 'append'):
        loc, init = seqloc(st, args[0])
        t = stripref(eng, argty(eng, cx, 0))
        src = args[1]
        if n == 'append':
            l2, sv = seqloc(st, src); st.write(l2, ('vempty',)); src = it('seqval', sv, I(0))
        elif n == 'extend_from_slice': src = it('acloned', seqiter(eng, st, src))
    else:
        loc = None; t = tyk(eng, cx.get('dty')); init = None; src = args[0]
    l = t.get('adt', t['k']).split('::')[-1]
    v, _ = itarg(st, src)
    if v is None:
        r = m_intoiter(eng, st, ref, [src], {'tys': [cx['tys'][-1]] if cx.get('tys') else [], 'of': 'the argument'}) if n != 'collect' else NotImplemented
        if r is NotImplemented: return NotImplemented
        v = r[0][2]
        if not isiter(v): return NotImplemented
    wrap = None
    if l in ('Result', 'Option') and t.get('args'):
        wrap = l; t = eng.types[t['args'][0]]; l = t.get('adt', t['k']).split('::')[-1]
    if init is None:
        init = ('str', '') if l == 'String' else ('mempty',) if l in MAPS else ('vempty',)
    if l not in ('String', 'Vec', 'VecDeque', 'HashMap', 'BTreeMap', 'HashSet', 'BTreeSet', 'Box'): return NotImplemented
    # a plain range is a sequence of its own
    if v[1] == 'core::ops::range::Range' and l in ('Vec', 'VecDeque') and init == ('vempty',) and not wrap:
        whole = ('vrange', v[3][0], v[3][1])
        if loc is None: return R(st, whole)
        st.write(loc, whole); return R(st, UNIT)
    if v[1] == '$it' and v[2] == 'seqval' and v[3][1] == I(0) and l in ('Vec', 'VecDeque') and init == ('vempty',) and not wrap:
        if loc is None: return R(st, v[3][0])
        st.write(loc, v[3][0]); return R(st, UNIT)
    if not wrap and init in (('vempty',), ('mempty',)) and 'Set' not in l:
        whole = mapped(eng, st, v, cx, l in MAPS)
        if whole is not None:
            if loc is None: return R(st, whole)
            if l not in MAPS: st.write(loc, whole); return R(st, UNIT)
        elif l in ('Vec', 'VecDeque') and loc is None:
            whole = filtered(eng, st, v, cx)
            if whole is not None: return R(*whole)
    def body(s, acc, x):
        if wrap:
            adt = RES if wrap == 'Result' else OPT
            res = []
            for s2, i in eng.variant(s, x, adt):
                good = i == (0 if wrap == 'Result' else 1)
                if not good: res.append((s2, 'exit', x))
                else: res += ins(s2, acc, get(x, ('f', 0, i)))
            return res
        return ins(s, acc, x)
    def ins(s, acc, x):
        if l == 'String':
            y = s.deep(x)
            t0 = y
            if y[0] not in ('str', 'concat', 'to_string') : y = ('chr', y) if not is_str(y) else y
            return [(s, 'back', concat(acc, y))]
        if l in MAPS:
            if 'Set' in l: k, val = x, UNIT
            else: k, val = get(x, ('f', 0, None)), get(x, ('f', 1, None))
            res = []
            for s2, k2, h in haskey(eng, s, acc, key_of(s, k)):
                s2.add('map', 'replace' if h else 'insert', loc, k2, s2.snap(val), cx.get('span'))
                res.append((s2, 'back', ('mset' if h else 'minsert', acc, k2, s2.snap(val))))
            return res
        return [(s, 'back', ('vpush', acc, x))]
    def is_str(y): return False
    def done(s, acc):
        if loc is not None:
            s.write(loc, acc); return R(s, UNIT)
        return R(s, ok(acc) if wrap == 'Result' else some(acc) if wrap == 'Option' else acc)
    return consume(eng, st, v, cx, init, body, done, 'collect')

ITH = ('sym', '$i')
def source(v, pos):
    """(the same iterator at another position, what it runs over) of one that gives one item for each element"""
    if v[1] != '$it': return None
    k, f = v[2], v[3]
    if k in ('seq', 'seqval', 'map', 'keys', 'values', 'mapval', 'keyval', 'valval'):
        if f[-1] != I(0): return None
        return it(k, *f[:-1], pos), (k, f)
    if k in ('amap', 'acloned', 'aenum'):
        r = source(f[0], pos)
        if r is None or k == 'aenum' and f[1] != I(0): return None
        return it(k, r[0], *((pos,) if k == 'aenum' else f[1:])), r[1]
    return None
def rebased(eng, st, v):
    """the same chain of filters and maps over a copy of what it runs over now, and whether it has filters; None when it cannot be run again"""
    if v[1] != '$it': return None
    k, f = v[2], v[3]
    if k in ('seqval', 'mapval', 'keyval', 'valval'): return (v, False) if f[-1] == I(0) else None
    if k in ('seq', 'map', 'keys', 'values'):
        if f[-1] != I(0): return None
        w = seqloc(st, f[0])[1] if k == 'seq' else f[1]
        eng.uid += 1
        h = ('H', eng.uid); st.mem[h] = st.snap(w)
        return it(k, ('ref', h, ()), *((st.mem[h],) if k != 'seq' else ()), I(0)), False
    if k in ('amap', 'acloned', 'afilter', 'afmap'):
        if k != 'acloned' and any(t and t[0] == 'ref' for t in subterms(f[1])): return None
        r = rebased(eng, st, f[0])
        return r and (it(k, r[0], *f[1:]), r[1] or k in ('afilter', 'afmap'))
    return None
def once(eng, st, v, cx):
    """outcomes for one element; value is (item,) or None when it is filtered out"""
    k, f = v[2], v[3]
    if k in ('seq', 'map', 'keys', 'values', 'seqval', 'mapval', 'keyval', 'valval'):
        return bind(it_next(eng, st, it(k, *f[:-1], ITH), cx), lambda s, r: R(s, r[1] and (r[1],)))
    def c(s, x):
        if x is None: return R(s, None)
        x = x[0]
        if k == 'acloned': return R(s, (s.load(x),))
        if k == 'amap': return bind(eng.call_value(s, f[1], [x]), lambda s2, y: R(s2, (y,)))
        if k == 'afmap': return bind(eng.call_value(s, f[1], [x]), lambda s2, y: [(s3, 'ret', (get(y, ('f', 0, 1)),) if i == 1 else None) for s3, i in eng.variant(s2, y, OPT)])
        eng.uid += 1
        h = ('H', eng.uid); s.mem[h] = x
        return bind(eng.call_value(s, f[1], [('ref', h, ())]), lambda s2, b: [(s3, 'ret', (x,) if t else None) for s3, t in eng.split(s2, b)])
    return bind(once(eng, st, f[0], cx), c)
def filtered(eng, st, v, cx):
    """what collecting a filtered iterator gives when nothing else happens: going through it is going through the iterator"""
    s = st.copy()
    r = rebased(eng, s, v)
    if r is None or not r[1]: return None
    i2 = r[0]; base = i2
    while base[2] in ('amap', 'acloned', 'afilter', 'afmap'): base = base[3][0]
    w = seqloc(s, base[3][0])[1] if base[2] == 'seq' else base[3][1] if base[2] in ('map', 'keys', 'values') else base[3][0]
    n = eng.knowlen(s, vlen(w))
    keep = dict(s.mem)
    s0 = s.copy()
    know(s, ITH, 'usize'); s.facts.assume(lt(ITH, n), True)
    for s2, kk, x in once(eng, s, i2, cx):
        if kk != 'ret' or s2.ev != st.ev: return None
        if any(s2.mem.get(q) != val for q, val in keep.items()): return None
    return s0, ('vfilt', i2)

def mapped(eng, st, v, cx, tomap):
    """what collecting gives when each item is made of one element and nothing else happens"""
    r = source(v, ITH)
    if r is None: return None
    i2, (k, f) = r
    if k in ('seq', 'map', 'keys', 'values'):
        loc, w = seqloc(st, f[0]) if k == 'seq' else (st.loc(f[0]), f[1])
    else: w = f[0]
    s = st.copy(); n = eng.knowlen(s, vlen(w))
    know(s, ITH, 'usize'); s.facts.assume(lt(ITH, n), True)
    outs = it_next(eng, s, i2, cx)
    if len(outs) != 1: return None
    s2, kk, x = outs[0]
    if kk != 'ret' or x[1] is None or s2.ev != st.ev: return None
    if any(s2.mem.get(r) != val for r, val in st.mem.items()): return None
    item = x[1]
    for t in subterms(item):
        if t[:1] == ('ref',) and len(t) > 1 and t[1] not in st.mem and t[1][0] == 'H': return None
    if tomap:
        key = ('mkey', w, ITH)
        return w if s2.snap(item) == tup(key, get(w, ('key', key))) else None
    if k in ('seq', 'seqval') and item == get(w, ('at', ITH)): return w
    if item == ITH: return ('vrange', I(0), n)
    return ('vmap', n, item)

def at(t, p, pos):
    """t with position p replaced"""
    if t == p: return pos
    if not isinstance(t, tuple): return t
    if t and t[0] == 'add' and len(t) == 3: return add(at(t[1], p, pos), t[2])
    return tuple(at(x, p, pos) for x in t)
def foreign(t, lid, p, uid):
    """says more than where in the loop the element is"""
    for x in subterms(t):
        if not x or x == p: continue
        if x[0] == 'phi' and x[1] == lid: return True
        if x[0] == 'ret' and isinstance(x[1], int) and x[1] > uid: return True
        if x[0] == 'ref' and x[1][0] in 'HL': return True
        if x[0] in ('uninit', 'moved', 'tx', 'rx', 'fut', 'closure'): return True
    return False
def gathered(eng, L, outs):
    """a collection a loop has put together from the elements it went through, and nothing else: what goes through the collection goes through those elements"""
    def quiet(e): return e[0] in ('seq', 'map') and e[1] in ('push', 'insert', 'replace') and e[2] is not None and e[2][0][0] in 'HL'
    if not L.iters: return outs
    if not outs or any(k != 'exit' for s, k, v in outs): return outs
    lid = L.id; n = None; pos = None
    uid = int(lid[1:])
    phis = [(path, phi) for r, v in L.head.mem.items() for path, phi in E.phis_in(v, lid, (r,))]
    for path, phi in phis:
        if E.at_path(L.entry, path) != I(0) or any(E.at_path(s, path) != add(phi, 1) for s in L.iters): continue
        ends = [{y for (x, y), c in s.facts.le.items() if x == phi and c <= -1 and y is not None and not any(t and t[0] == 'phi' and t[1] == lid for t in subterms(y))} for s in L.iters]
        for y in sorted(set.intersection(*ends), key=repr):
            if all(s.facts.ev(le(y, phi)) is True for s, k, v in outs): pos, n = phi, y; break
        if pos is not None: break
    if pos is None: return outs
    h = L.head.facts
    for path, phi in phis:
        init = E.at_path(L.entry, path)
        if init not in (('vempty',), ('mempty',)): continue
        alts = []; good = True
        for s in L.iters:
            v = E.at_path(s, path); item = None
            # a key of another map comes up once
            if v is not None and v[0] == 'mset' and v[1] == phi and v[2][0] == 'mkey' and v[2][2] == pos: continue
            if not all(quiet(e) for e in s.ev): good = False; break
            if v == phi: pass
            elif v is not None and v[0] == 'vpush' and v[1] == phi: item = v[2]
            elif v is not None and v[0] == 'minsert' and v[1] == phi:
                # keys of another map, each once
                if not (v[2][0] == 'mkey' and v[2][2] == pos): good = False; break
                item = tup(v[2], v[3])
            else: good = False; break
            if item is not None: item = s.snap(item)
            if item is not None and foreign(item, lid, pos, uid): good = False; break
            cond = [c for c in conditions(h, s.facts) if not foreign(c[1], lid, pos, uid)]
            alts.append((tuple(cond), item))
        if not good or all(i is None for c, i in alts): continue
        alts = sorted(set(alts), key=repr)
        key = (lid, path)
        eng.built[key] = (pos, n, alts)
        items = {i for c, i in alts}
        if init == ('mempty',):
            w = next(i for c, i in alts if i is not None)[3][0][1]
            new = w if items == {tup(('mkey', w, pos), get(w, ('key', ('mkey', w, pos))))} else ('mfilt', it('built', ('const', key), I(0)))
        elif len(items) == 1:
            i = items.pop()
            new = None
            # each element itself
            if i[0] == 'elem' and i[2] == pos and n == vlen(i[1]): new = i[1]
            if new is None: new = ('vrange', I(0), n) if i == pos else ('vmap', n, at(i, pos, ITH))
        else: new = ('vfilt', it('built', ('const', key), I(0)))
        for s, k, v in outs:
            for r, x in list(s.mem.items()):
                if contains(x, phi): s.mem[r] = E.replace(x, phi, new)
    return outs
def conditions(h, f):
    """what is known in f beyond h"""
    cond = []
    for a, b in (('var', f.var), ('nvar', f.nvar), ('bools', f.bools)):
        cond += [(a, t, x) for t, x in b.items() if getattr(h, a).get(t) != x]
    cond += [('le', k, c) for k, c in f.le.items() if h.le.get(k) != c]
    cond += [('ne', k, None) for k in f.ne if k not in h.ne]
    return tuple(cond)
def assume_at(st, cond, p, pos):
    for k, t, x in cond:
        if k == 'le': st.facts.assume(le(*(I(0) if a is None else at(a, p, pos) for a in t), x), True)
        elif k == 'ne': st.facts.assume(ieq(add(at(t[0], p, pos) if t[0] is not None else I(0), -t[2]), at(t[1], p, pos) if t[1] is not None else I(0)), False)
        else:
            t = at(t, p, pos)
            if k == 'bools': st.facts.assume(t, x)
            elif k == 'var':
                if st.facts.var.get(t, x) != x or x in st.facts.nvar.get(t, ()): return False
                st.facts.var[t] = x
            else:
                if st.facts.var.get(t) in x: return False
                st.facts.nvar[t] = st.facts.nvar.get(t, frozenset()) | x
        if st.facts.bot: return False
    return True

@model('Iterator::last', 'Iterator::nth', 'Iterator::max', 'Iterator::min', 'Iterator::max_by_key', 'Iterator::min_by_key')
def m_itlast(eng, st, ref, args, cx):
    v, loc = itarg(st, args[0])
    if v is None: return NotImplemented
    if v[1] == '$it' and v[2] == 'seq' and v[3][1] == I(0):
        l, w = seqloc(st, v[3][0])
        n = eng.knowlen(st, vlen(w))
        if ref.method == 'last': return [(s, 'ret', none if e else some(refat(l, add(n, -1)))) for s, e in eng.split(st, ieq(n, I(0)))]
        if ref.method == 'nth': return [(s, 'ret', some(refat(l, args[1])) if e else none) for s, e in eng.split(st, lt(args[1], n))]
    return NotImplemented

@seqmodel('retain', 'retain_mut')
def m_retain(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    # kept elements, in order
    src = it('seqval', v, I(0))
    def body(s, acc, x):
        eng.uid += 1
        h = ('H', eng.uid); s.mem[h] = x
        res = []
        for s1, k, b in eng.call_value(s, args[1], [('ref', h, ())]):
            if k != 'ret': res.append((s1, k, b)); continue
            for s2, t in eng.split(s1, b):
                if not t: s2.add('seq', 'retain_drop', loc, x, cx.get('span'))
                res.append((s2, 'back', ('vpush', acc, x) if t else acc))
        return res
    def done(s, acc):
        s.write(loc, acc); return R(s, UNIT)
    return consume(eng, st, src, cx, ('vempty',), body, done, 'retain')
@mapmodel('retain')
def m_mretain(eng, st, ref, args, cx):
    loc, v = seqloc(st, args[0])
    src = it('map', ('ref', loc[0], loc[1]), v, I(0))
    if loc[0][0] in 'HL' and not any(t and t[0] == 'ref' for t in subterms(args[1])):
        # what is kept of a map of its own is what going through it and leaving out the rest gives
        s0 = st.copy(); eng.uid += 1; h = ('H', eng.uid); s0.mem[h] = v
        s = s0.copy(); keep = dict(s.mem)
        know(s, ITH, 'usize'); s.facts.assume(lt(ITH, eng.knowlen(s, vlen(v))), True)
        x = it_next(eng, s, it('map', ('ref', h, ()), v, ITH), cx)[0][2][1]
        alts = []
        for s1, k, b in eng.call_value(s, args[1], list(x[3])):
            if k != 'ret' or s1.ev != st.ev or any(s1.mem.get(q) != val for q, val in keep.items()): alts = None; break
            for s2, t in eng.split(s1, b): alts.append((conditions(s0.facts, s2.facts), tup(('mkey', v, ITH), get(v, ('key', ('mkey', v, ITH)))) if t else None))
        if alts:
            key = ('retain', eng.uid)
            eng.built[key] = (ITH, eng.knowlen(st, vlen(v)), sorted(set(alts), key=repr))
            st.write(loc, ('mfilt', it('built', ('const', key), I(0)))); return R(st, UNIT)
    def body(s, acc, x):
        res = []
        for s1, k, b in eng.call_value(s, args[1], list(x[3])):
            if k != 'ret': res.append((s1, k, b)); continue
            for s2, t in eng.split(s1, b):
                if not t: s2.add('map', 'remove', loc, x[3][0], s2.snap(x[3][1]), cx.get('span'))
                res.append((s2, 'back', acc))
        return res
    def done(s, acc):
        r = eng.fresh('retained', 'retain', (v,))
        s.write(loc, r); return R(s, UNIT)
    return consume(eng, st, src, cx, UNIT, body, done, 'retain')

# ------------------------------------------------------------------ time
@model('Duration::new', 'Duration::from_secs', 'Duration::from_millis', 'Duration::from_micros', 'Duration::from_nanos', 'Duration::from_mins', 'Duration::from_hours')
def m_dur(eng, st, ref, args, cx):
    m = ref.method
    if m == 'new':
        if args[1] == I(0): return R(st, dur(args[0], 10**9))
        return R(st, ('dur+', args[0], args[1]))
    return R(st, dur(args[0], {'from_secs': 10**9, 'from_millis': 10**6, 'from_micros': 10**3, 'from_nanos': 1, 'from_mins': 60 * 10**9, 'from_hours': 3600 * 10**9}[m]))
def dur(t, unit):
    if t[0] == 'mul': return dur(t[1], unit * t[2])
    return ('dur', t, unit)
@model('tokio::time::sleep::sleep', 'actix::clock::sleep')
def m_sleep(eng, st, ref, args, cx): return R(st, ('fut', 'sleep', args[0]))

# ------------------------------------------------------------------ channels
@model('tokio::sync::oneshot::channel', 'tokio::sync::mpsc::unbounded::unbounded_channel', 'crossbeam_channel::channel::unbounded', 'std::sync::mpsc::channel', 'futures_channel::oneshot::channel')
def m_channel(eng, st, ref, args, cx):
    eng.uid += 1
    k = ref.full.split('::')
    kind = 'oneshot' if 'oneshot' in ref.full else 'tokio' if 'tokio' in ref.full else 'thread'
    return R(st, tup(('tx', eng.uid, kind, None), ('rx', eng.uid, kind, None)))
@model('tokio::sync::mpsc::bounded::channel', 'crossbeam_channel::channel::bounded', 'std::sync::mpsc::sync_channel')
def m_bchannel(eng, st, ref, args, cx):
    eng.uid += 1
    kind = 'tokio' if 'tokio' in ref.full else 'thread'
    return R(st, tup(('tx', eng.uid, kind, args[0]), ('rx', eng.uid, kind, args[0])))

def alive(st, uid):
    """the receiver is still held by the function itself"""
    for r, v in st.mem.items():
        if v[0] not in CONSTS and contains_rx(v, uid): return True
    return False
def contains_rx(v, uid):
    if v[0] == 'rx' and v[1] == uid: return True
    if v[0] == 'agg': return any(contains_rx(x, uid) for x in v[3])
    if v[0] == 'upd': return any(contains_rx(x, uid) for p, x in v[2])
    return False

def chan_send(eng, st, tx, v, cx, how, errof):
    tx = st.deep(tx)
    st.add('send_chan', how, tx, st.snap(v), cx.get('span'))
    if tx[0] == 'tx' and alive(st, tx[1]) and tx[3] is None: return R(st, ok(UNIT))
    s2 = st.copy()
    u = eng.fresh('sent')
    out = []
    st.facts.bools[('delivered', u)] = True
    s2.facts.bools[('delivered', u)] = False
    s2.add('send_failed', tx, cx.get('span'))
    return R(st, ok(UNIT)) + R(s2, err(errof(s2, v)))

@model('tokio::sync::oneshot::Sender::send')
def m_osend(eng, st, ref, args, cx): return chan_send(eng, st, args[0], args[1], cx, 'oneshot', lambda s, v: v)
@model('tokio::sync::mpsc::unbounded::UnboundedSender::send', 'tokio::sync::mpsc::bounded::Sender::try_send', 'tokio::sync::mpsc::bounded::Sender::blocking_send')
def m_msend(eng, st, ref, args, cx):
    how = 'tokio'
    if ref.method == 'blocking_send' : st.add('call', ref.full, (), UNIT, cx.get('span'))
    return chan_send(eng, st, args[0], args[1], cx, how, lambda s, v: ('agg', 'tokio::sync::mpsc::error::SendError', 0, (v,)))
@model('crossbeam_channel::channel::Sender::send', 'std::sync::mpsc::Sender::send', 'std::sync::mpsc::SyncSender::send', 'crossbeam_channel::channel::Sender::try_send', 'std::sync::mpsc::SyncSender::try_send')
def m_csend(eng, st, ref, args, cx):
    return chan_send(eng, st, args[0], args[1], cx, 'thread' if ref.method == 'send' else 'thread_try', lambda s, v: ('agg', 'crossbeam_channel::err::SendError', 0, (v,)))
@model('crossbeam_channel::channel::Receiver::recv', 'std::sync::mpsc::Receiver::recv')
def m_crecv(eng, st, ref, args, cx):
    rx = st.deep(args[0])
    r = eng.fresh('recv', 'recv', (rx,))
    st.add('recv', rx, r, cx.get('span'))
    s2 = st.copy()
    st.facts.bools[('received', r)] = True
    s2.facts.bools[('received', r)] = False
    return R(st, ok(r)) + R(s2, err(eng.fresh('RecvError')))

@model('crossbeam_channel::channel::Receiver::iter', 'crossbeam_channel::channel::Receiver::try_iter', 'std::sync::mpsc::Receiver::iter')
def m_chaniter(eng, st, ref, args, cx):
    return R(st, it('chan', args[0], ('const', ref.method)))
_old_next = it_next
def it_next(eng, st, v, cx):
    if v[0] == 'agg' and v[1] == '$it' and v[2] == 'chan':
        rx = st.deep(v[3][0])
        r = eng.fresh('recv', 'recv', (rx,))
        st.add('recv', rx, r, cx.get('span'))
        s2 = st.copy()
        st.facts.bools[('received', r)] = True
        s2.facts.bools[('received', r)] = False
        return R(st, (v, r)) + R(s2, (v, None))
    return _old_next(eng, st, v, cx)

# ------------------------------------------------------------------ threads
@model('std::thread::functions::spawn', 'std::thread::spawn')
def m_spawn(eng, st, ref, args, cx):
    eng.uid += 1
    t = ('thread', eng.uid)
    st.add('thread', t, st.snap(args[0]), cx.get('span'))
    return R(st, t)
@model('JoinHandle::join')
def m_joinh(eng, st, ref, args, cx):
    h = st.snap(args[0])
    st.add('join', h, cx.get('span'))
    s2 = st.copy()
    b = ('panicked', h)
    st.facts.bools[b] = False; s2.facts.bools[b] = True
    return R(st, ok(('joined', h))) + R(s2, err(('panic of', h)))
@model('Builder::spawn')
def m_bspawn(eng, st, ref, args, cx):
    if 'thread' not in ref.full: return NotImplemented
    eng.uid += 1
    t = ('thread', eng.uid)
    s2 = st.copy()
    st.add('thread', t, st.snap(args[1]), cx.get('span'))
    return R(st, ok(t)) + R(s2, err(eng.fresh('io error')))

# ------------------------------------------------------------------ actors and futures
def addr_of(st, a): return st.snap(a)
@model('Addr::send', 'Recipient::send', 'WeakAddr::send')
def m_asend(eng, st, ref, args, cx):
    eng.uid += 1
    f = ('fut', 'send', eng.uid)
    a, m = addr_of(st, args[0]), st.snap(args[1])
    eng.calls[eng.uid] = ('send', a, m)
    st.add('send', 'request', a, m, f, cx.get('span'), msgty(eng, cx))
    return R(st, f)
def msgty(eng, cx):
    t = cx.get('tys') or []
    return eng.types[t[1]]['s'] if len(t) > 1 and t[1] is not None else None
@model('Addr::do_send', 'Recipient::do_send', 'Addr::try_send', 'Recipient::try_send')
def m_adosend(eng, st, ref, args, cx):
    a, m = addr_of(st, args[0]), st.snap(args[1])
    out = []
    if ref.method == 'try_send':
        # refused by a mailbox that is closed, or full: then the message comes back. Every copy of an
        # address has a place of its own in the mailbox; only an address that has been sent to before is
        # ever told that it is full
        used = any(e[0] == 'send' and e[1] in ('send', 'try_send') and e[2] == a for e in st.ev)
        for i in range(2):
            if i == 0 and not used: continue
            if i == 1 and a == ('addr_of', ('sym', 'ctx')): continue
            s2 = st.copy(); s2.add('unsent', a, 'closed' if i else 'full', cx.get('span'))
            out += R(s2, err(('agg', SENDERR, i, (m,))))
    st.add('send', ref.method, a, m, None, cx.get('span'), msgty(eng, cx))
    return R(st, UNIT if ref.method == 'do_send' else ok(UNIT)) + out
SENDERR = 'actix::address::SendError'
@model('SendError::into_inner')
def m_senderr(eng, st, ref, args, cx):
    v = st.deep(args[0])
    return R(st, v[3][0]) if v[0] == 'agg' and v[1] == SENDERR else NotImplemented
@model('AsyncContext::address')
def m_address(eng, st, ref, args, cx): return R(st, ('addr_of', st.snap(args[0])))
@model('AsyncContext::notify')
def m_notify(eng, st, ref, args, cx):
    st.add('send', 'notify', ('addr_of', st.snap(args[0])), st.snap(args[1]), None, cx.get('span'), msgty(eng, cx)); return R(st, UNIT)
@model('AsyncContext::notify_later')
def m_notify_later(eng, st, ref, args, cx):
    st.add('notify_later', ('addr_of', st.snap(args[0])), st.snap(args[1]), st.snap(args[2]), cx.get('span')); return R(st, ('handle', eng.fresh('h')))
@model('AsyncContext::run_later')
def m_run_later(eng, st, ref, args, cx):
    st.add('run_later', st.snap(args[0]), st.snap(args[1]), st.snap(args[2]), cx.get('span')); return R(st, ('handle', eng.fresh('h')))
@model('AsyncContext::run_interval')
def m_run_interval(eng, st, ref, args, cx):
    st.add('run_interval', st.snap(args[0]), st.snap(args[1]), st.snap(args[2]), cx.get('span')); return R(st, ('handle', eng.fresh('h')))
@model('AsyncContext::spawn', 'AsyncContext::wait')
def m_ctxspawn(eng, st, ref, args, cx):
    st.add('spawn', ref.d.get('method') or ref.method, st.snap(args[0]), st.snap(args[1]), cx.get('span'))
    return R(st, ('handle', eng.fresh('h')) if ref.method == 'spawn' else UNIT)
@model('ActorFutureExt::spawn', 'ActorFutureExt::wait', 'ContextFutureSpawner::spawn', 'ContextFutureSpawner::wait')
def m_futspawn(eng, st, ref, args, cx):
    st.add('spawn', ref.d.get('method') or ref.method, st.snap(args[1]), st.snap(args[0]), cx.get('span')); return R(st, UNIT)
@model('actix_rt::spawn', 'tokio::task::spawn::spawn', 'tokio::task::local::spawn_local', 'actix_rt::arbiter::Arbiter::spawn', 'actix::spawn', 'tokio::spawn')
def m_rtspawn(eng, st, ref, args, cx):
    st.add('spawn', 'task', ('const', 'runtime'), st.snap(args[-1]), cx.get('span')); return R(st, ('handle', eng.fresh('h')))
@model('ActorContext::stop', 'ActorContext::terminate')
def m_stop(eng, st, ref, args, cx):
    st.add('stop', st.snap(args[0]), cx.get('span')); return R(st, UNIT)
@model('Actor::start', 'actix::actor::Actor::start')
def m_start(eng, st, ref, args, cx):
    eng.uid += 1
    a = ('addr', eng.uid)
    v = st.snap(args[0])
    eng.calls[eng.uid] = ('start', v)
    st.add('start', a, v, cx.get('span')); return R(st, a)

@model('ActorFutureExt::map', 'ActorFutureExt::then', 'FutureExt::map', 'FutureExt::then')
def m_afmap(eng, st, ref, args, cx):
    return R(st, ('agg', '$fut', ref.names[-1] if ref.names else ref.method, (args[0], args[1])))

@model('core::future::get_context')
def m_getctx(eng, st, ref, args, cx): return R(st, ('const', 'cx'))

@model('Future::poll')
def m_poll(eng, st, ref, args, cx):
    return bind(poll_value(eng, st, args[0], cx), lambda s, v: R(s, ready(v)))

def poll_value(eng, st, p, cx):
    fut = st.deep(p) if p[0] == 'ref' else p
    loc = st.loc(p) if p[0] == 'ref' else None
    while loc is not None:
        w = st.read(loc)
        if w[0] == 'ref': loc = (w[1], w[2])
        else: break
    if fut[0] == 'agg' and fut[1] == 'coroutine':
        key = fut[2]
        b = eng.bodies[key]
        t = eng.types[b['locals'][1][0]]
        if t['k'] == 'coroutine': a = fut
        elif loc is not None: a = ('ref', loc[0], loc[1])
        else:
            eng.uid += 1
            h = ('H', eng.uid); st.mem[h] = fut
            a = ('ref', h, ())
        args = [a, ('const', 'cx')][:b['argc']]
        if t['k'] == 'coroutine' and loc is not None: st.write(loc, ('moved',))
        outs = eng.call_key(st, key, args)
        return outs
    if fut[0] == 'agg' and fut[1] == '$fut':
        kind = fut[2]
        def c(s, v):
            l = [v]
            if 'Actor' in kind: l = [v, LATER, ('sym', 'ctx')]
            old = s.snap(s.root(('P', LATER)))
            o = eng.call_value(s, fut[3][1], l)
            def mark(s2, f2):
                # the actor's own state was changed when the future got here
                if s2.snap(s2.root(('P', LATER))) != old: s2.add('own', cx.get('span'))
                return R(s2, f2)
            if 'Actor' in kind: o = bind(o, mark)
            if kind.endswith('then'): o = bind(o, lambda s2, f2: poll_value(eng, s2, f2, cx))
            return o
        return bind(poll_value(eng, st, fut[3][0], cx), c)
    # something another party completes
    if fut[0] == 'fut' and fut[1] == 'sleep':
        st.add('await', 'sleep', fut[2], UNIT, cx.get('span'))
        return R(st, UNIT)
    if fut[0] == 'fut' and fut[1] == 'ready': return R(st, fut[2])
    if fut[0] == 'fut' and fut[1] == 'pending': return []      # never gets on
    if fut[0] == 'fut' and fut[1] == 'timeout':
        # given up in time, or not
        late = st.copy(); late.add('await', 'sleep', fut[2], UNIT, cx.get('span'))
        out = bind(poll_value(eng, st, fut[3], cx), lambda s, v: R(s, ok(v)))
        for s in eng.drop_val(late, fut[3], None):
            out += [s] if isinstance(s, tuple) else R(s, err(eng.fresh('Elapsed')))
        return out
    r = eng.fresh('await', 'await', (fut,))
    st.add('await', fut[1] if fut[0] == 'fut' else 'other', fut, r, cx.get('span'))
    if fut[0] == 'fut' and fut[1] == 'redis':
        st.add('redis', 'async', fut[2], r, cx.get('span'))
    return R(st, r)

@model('tokio::time::timeout::timeout')
def m_timeout(eng, st, ref, args, cx):
    f = st.deep(args[1])
    return R(st, ('fut', 'timeout', st.snap(args[0]), f)) if f[0] == 'fut' else NotImplemented
@model('core::future::pending::pending')
def m_fpending(eng, st, ref, args, cx): return R(st, ('fut', 'pending'))
@model('core::future::ready::ready')
def m_fready(eng, st, ref, args, cx): return R(st, ('fut', 'ready', args[0]))

@model('tokio::sync::mpsc::unbounded::UnboundedReceiver::recv', 'tokio::sync::mpsc::bounded::Receiver::recv')
def m_trecv(eng, st, ref, args, cx): return R(st, ('fut', 'recv', st.snap(args[0])))

# ------------------------------------------------------------------ redis
def flat(st, v):
    v = st.snap(v)
    if v[0] == 'agg' and v[1] in ('array', 'tuple'):
        out = []
        for x in v[3]: out += flat(st, x)
        return out
    if v[0] == 'vpush': return flat(st, v[1]) + flat(st, v[2])
    if v[0] == 'vempty': return []
    if v[0] == 'int': return [('str', str(v[1]))]
    return [v]
@model('redis::cmd::cmd')
def m_cmd(eng, st, ref, args, cx): return R(st, ('cmd', tuple(flat(st, args[0]))))
@model('redis::cmd::Cmd::new')
def m_cmdnew(eng, st, ref, args, cx): return R(st, ('cmd', ()))
@model('redis::cmd::Cmd::arg')
def m_cmdarg(eng, st, ref, args, cx):
    loc = st.loc(args[0]); c = st.read(loc)
    t = stripref(eng, argty(eng, cx, 1))
    l = flat(st, args[1])
    if t['k'] == 'uint' and l[0][0] != 'str': l = [('to_string', l[0])]
    if c[0] == 'cmd': st.write(loc, ('cmd', c[1] + tuple(l)))
    return R(st, args[0])
@model('redis::cmd::Cmd::query_async', 'redis::cmd::Cmd::exec_async')
def m_query_async(eng, st, ref, args, cx):
    return R(st, ('fut', 'redis', st.snap(args[0]), st.snap(args[1]), ('const', ' '.join(ref.d.get('args', [])))))
@model('redis::cmd::Cmd::query', 'redis::cmd::Cmd::exec')
def m_query(eng, st, ref, args, cx):
    c = st.snap(args[0])
    r = eng.fresh('query', 'redis', (c,))
    st.add('call', ref.full, (c, st.snap(args[1])), r, cx.get('span'))
    st.add('redis', 'sync', c, r, cx.get('span'))
    return R(st, r)

@model('serde_json::ser::to_string', 'serde_json::to_string')
def m_json(eng, st, ref, args, cx): return R(st, ok(('json', st.snap(args[0]))))
@model('serde_json::de::from_str', 'serde_json::from_str', 'serde_json::de::from_slice')
def m_unjson(eng, st, ref, args, cx):
    v = st.snap(args[0])
    t = tyk(eng, cx.get('dty'))
    name = eng.types[t['args'][0]]['s'] if t.get('args') else '?'
    s2 = st.copy()
    b = ('wellformed', v, name)
    st.facts.bools[b] = True; s2.facts.bools[b] = False
    return R(st, ok(('unjson', v, name))) + R(s2, err(eng.fresh('JsonError')))

# ------------------------------------------------------------------ proof of work
@model('PoWBuilder::result', 'PoWBuilder::nonce')
def m_powset(eng, st, ref, args, cx):
    loc = st.loc(args[0]); b = st.read(loc)
    if b[0] != 'pbuild': return NotImplemented
    d = dict(b[1]); d[ref.method] = st.snap(args[1])
    st.write(loc, ('pbuild', tuple(sorted(d.items()))))
    return R(st, args[0])
@model('PoWBuilder::build')
def m_powbuild(eng, st, ref, args, cx):
    b = st.load(args[0])
    if b[0] != 'pbuild': return NotImplemented
    d = dict(b[1])
    if set(d) >= {'result', 'nonce'}: return R(st, ok(('pow', d['result'], d['nonce'])))
    return R(st, err(eng.fresh('Uninitialized')))
@model('mcaptcha_pow_sha256::Config::is_sufficient_difficulty', 'mcaptcha_pow_sha256::Config::is_valid_proof')
def m_powcheck(eng, st, ref, args, cx):
    a = tuple(st.snap(x) for x in args)
    st.add('check', ref.method, a, cx.get('span'))
    if ref.method == 'is_sufficient_difficulty' and len(a) > 2:
        # the difficulty is divided by
        know(st, a[2], 'u32')
        return [eng.panic(s, 'division by a difficulty of zero', cx.get('span')) if z else (s, 'ret', (ref.method,) + a) for s, z in eng.split(st, ieq(a[2], I(0)))]
    return R(st, (ref.method,) + a)

# ------------------------------------------------------------------ randomness
@model('rand::rng::Rng::sample', 'RngExt::sample')
def m_sample(eng, st, ref, args, cx):
    a = tuple(st.snap(x) for x in args)
    r = eng.fresh('sample', 'rand::rng::Rng::sample', a)
    st.add('call', 'rand::rng::Rng::sample', a, r, cx.get('span'))
    return R(st, r)

@model('core::num::nonzero::NonZero::new')
def m_nonzero(eng, st, ref, args, cx):
    x = st.deep(args[0]); know(st, x, 'usize')
    return [(s, 'ret', none if z else some(('agg', 'core::num::nonzero::NonZero', 0, (x,)))) for s, z in eng.split(st, ieq(x, I(0)))]
@model('core::num::nonzero::NonZero::get')
def m_nonzeroget(eng, st, ref, args, cx):
    v = st.snap(args[0])
    return R(st, v[3][0]) if v[0] == 'agg' and v[1].endswith('NonZero') else NotImplemented

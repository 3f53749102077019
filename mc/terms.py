"""Value terms (immutable tuples) and the fact domain of the abstract interpreter.

Terms
  ('int', n) ('bool', b) ('str', s) ('bytes', t)       constants
  ('sym', name)                                        unknown input
  ('phi', loop, loc)                                   value at the head of an arbitrary iteration
  ('fld', base, variant|None, idx)                     component of an unknown value
  ('agg', tag, variant, fields)                        constructed value
  ('ref', root, projs)                                 pointer to a tracked location
  ('fn', i)                                            function item (index into Engine.fnrefs)
  ('add', t, n)                                        integer term plus constant
  ('call', fn, args, uid)                              result of a call that is not analysed further
  everything else: ('<op>', ...)                       pure operation
References to untracked values are transparent: the pointer and its pointee are one term.
"""

UNIT = ('agg', 'tuple', 0, ())
EMPTY = ('empty',)
ZERO = None

def I(n): return ('int', n)
def Bc(b): return ('bool', b)

def add(t, n):
    if n == 0: return t
    if t[0] == 'int': return ('int', t[1] + n)
    if t[0] == 'add': return add(t[1], t[2] + n)
    return ('add', t, n)

def lin(t):
    """integer term -> (base or None, constant)"""
    if t[0] == 'int': return (None, t[1])
    if t[0] == 'add': return (t[1], t[2])
    return (t, 0)

def le(a, b, c=0):
    """canonical boolean for a - b <= c"""
    (x, n), (y, m) = lin(a), lin(b)
    c = c + m - n
    if x == y: return Bc(0 <= c)
    if x is None and y is None: return Bc(0 <= c)
    r = apart(x, y)
    if r: return le(*r, c)
    return ('le', x, y, c)

def apart(x, y):
    """x - y where one of them is a difference, as two terms with the same difference"""
    if x is not None and x[0] == 'sub' and y in (None, x[1]): return (x[1], x[2]) if y is None else (('int', 0), x[2])
    if y is not None and y[0] == 'sub' and x in (None, y[1]): return (y[2], y[1]) if x is None else (y[2], ('int', 0))
    return None

def lt(a, b): return le(a, b, -1)

def ieq(a, b):
    (x, n), (y, m) = lin(a), lin(b)
    if x == y: return Bc(n == m)
    c = m - n
    r = apart(x, y)
    if r: return ieq(r[0], add(r[1], c))
    # x - y == c, ordered canonically
    if x is None or (y is not None and repr(y) < repr(x)):
        x, y, c = y, x, -c
    return ('ieq', x, y, c)

CONSTS = ('int', 'bool', 'str', 'bytes')

def eq(a, b):
    if a == b: return Bc(True)
    if a[0] in CONSTS and b[0] in CONSTS: return Bc(a == b)
    if a[0] == 'int' or b[0] == 'int' or a[0] == 'add' or b[0] == 'add': return ieq(a, b)
    if a[0] == 'bool': return b if a[1] else neg(b)
    if b[0] == 'bool': return a if b[1] else neg(a)
    if repr(b) < repr(a): a, b = b, a
    return ('eq', a, b)

def neg(b):
    if b[0] == 'bool': return Bc(not b[1])
    if b[0] == 'not': return b[1]
    if b[0] == 'le':  # not (x-y<=c)  ==  y-x <= -c-1
        return ('le', b[2], b[1], -b[3] - 1)
    return ('not', b)

def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple): yield from subterms(x)

def contains(t, x):
    if t == x: return True
    if isinstance(t, tuple):
        for y in t:
            if isinstance(y, tuple) and contains(y, x): return True
    return False

def is_term(t):
    return isinstance(t, tuple) and len(t) > 0 and isinstance(t[0], str)

UMAX = {'u8': 2**8-1, 'u16': 2**16-1, 'u32': 2**32-1, 'u64': 2**64-1, 'usize': 2**64-1, 'u128': 2**128-1}
IMAX = {'i8': 2**7-1, 'i16': 2**15-1, 'i32': 2**31-1, 'i64': 2**63-1, 'isize': 2**63-1, 'i128': 2**127-1}

class Facts:
    """What is known on a path: variants of enums, booleans, differences of integers."""
    __slots__ = ('var', 'nvar', 'bools', 'le', 'ne', 'bot', '_own')
    def __init__(self):
        self.var = {}; self.nvar = {}; self.bools = {}; self.le = {}; self.ne = set(); self.bot = False
    def copy(self):
        f = Facts.__new__(Facts)
        f.var = dict(self.var); f.nvar = dict(self.nvar); f.bools = dict(self.bools)
        f.le = dict(self.le); f.ne = set(self.ne); f.bot = self.bot
        return f
    # --- integers: le[(x,y)] = c means x - y <= c
    def dist(self, x, y):
        """smallest known c with x - y <= c, or None"""
        if x == y: return 0
        # Bellman-Ford from y over edges y' -> x' of weight c
        d = {y: 0}
        edges = list(self.le.items())
        for _ in range(len(edges) + 1):
            ch = False
            for (a, b), c in edges:
                if b in d and (a not in d or d[b] + c < d[a]):
                    d[a] = d[b] + c; ch = True
            if not ch: break
        return d.get(x)
    def know(self, t, ty=None):
        if t is None: return
        if ty in UMAX or t[0] in ('len',):
            if (None, t) not in self.le: self.le[(None, t)] = 0
            if t[0] == 'len':
                # no collection is larger than isize::MAX bytes
                if (t, None) not in self.le: self.le[(t, None)] = 2**63 - 1
            elif ty in UMAX and (t, None) not in self.le: self.le[(t, None)] = UMAX[ty]
    def add_le(self, x, y, c):
        d = self.dist(y, x)
        if d is not None and d + c < 0:
            self.bot = True; return
        o = self.le.get((x, y))
        if o is None or c < o: self.le[(x, y)] = c
        self._tighten()
    def _tighten(self):
        ch = True
        while ch and not self.bot:
            ch = False
            for (x, y, c) in list(self.ne):
                d = self.dist(x, y)
                if d is not None and d == c:
                    e = self.dist(y, x)
                    if e is not None and e == -c: self.bot = True; return
                    self.le[(x, y)] = c - 1; ch = True
                d = self.dist(y, x)
                if d is not None and d == -c:
                    self.le[(y, x)] = -c - 1; ch = True
    def ev(self, b, eng=None):
        """truth value of a boolean term or None"""
        k = b[0]
        if k == 'bool': return b[1]
        if k == 'not':
            v = self.ev(b[1], eng)
            return None if v is None else not v
        if k == 'le':
            d = self.dist(b[1], b[2])
            if d is not None and d <= b[3]: return True
            d = self.dist(b[2], b[1])
            if d is not None and d < -b[3]: return False
            return None
        if k == 'ieq':
            d1 = self.dist(b[1], b[2]); d2 = self.dist(b[2], b[1])
            if d1 is not None and d1 < b[3]: return False
            if d2 is not None and d2 < -b[3]: return False
            if d1 == b[3] and d2 == -b[3]: return True
            if (b[1], b[2], b[3]) in self.ne or (b[2], b[1], -b[3]) in self.ne: return False
            return None
        if b in self.bools: return self.bools[b]
        if k in ('and', 'or'):
            x, y = self.ev(b[1], eng), self.ev(b[2], eng)
            if k == 'and': return False if False in (x, y) else True if x and y else None
            return True if True in (x, y) else False if x is False and y is False else None
        return None
    def assume(self, b, v):
        """add b == v; returns False when contradictory"""
        k = b[0]
        if k == 'bool':
            if b[1] != v: self.bot = True
            return not self.bot
        if k == 'not': return self.assume(b[1], not v)
        if k == 'le':
            if v: self.add_le(b[1], b[2], b[3])
            else: self.add_le(b[2], b[1], -b[3] - 1)
            return not self.bot
        if k == 'ieq':
            if v:
                self.add_le(b[1], b[2], b[3])
                if not self.bot: self.add_le(b[2], b[1], -b[3])
            else:
                if self.ev(b) is True: self.bot = True
                else:
                    self.ne.add((b[1], b[2], b[3])); self._tighten()
            return not self.bot
        if k == 'and' and v:
            return self.assume(b[1], True) and self.assume(b[2], True)
        if k == 'or' and not v:
            return self.assume(b[1], False) and self.assume(b[2], False)
        o = self.ev(b)
        if o is not None and o != v: self.bot = True
        self.bools[b] = v
        return not self.bot

def show(t, depth=0):
    """short printable form of a term"""
    if not isinstance(t, tuple): return str(t)
    if t == (): return '()'
    if depth > 9: return '..'
    k = t[0]
    d = depth + 1
    if k == 'int' or k == 'bool': return str(t[1])
    if k == 'str': return '"%s"' % t[1]
    if k == 'sym': return str(t[1])
    if k == 'phi': return 'phi%s[%s]' % (t[1], show(t[2], d) if isinstance(t[2], tuple) else t[2])
    if k == 'fld': return '%s%s.%s' % (show(t[1], d), '' if t[2] is None else '@%s' % t[2], t[3])
    if k == 'agg':
        tag = t[1].split('::')[-1] if isinstance(t[1], str) else str(t[1])
        return '%s%s(%s)' % (tag, '' if t[2] == 0 else '@%s' % t[2], ', '.join(show(x, d) for x in t[3]))
    if k == 'add': return '%s%+d' % (show(t[1], d), t[2])
    if k == 'call': return '%s#%s(%s)' % (t[1].split('::')[-1], t[3], ', '.join(show(x, d) for x in t[2]))
    if k == 'ref': return '&%s%s' % (show(t[1], d), ''.join('.' + (show(p, d) if isinstance(p, tuple) else str(p)) for p in t[2]))
    if k == 'L': return '_%s.%s' % (t[1], t[2])
    if k == 'P': return '*' + show(t[1], d)
    if k == 'f': return str(t[1]) if t[2] is None else '%s@%s' % (t[1], t[2])
    return '%s(%s)' % (k, ', '.join(show(x, d) for x in t[1:]))

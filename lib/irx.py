"""Symbolic executor for the LLVM IR that clang makes of the harness and the library sources.

    python3-vt irx.py MODULE.ll OUT.json [--timeout S] [--max-paths N]

Every function of the module is translated to Python.  Values are Python integers while they are concrete and z3
bit-vectors once they depend on an input; a branch on a symbolic condition asks z3 for both sides and forks the process
when both are possible, so every feasible path is followed.  `vp_fail` reached on a feasible path, or an access outside
an object, is a counterexample; its inputs are the model's values.  All paths finished = holds for all input values.
"""
import json, os, re, sys, time
import z3

sys.setrecursionlimit(20000)
M = {n: (1 << n) - 1 for n in range(1, 257)}
M64 = M[64]
OBJ = 40
OFF = (1 << OBJ) - 1


class Unsupported(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, extra=()):
        self.what, self.extra = what, list(extra)


class Stop(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'el', 'packed')

    def __init__(self, k, n=0, el=None, packed=False):
        self.k, self.n, self.el, self.packed = k, n, el, packed


NAMED = {}


def align(t):
    if t.k == 'i':
        s = size(t)
        return s if s in (1, 2, 4, 8) else 8
    if t.k == 'p':
        return 8
    if t.k == 'a':
        return align(t.el)
    if t.k == 's':
        return 1 if t.packed else max([align(e) for e in t.el] or [1])
    if t.k == 'n':
        return align(NAMED[t.n])
    raise Unsupported('align ' + t.k)


def size(t):
    if t.k == 'i':
        b = (t.n + 7) // 8
        p = 1
        while p < b:
            p *= 2
        return p
    if t.k == 'p':
        return 8
    if t.k == 'a':
        return t.n * size(t.el)
    if t.k == 's':
        o = 0
        for e in t.el:
            a = 1 if t.packed else align(e)
            o = (o + a - 1) // a * a + size(e)
        a = align(t)
        return (o + a - 1) // a * a
    if t.k == 'n':
        return size(NAMED[t.n])
    raise Unsupported('size ' + t.k)


def field(t, i):
    if t.k == 'n':
        t = NAMED[t.n]
    o = 0
    for j, e in enumerate(t.el):
        a = 1 if t.packed else align(e)
        o = (o + a - 1) // a * a
        if j == i:
            return o, e
        o += size(e)


TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|[@%]"[^"]*"|[@%][\w.$-]+|"[^"]*"|-?\d+\.\d+e[+-]?\d+|-?\w[\w.]*|\.\.\.|[\[\]{}()<>,*=!]|#\d+|.)')


def lex(s):
    return [t for t in TOK.findall(s) if t.strip()]


class P:
    """token stream"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported('expected %s at %s' % (x, ' '.join(self.t[self.i:self.i + 8])))

    def type(self):
        x = self.next()
        if re.fullmatch(r'i\d+', x):
            t = Ty('i', int(x[1:]))
        elif x == 'ptr':
            t = Ty('p')
        elif x == 'void':
            t = Ty('v')
        elif x == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            t = Ty('a', n, e)
        elif x == '{' or (x == '<' and self.peek() == '{'):
            pk = x == '<'
            if pk:
                self.next()
            els = []
            while not self.eat('}'):
                els.append(self.type())
                self.eat(',')
            if pk:
                self.need('>')
            t = Ty('s', 0, els, pk)
        elif x.startswith('%'):
            t = Ty('n', x)
        elif x == 'float' or x == 'double':
            raise Unsupported('floating point')
        elif x == '<':
            raise Unsupported('vector type')
        else:
            raise Unsupported('type ' + x)
        return t


ATTRS = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'readnone', 'noalias', 'returned', 'immarg', 'nofree',
         'inreg', 'nest', 'noreturn', 'writable', 'dead_on_unwind'}


def skip_attrs(p):
    while True:
        x = p.peek()
        if x in ATTRS:
            p.next()
        elif x in ('align',):
            p.next()
            if p.eat('('):
                p.next()
                p.need(')')
            else:
                p.next()
        elif x in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'range', 'memory', 'captures'):
            p.next()
            p.need('(')
            d = 1
            while d:
                y = p.next()
                d += (y == '(') - (y == ')')
        else:
            return


# ---------------------------------------------------------------- machine state
class Obj:
    __slots__ = ('size', 'data', 'sym', 'init', 'name', 'const')

    def __init__(self, n, name, init=False, const=False):
        self.size, self.name, self.const = n, name, const
        self.data = bytearray(n)
        self.sym = {}
        self.init = None if init else bytearray(n)


OBJS = {}
NEXT = [1]
FUNC_AT = {}
GADDR = {}
PC = []
STAT = {'queries': 0, 'solver_s': 0.0, 'branches': 0, 'steps': 0}
INPUTS = []
OUTS = []
SOLVER = [None]
LIMIT = {}
FRESH = [0]


def new_obj(n, name, init=False, const=False):
    i = NEXT[0]
    NEXT[0] += 1
    OBJS[i] = Obj(n, name, init, const)
    return i << OBJ


def solver():
    if SOLVER[0] is None:
        s = z3.SolverFor('QF_BV')
        s.set('timeout', int(LIMIT['query_s'] * 1000))
        for c in PC:
            s.add(c)
        SOLVER[0] = s
    return SOLVER[0]


def check(c):
    """is the condition possible on this path?"""
    if time.time() > LIMIT['end']:
        raise Stop('time')
    s = solver()
    t = time.time()
    r = s.check(c)
    STAT['queries'] += 1
    STAT['solver_s'] += time.time() - t
    if r == z3.unknown:
        raise Stop('solver: ' + s.reason_unknown())
    return r == z3.sat


def constrain(c):
    PC.append(c)
    solver().add(c)


def model():
    s = solver()
    if s.check() != z3.sat:
        raise Stop('no model')
    return s.model()


def decide(c):
    """branch on a symbolic condition"""
    if c is True or c is False:
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    STAT['branches'] += 1
    if not check(c):
        constrain(z3.Not(c))
        return False
    if not check(z3.Not(c)):
        constrain(c)
        return True
    if fork():
        constrain(c)
        return True
    constrain(z3.Not(c))
    return False


def fork():
    """True in the child; the parent waits for the child's part of the tree and goes on"""
    pid = os.fork()
    if pid == 0:
        STAT.update(queries=0, solver_s=0.0, branches=0, steps=0)
        CHILD[0] = True
        return True
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st) or os.WEXITSTATUS(st) not in (0, 10):
        raise Stop('child %r' % st)
    if os.WEXITSTATUS(st) == 10:
        # a path of the child ended the search (counterexample, or gave up)
        finish({'end': 'child'}, 10)
    return False


CHILD = [False]


def report(rec):
    rec['stat'] = STAT
    with open(LIMIT['out'] + '.paths', 'a') as h:
        h.write(json.dumps(rec) + '\n')


def finish(rec, code):
    report(rec)
    sys.stdout.flush()
    os._exit(code)


# ---------------------------------------------------------------- symbolic operations
def bv(x, w):
    return z3.BitVecVal(x, w) if x.__class__ is int else x


def width(a, b):
    return a.size() if a.__class__ is not int else b.size()


def is_int(a):
    return a.__class__ is int


def boolx(c):
    return z3.BoolVal(c) if c.__class__ is bool else c


def tobv1(c):
    return z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))


def ult(a, b):
    w = width(a, b)
    return z3.ULT(bv(a, w), bv(b, w))


def ule(a, b):
    w = width(a, b)
    return z3.ULE(bv(a, w), bv(b, w))


def slt(a, b):
    w = width(a, b)
    return bv(a, w) < bv(b, w)


def sle(a, b):
    w = width(a, b)
    return bv(a, w) <= bv(b, w)


def select(c, a, b, w):
    if c.__class__ is bool:
        return a if c else b
    if w == 1:
        return z3.If(c, boolx(a), boolx(b))
    if w < 0:
        return a if decide(c) else b
    if a.__class__ is int and b.__class__ is int and a == b:
        return a
    return z3.If(c, bv(a, w), bv(b, w))


def sgn(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def shl(a, b, w):
    if is_int(a) and is_int(b):
        return (a << b) & M[w] if b < w else 0
    return bv(a, w) << bv(b, w)


def lshr(a, b, w):
    if is_int(a) and is_int(b):
        return a >> b if b < w else 0
    return z3.LShR(bv(a, w), bv(b, w))


def ashr(a, b, w):
    if is_int(a) and is_int(b):
        return (sgn(a, w) >> min(b, w - 1)) & M[w]
    return bv(a, w) >> bv(b, w)


def div(op, a, b, w):
    z = b == 0
    if z is True or (z is not False and decide(z)):
        raise Violation('division by zero')
    if is_int(a) and is_int(b):
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == 'sdiv' else x - q * y) & M[w]
    x, y = bv(a, w), bv(b, w)
    return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda p, q: p / q, 'srem': z3.SRem}[op](x, y)


def zext(a, f, t):
    if f == 1:
        return int(a) if a.__class__ is bool else z3.If(a, z3.BitVecVal(1, t), z3.BitVecVal(0, t))
    return a if is_int(a) else z3.ZeroExt(t - f, a)


def sext(a, f, t):
    if f == 1:
        return (M[t] if a else 0) if a.__class__ is bool else z3.If(a, z3.BitVecVal(M[t], t), z3.BitVecVal(0, t))
    return sgn(a, f) & M[t] if is_int(a) else z3.SignExt(t - f, a)


def trunc(a, f, t):
    if t == 1:
        return (a & 1) == 1
    return a & M[t] if is_int(a) else z3.simplify(z3.Extract(t - 1, 0, a))


def bitop1(op, a, b):
    if a.__class__ is bool and b.__class__ is bool:
        return {'and': a and b, 'or': a or b, 'xor': a != b, 'add': a != b, 'sub': a != b, 'mul': a and b}[op]
    a, b = boolx(a), boolx(b)
    return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor, 'mul': z3.And}[op](a, b)


def icmp1(op, a, b):
    if a.__class__ is bool and b.__class__ is bool:
        return a == b if op == 'eq' else a != b
    r = boolx(a) == boolx(b)
    return r if op == 'eq' else z3.Not(r)


def concrete(x, w=64):
    """a value for a symbolic length or address: one path per value"""
    if is_int(x):
        return x
    while True:
        if not check(z3.BoolVal(True)):
            raise Stop('infeasible')
        v = solver().model().eval(x, model_completion=True).as_long()
        if decide(x == v):
            return v


# ---------------------------------------------------------------- memory
def bad(p, n, how):
    o = OBJS.get(p >> OBJ)
    raise Violation('%s of %d byte(s) outside an object (%s offset %d of %d)' % (how, n, o.name if o else '?', p & OFF, o.size if o else 0))


def fresh_byte(o, off):
    FRESH[0] += 1
    v = z3.BitVec('uninit%d' % FRESH[0], 8)
    o.sym[off] = v
    o.init[off] = 1
    return v


def byte(o, off):
    if o.init is not None and not o.init[off]:
        return fresh_byte(o, off)
    s = o.sym.get(off) if o.sym else None
    return o.data[off] if s is None else s


def ld1(p):
    if p.__class__ is int:
        o = OBJS.get(p >> OBJ)
        off = p & OFF
        if o is None or off >= o.size:
            bad(p, 1, 'read')
        if o.init is not None and not o.init[off]:
            return fresh_byte(o, off)
        if o.sym:
            s = o.sym.get(off)
            if s is not None:
                return s
        return o.data[off]
    return ldsym(p, 1)


def ldn(p, n):
    if p.__class__ is int:
        o = OBJS.get(p >> OBJ)
        off = p & OFF
        if o is None or off + n > o.size:
            bad(p, n, 'read')
        if not o.sym and (o.init is None or o.init.find(0, off, off + n) < 0):
            return int.from_bytes(o.data[off:off + n], 'little')
        return cat([byte(o, off + i) for i in range(n)])
    return ldsym(p, n)


def cat(bs):
    if all(b.__class__ is int for b in bs):
        return int.from_bytes(bytes(bs), 'little')
    if len(bs) == 1:
        return bs[0]
    # a value stored whole and loaded whole comes back as itself
    return z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))


MUX = {}


def resolve(p, n, how):
    """object of a symbolic address, one path per object; proves that the access stays inside"""
    while True:
        if not check(z3.BoolVal(True)):
            raise Stop('infeasible')
        v = solver().model().eval(p, model_completion=True).as_long()
        o = OBJS.get(v >> OBJ)
        base = v >> OBJ << OBJ
        if o is None or o.size < n or (v & OFF) + n > o.size:
            constrain(p == v)
            bad(v, n, how)
        inside = z3.And(z3.UGE(p, base), z3.ULE(p, base + o.size - n))
        if decide(inside):
            return o, base


def ldsym(p, n):
    p = z3.simplify(p)
    if z3.is_bv_value(p):
        return ldn(p.as_long(), n)
    o, base = resolve(p, n, 'read')
    off = z3.simplify(p - base)
    if o.size > 65536:
        v = concrete(off)
        return ldn(base + v, n)
    step = 1
    if n > 1 and not check(z3.URem(off, z3.BitVecVal(n, 64)) != 0):
        step = n
    cnt = (o.size - n) // step + 1
    leaves = [ldn(base + i * step, n) for i in range(cnt)]
    idx = z3.simplify(z3.UDiv(off, z3.BitVecVal(step, 64)) if step > 1 else off)
    bits = max(1, (cnt - 1).bit_length())
    if step & (step - 1) == 0:
        sh = step.bit_length() - 1
        sel = [z3.simplify(z3.Extract(b + sh, b + sh, off)) == 1 for b in range(bits)]
    else:
        sel = [z3.simplify(z3.Extract(b, b, idx)) == 1 for b in range(bits)]
    while len(leaves) < 1 << bits:
        leaves.append(leaves[-1])
    for b in range(bits):
        nxt = []
        for i in range(0, len(leaves), 2):
            x, y = leaves[i], leaves[i + 1]
            nxt.append(x if x is y or (is_int(x) and is_int(y) and x == y) else z3.If(sel[b], bv(y, 8 * n), bv(x, 8 * n)))
        leaves = nxt
    return leaves[0]


def st1(p, v):
    if p.__class__ is not int:
        p = stsym(p, 1)
    o = OBJS.get(p >> OBJ)
    off = p & OFF
    if o is None or off >= o.size:
        bad(p, 1, 'write')
    if o.const:
        raise Violation('write to a constant object %s' % o.name)
    if o.init is not None:
        o.init[off] = 1
    if v.__class__ is int:
        o.data[off] = v
        if o.sym:
            o.sym.pop(off, None)
    else:
        o.sym[off] = v


def stn(p, v, n):
    if p.__class__ is not int:
        p = stsym(p, n)
    o = OBJS.get(p >> OBJ)
    off = p & OFF
    if o is None or off + n > o.size:
        bad(p, n, 'write')
    if o.const:
        raise Violation('write to a constant object %s' % o.name)
    if o.init is not None:
        for i in range(off, off + n):
            o.init[i] = 1
    if v.__class__ is int:
        o.data[off:off + n] = v.to_bytes(n, 'little')
        if o.sym:
            for i in range(off, off + n):
                o.sym.pop(i, None)
    else:
        for i in range(n):
            b = z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))
            if z3.is_bv_value(b):
                o.data[off + i] = b.as_long()
                o.sym.pop(off + i, None)
            else:
                o.sym[off + i] = b


def stsym(p, n):
    p = z3.simplify(p)
    if z3.is_bv_value(p):
        return p.as_long()
    resolve(p, n, 'write')
    return concrete(p)


def memcpy(d, s, n):
    n = concrete(n)
    if n == 0:
        return
    d, s = concrete(d), concrete(s)
    a, b = OBJS.get(d >> OBJ), OBJS.get(s >> OBJ)
    x, y = d & OFF, s & OFF
    if b is None or y + n > b.size:
        bad(s, n, 'read')
    if a is None or x + n > a.size:
        bad(d, n, 'write')
    if a.const:
        raise Violation('write to a constant object %s' % a.name)
    if not a.sym and not b.sym and b.init is None:
        a.data[x:x + n] = b.data[y:y + n]
        if a.init is not None:
            a.init[x:x + n] = b'\1' * n
        return
    sy = {i - y: b.sym[i] for i in (range(y, y + n) if n < len(b.sym) else list(b.sym)) if i in b.sym and y <= i < y + n}
    ini = b.init[y:y + n] if b.init is not None else None
    a.data[x:x + n] = b.data[y:y + n]
    for i in ([j for j in a.sym if x <= j < x + n]):
        del a.sym[i]
    for i, v in sy.items():
        a.sym[x + i] = v
    if a.init is not None:
        a.init[x:x + n] = ini if ini is not None else b'\1' * n
    elif ini is not None and ini.find(0) >= 0:
        a.init = bytearray(b'\1' * a.size)
        a.init[x:x + n] = ini


def memset(d, v, n):
    n = concrete(n)
    if n == 0:
        return
    d = concrete(d)
    a = OBJS.get(d >> OBJ)
    x = d & OFF
    if a is None or x + n > a.size:
        bad(d, n, 'write')
    if a.const:
        raise Violation('write to a constant object %s' % a.name)
    if v.__class__ is int:
        a.data[x:x + n] = bytes([v]) * n
        for i in [j for j in a.sym if x <= j < x + n]:
            del a.sym[i]
    else:
        for i in range(x, x + n):
            a.sym[i] = v
    if a.init is not None:
        a.init[x:x + n] = b'\1' * n


def f_strlen(p):
    p = concrete(p)
    o = OBJS.get(p >> OBJ)
    x = p & OFF
    if o is None or x >= o.size:
        bad(p, 1, 'read')
    if not o.sym and o.init is None:
        e = o.data.find(0, x)
        if e < 0:
            bad((p - x) + o.size, 1, 'read')
        return e - x
    n = 0
    while True:
        if n & 0x3f == 0 and x + n < o.size and o.init is None:
            # skip a stretch of concrete bytes
            e = o.data.find(0, x + n)
            nxt = min([s for s in o.sym if s >= x + n], default=o.size)
            stop = min(e if e >= 0 else o.size, nxt)
            n = stop - x if stop > x + n else n
        z = ld1(p + n) == 0
        if z is True or (z is not False and decide(z)):
            return n
        n += 1


def cmpbytes(p, q, n, stop_at_nul, w=32):
    i = 0
    p, q = concrete(p), concrete(q)
    if not stop_at_nul and n:
        a, b = OBJS.get(p >> OBJ), OBJS.get(q >> OBJ)
        if a is not None and b is not None and not a.sym and not b.sym and a.init is None and b.init is None:
            x, y = p & OFF, q & OFF
            if x + n > a.size:
                bad(p, n, 'read')
            if y + n > b.size:
                bad(q, n, 'read')
            u, v = a.data[x:x + n], b.data[y:y + n]
            return 0 if u == v else (1 if u > v else M[32])
    while n is None or i < n:
        a, b = ld1(p + i), ld1(q + i)
        e = a == b
        if not (e is True or (e is not False and decide(e))):
            if is_int(a) and is_int(b):
                return (a - b) & M[32]
            return z3.ZeroExt(24, bv(a, 8)) - z3.ZeroExt(24, bv(b, 8))
        if stop_at_nul:
            z = a == 0
            if z is True or (z is not False and decide(z)):
                return 0
        i += 1
    return 0


def f_memcmp(p, q, n):
    return cmpbytes(p, q, concrete(n), False)


f_bcmp = f_memcmp


def f_strcmp(p, q):
    return cmpbytes(p, q, None, True)


def f_strncmp(p, q, n):
    return cmpbytes(p, q, concrete(n), True)


def f_strcpy(d, s):
    memcpy(d, s, f_strlen(s) + 1)
    return d


def f_stpcpy(d, s):
    n = f_strlen(s)
    memcpy(d, s, n + 1)
    return d + n


def f_strcat(d, s):
    memcpy(d + f_strlen(d), s, f_strlen(s) + 1)
    return d


def f_strncpy(d, s, n):
    n = concrete(n)
    i = 0
    while i < n:
        v = ld1(s + i)
        st1(d + i, v)
        i += 1
        z = v == 0
        if z is True or (z is not False and decide(z)):
            break
    while i < n:
        st1(d + i, 0)
        i += 1
    return d


def f_memcpy(d, s, n):
    memcpy(d, s, n)
    return d


f_memmove = f_memcpy


def f_memset(d, v, n):
    memset(d, trunc(v, 32, 8), n)
    return d


def f_memchr(p, c, n):
    n = concrete(n)
    c = trunc(c, 32, 8)
    for i in range(n):
        z = ld1(p + i) == c
        if z is True or (z is not False and decide(z)):
            return p + i
    return 0


def f_strchr(p, c):
    c = trunc(c, 32, 8)
    i = 0
    while True:
        v = ld1(p + i)
        z = v == c
        if z is True or (z is not False and decide(z)):
            return p + i
        z = v == 0
        if z is True or (z is not False and decide(z)):
            return 0
        i += 1


def f_malloc(n):
    return new_obj(concrete(n), 'heap', init=False)


def f_calloc(a, b):
    return new_obj(concrete(a) * concrete(b), 'heap', init=True)


def f_free(p):
    p = concrete(p)
    if p:
        if p & OFF or (p >> OBJ) not in OBJS:
            raise Violation('free of an invalid pointer')
        del OBJS[p >> OBJ]


def f_abort():
    raise Violation('abort')


def f_vp_next(name):
    v = z3.BitVec('in%d' % len(INPUTS), 64)
    INPUTS.append(v)
    return v


def f_vp_concrete(v):
    return concrete(v)


def cstr(p):
    o = OBJS[p >> OBJ]
    x = p & OFF
    return bytes(o.data[x:o.data.find(0, x)]).decode('utf8', 'replace')


def f_vp_fail(msg, file, line):
    raise Violation('VP: ' + cstr(msg))


class Infeasible(Exception):
    pass


def f_vp_infeasible(msg):
    raise Infeasible()


def f_vp_out(v):
    OUTS.append(v)


# intrinsics
def minmax(op, a, b, w):
    if is_int(a) and is_int(b):
        if op[0] == 's':
            x, y = sgn(a, w), sgn(b, w)
            return (min(x, y) if op == 'smin' else max(x, y)) & M[w]
        return min(a, b) if op == 'umin' else max(a, b)
    x, y = bv(a, w), bv(b, w)
    c = {'umin': z3.ULT(x, y), 'umax': z3.UGT(x, y), 'smin': x < y, 'smax': x > y}[op]
    return z3.If(c, x, y)


def fsh(op, a, b, c, w):
    if is_int(c):
        s = c % w
        if op == 'fshr':
            s = (w - s) % w
            if c % w == 0:
                return b
        if is_int(a) and is_int(b):
            return ((a << s) | (b >> (w - s))) & M[w] if s else a
        if not s:
            return a
        return (bv(a, w) << s) | z3.LShR(bv(b, w), w - s)
    a, b = bv(a, w), bv(b, w)
    s = z3.URem(c, z3.BitVecVal(w, w))
    if op == 'fshl':
        return z3.If(s == 0, a, (a << s) | z3.LShR(b, w - s))
    return z3.If(s == 0, b, (a << (w - s)) | z3.LShR(b, s))


def bitreverse(a, w):
    if is_int(a):
        return int(format(a, '0%db' % w)[::-1], 2)
    return z3.Concat(*[z3.Extract(i, i, a) for i in range(w)])


def bswap(a, w):
    if is_int(a):
        return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)])


def ctpop(a, w):
    if is_int(a):
        return bin(a).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
    return r


def cttz(op, a, w):
    if is_int(a):
        if a == 0:
            return w
        return (a & -a).bit_length() - 1 if op == 'cttz' else w - a.bit_length()
    r = z3.BitVecVal(w, w)
    for i in (range(w - 1, -1, -1) if op == 'cttz' else range(w)):
        r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i if op == 'cttz' else w - 1 - i, w), r)
    return r


def iabs(a, w):
    if is_int(a):
        return abs(sgn(a, w)) & M[w]
    return z3.If(a < 0, -a, a)


def sat(op, a, b, w):
    if is_int(a) and is_int(b):
        if op == 'usub':
            return max(a - b, 0)
        if op == 'uadd':
            return min(a + b, M[w])
        r = sgn(a, w) + sgn(b, w) if op == 'sadd' else sgn(a, w) - sgn(b, w)
        return max(min(r, M[w] >> 1), -(1 << (w - 1))) & M[w]
    x, y = bv(a, w), bv(b, w)
    if op == 'usub':
        return z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y)
    if op == 'uadd':
        return z3.If(z3.ULT(x + y, x), z3.BitVecVal(M[w], w), x + y)
    raise Unsupported('saturating ' + op)


def ovf(op, a, b, w):
    if is_int(a) and is_int(b):
        u = op[0] == 'u'
        x, y = (a, b) if u else (sgn(a, w), sgn(b, w))
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op[1:]]
        return r & M[w], (not 0 <= r <= M[w]) if u else not -(1 << (w - 1)) <= r < (1 << (w - 1))
    ext = z3.ZeroExt if op[0] == 'u' else z3.SignExt
    x, y = ext(w, bv(a, w)), ext(w, bv(b, w))
    r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op[1:]]
    lo = z3.Extract(w - 1, 0, r)
    return lo, ext(w, lo) != r


def insertvalue(agg, v, i):
    a = list(agg)
    a[i] = v
    return tuple(a)


def call_ptr(p, args):
    p = concrete(p)
    f = FUNC_AT.get(p)
    if f is None:
        raise Violation('call through an invalid function pointer')
    return f(*args)


def tick():
    STAT['steps'] += 1024
    if time.time() > LIMIT['end']:
        raise Stop('time')


# ---------------------------------------------------------------- translation
class Module:
    def __init__(self, text):
        self.text = text
        self.globals = []
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith('%') and ' = type ' in l:
                n, t = l.split(' = type ', 1)
                if t.strip() != 'opaque':
                    NAMED[n.strip()] = P(lex(t)).type()
            elif l.startswith('@'):
                self.globals.append(l)
            elif l.startswith('declare'):
                self.decls.add(re.search(r'@([\w.$]+|"[^"]*")\(', l).group(1))
            elif l.startswith('define'):
                j = i
                while lines[j] != '}':
                    j += 1
                self.function(l, lines[i + 1:j])
                i = j
            i += 1

    # ---- constants
    def const(self, p, t):
        """constant as python expression source"""
        x = p.next()
        if x in ('undef', 'poison', 'zeroinitializer', 'null', 'none'):
            if t.k in ('s', 'n'):
                tt = NAMED[t.n] if t.k == 'n' else t
                return '(' + ''.join('0,' for _ in tt.el) + ')'
            return 'False' if t.k == 'i' and t.n == 1 else '0'
        if x in ('true', 'false'):
            return 'True' if x == 'true' else 'False'
        if re.fullmatch(r'-?\d+', x):
            v = int(x)
            if t.k == 'i' and t.n == 1:
                return 'True' if v & 1 else 'False'
            return str(v & M[t.n])
        if x.startswith('@'):
            return 'G[%r]' % x
        if x.startswith('%'):
            return self.reg(x)
        if x == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            p.need('(')
            e = self.gep(p, ')')
            p.need(')')
            return e
        if x in ('ptrtoint', 'inttoptr', 'bitcast'):
            p.need('(')
            t1 = p.type()
            v = self.const(p, t1)
            p.need('to')
            p.type()
            p.need(')')
            return v
        raise Unsupported('constant ' + x)

    @staticmethod
    def reg(x):
        return 'v_' + re.sub(r'\W', lambda m: '_%x_' % ord(m.group()), x[1:].strip('"'))

    def val(self, p, t):
        skip_attrs(p)
        return self.const(p, t)

    def gep(self, p, end):
        t = p.type()
        p.need(',')
        pt = p.type()
        base = self.val(p, pt)
        terms, off, first = [], 0, True
        while p.eat(','):
            if p.peek().startswith('!'):
                break
            it = p.type()
            iv = self.val(p, it)
            if first:
                sz = size(t)
                first = False
            elif t.k == 'a':
                t = t.el
                sz = size(t)
            elif t.k in ('s', 'n'):
                if t.k == 'n' and NAMED[t.n].k == 'a':
                    t = NAMED[t.n].el
                    sz = size(t)
                else:
                    o, t = field(t, int(iv))
                    off += o
                    continue
            else:
                raise Unsupported('gep into ' + t.k)
            if re.fullmatch(r'\d+', iv):
                off += sgn(int(iv), it.n) * sz
            else:
                if it.n < 64:
                    iv = 'sext(%s,%d,64)' % (iv, it.n)
                terms.append(iv if sz == 1 else '%s*%d' % (iv, sz))
        off &= M64
        e = base
        for x in terms:
            e += '+' + x
        if off:
            e += '+%d' % off
        return '((%s)&%d)' % (e, M64) if (terms or off) else e

    # ---- global data
    def place(self):
        G = {}
        todo = []
        for l in self.globals:
            m = re.match(r'(@"[^"]*"|@[\w.$-]+) = (.*)$', l)
            name, rest = m.groups()
            rest = re.sub(r', (align \d+|section .*|comdat.*|!\w+.*)', '', rest)
            p = P(lex(rest))
            ext = False
            while p.peek() not in ('global', 'constant', 'alias'):
                if p.peek() == 'external':
                    ext = True
                x = p.next()
                if x == '':
                    raise Unsupported('global ' + l[:80])
                if p.peek() == '(':
                    while p.next() != ')':
                        pass
            const = p.next() == 'constant'
            t = p.type()
            G[name] = new_obj(size(t), name, init=True, const=const)
            if not ext:
                todo.append((name, t, p))
        for n in list(self.funcs) + sorted(self.decls):
            a = new_obj(0, n)
            G['@' + n] = a
        self.G = G
        for name, t, p in todo:
            o = OBJS[G[name] >> OBJ]
            c, o.const = o.const, False
            self.init(G[name], t, p)
            o.const = c
        return G

    def init(self, addr, t, p):
        if t.k == 'n':
            t = NAMED[t.n]
        x = p.peek()
        if x in ('zeroinitializer', 'undef', 'poison'):
            p.next()
        elif t.k == 'a':
            if x.startswith('c"'):
                p.next()
                b = re.sub(rb'\\([0-9A-Fa-f]{2})', lambda m: bytes([int(m.group(1), 16)]), x[2:-1].replace('\\\\', '\\5C').encode('latin1'))
                for i, v in enumerate(b):
                    st1(addr + i, v)
            else:
                p.need('[')
                for i in range(t.n):
                    et = p.type()
                    self.init(addr + i * size(t.el), et, p)
                    p.eat(',')
                p.need(']')
        elif t.k == 's':
            if t.packed:
                p.need('<')
            p.need('{')
            for i in range(len(t.el)):
                et = p.type()
                self.init(addr + field(t, i)[0], et, p)
                p.eat(',')
            p.need('}')
            if t.packed:
                p.need('>')
        else:
            v = eval(self.const(p, t), {'G': self.G})
            stn(addr, int(v), size(t))

    # ---- functions
    def function(self, head, body):
        m = re.search(r'@([\w.$]+|"[^"]*")\(', head)
        name = m.group(1)
        p = P(lex(head[m.end():]))
        args = []
        while not p.eat(')'):
            if p.eat('...'):
                continue
            t = p.type()
            skip_attrs(p)
            n = p.next() if p.peek().startswith('%') else '%%arg%d' % len(args)
            args.append(self.reg(n))
            p.eat(',')
        # numbering of unnamed arguments and of the entry block follows the text
        blocks = {}
        cur = None
        entry = None
        acc = None
        for l in body:
            l = l.split(' ; ')[0].rstrip() if not 'c"' in l else l
            if acc is not None:
                acc += ' ' + l.strip()
                if l.strip() == ']' or l.rstrip().endswith(']'):
                    blocks[cur].append(acc)
                    acc = None
                continue
            if not l.strip() or l.startswith(';'):
                continue
            lm = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if lm:
                cur = '%' + lm.group(1)
                blocks[cur] = []
                continue
            if cur is None:
                cur = entry = '%<entry>'
                blocks[cur] = []
            s = l.strip()
            if s.startswith('switch ') and not s.endswith(']'):
                acc = s
                continue
            blocks[cur].append(s)
        self.funcs[name] = (args, blocks)

    def translate(self, name):
        args, blocks = self.funcs[name]
        names = list(blocks)
        entry = names[0]
        label = {b: i for i, b in enumerate(names)}
        # the entry block's implicit number is not referenced by branches (phis may name it)
        implicit = None
        if entry == '%<entry>':
            used = set()
            for b in names:
                for s in blocks[b]:
                    pm = re.match(r'\S+ = phi ', s)
                    if pm:
                        used |= set(re.findall(r', (%[\w.$"-]+) \]', s))
            for u in used - set(names):
                implicit = u
        phis = {}
        for b in names:
            lst = []
            for s in blocks[b]:
                m = re.match(r'(%\S+) = phi (.*)$', s)
                if not m:
                    break
                p = P(lex(m.group(2)))
                t = p.type()
                inc = {}
                while True:
                    p.need('[')
                    v = self.const(p, t)
                    p.need(',')
                    f = p.next()
                    if f == implicit:
                        f = entry
                    inc[f] = v
                    p.need(']')
                    if not p.eat(',') or p.peek() != '[':
                        break
                lst.append((self.reg(m.group(1)), inc))
            phis[b] = lst
        self.has_alloca = any(' = alloca ' in s for b in names for s in blocks[b])

        def goto(src, dst, ind):
            out = []
            ph = [(r, inc[src]) for r, inc in phis[dst] if r != inc[src]]
            if ph:
                out.append(ind + ', '.join(r for r, _ in ph) + ' = ' + ', '.join(v for _, v in ph))
            if dst != src:
                out.append(ind + 'b = %d' % label[dst])
            return out

        codes = []
        for b in names:
            code = []
            selfloop = False
            body = blocks[b][len(phis[b]):]
            for s in body[:-1]:
                code += self.inst(s)
            s = body[-1]
            term = []
            if s.startswith('br label'):
                dst = lex(s)[2]
                term = goto(b, dst, '')
                selfloop = dst == b
            elif s.startswith('br i1'):
                p = P(lex(s[3:]))
                t = p.type()
                c = self.const(p, t)
                p.need(',')
                p.need('label')
                d1 = p.next()
                p.need(',')
                p.need('label')
                d2 = p.next()
                selfloop = b in (d1, d2)
                term = ['if %s if %s.__class__ is bool else decide(%s):' % (c, c, c)] + (goto(b, d1, ' ') or [' pass']) + ([' break'] if selfloop and d1 != b else []) + \
                       ['else:'] + (goto(b, d2, ' ') or [' pass']) + ([' break'] if selfloop and d2 != b else [])
            elif s.startswith('switch'):
                m = re.match(r'switch (i\d+) (\S+), label (\S+) \[(.*)\]', s)
                t = P(lex(m.group(1))).type()
                v = self.const(P(lex(m.group(2))), t)
                cases = re.findall(r'i\d+ (-?\d+), label (%[\w.$"-]+)', m.group(4))
                first = True
                for k, d in cases:
                    term.append('%s truth(%s == %d):' % ('if' if first else 'elif', v, int(k) & M[t.n]))
                    term += goto(b, d, ' ') or [' pass']
                    first = False
                if cases:
                    term.append('else:')
                    term += goto(b, m.group(3), ' ') or [' pass']
                else:
                    term += goto(b, m.group(3), '')
            elif s.startswith('ret'):
                free = ['for o_ in A_: OBJS.pop(o_ >> 40, None)'] if self.has_alloca else []
                if s == 'ret void':
                    term = free + ['return None']
                else:
                    p = P(lex(s[4:]))
                    t = p.type()
                    term = ['r_ = ' + self.val(p, t)] + free + ['return r_']
            elif s.startswith('unreachable'):
                term = ["raise Violation('unreachable code reached')"]
            else:
                raise Unsupported('terminator ' + s)
            if selfloop:
                codes.append(['n_ = 0', 'while True:', ' n_ += 1', ' if n_ & 1023 == 0: tick()'] + [' ' + c for c in code + term])
            else:
                codes.append(code + term)
        src = ['def f_%s(%s):' % (re.sub(r'\W', '_', name), ', '.join(args))]
        if self.has_alloca:
            src.append(' A_ = []')
        if len(names) == 1:
            src += [' ' + c for c in codes[0]] or [' pass']
        else:
            src += [' b = 0', ' t_ = 0', ' while True:', '  t_ += 1', '  if t_ & 1023 == 0: tick()']

            def tree(lo, hi, ind):
                if hi - lo == 1:
                    return [ind + c for c in codes[lo]] or [ind + 'pass']
                mid = (lo + hi) // 2
                return [ind + 'if b < %d:' % mid] + tree(lo, mid, ind + ' ') + [ind + 'else:'] + tree(mid, hi, ind + ' ')
            src += tree(0, len(names), '  ')
        return '\n'.join(src)

    def inst(self, s):
        s = re.sub(r', ![\w.]+ ![\w.]+', '', s)
        s = re.sub(r' #\d+$', '', s)
        m = re.match(r'(%"[^"]*"|%[\w.$-]+) = (.*)$', s)
        dst = None
        if m:
            dst, s = self.reg(m.group(1)), m.group(2)
        p = P(lex(s))
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()

        def two():
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'samesign'):
                p.next()
            t = p.type()
            a = self.val(p, t)
            p.need(',')
            return t, a, self.val(p, t)

        def both(a, b):
            c = [x + '.__class__ is int' for x in (a, b) if not re.fullmatch(r'\d+', x)]
            return ' and '.join(c) or 'True'
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor'):
            t, a, b = two()
            if t.n == 1:
                return ['%s = bitop1(%r, %s, %s)' % (dst, op, a, b)]
            o = {'add': '+', 'sub': '-', 'mul': '*', 'and': '&', 'or': '|', 'xor': '^'}[op]
            e = '%s %s %s' % (a, o, b)
            return ['%s = %s' % (dst, e if op in ('and', 'or', 'xor') else '(%s) & %d' % (e, M[t.n]))]
        if op in ('shl', 'lshr', 'ashr'):
            t, a, b = two()
            if re.fullmatch(r'\d+', b) and int(b) < t.n and op != 'ashr':
                e = '(%s << %s) & %d' % (a, b, M[t.n]) if op == 'shl' else '%s >> %s' % (a, b)
                return ['%s = (%s) if %s else %s(%s, %s, %d)' % (dst, e, both(a, '0'), op, a, b, t.n)]
            return ['%s = %s(%s, %s, %d)' % (dst, op, a, b, t.n)]
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            t, a, b = two()
            if op[0] == 'u' and re.fullmatch(r'\d+', b) and int(b):
                return ['%s = %s %s %s if %s else div(%r, %s, %s, %d)' % (dst, a, '//' if op == 'udiv' else '%', b, both(a, '0'), op, a, b, t.n)]
            return ['%s = div(%r, %s, %s, %d)' % (dst, op, a, b, t.n)]
        if op == 'icmp':
            while p.peek() == 'samesign':
                p.next()
            c = p.next()
            t, a, b = two()
            if t.k == 'i' and t.n == 1:
                if c not in ('eq', 'ne'):
                    raise Unsupported('icmp i1 ' + c)
                return ['%s = icmp1(%r, %s, %s)' % (dst, c, a, b)]
            if c in ('eq', 'ne'):
                return ['%s = %s %s %s' % (dst, a, '==' if c == 'eq' else '!=', b)]
            if c[1:] in ('gt', 'ge'):
                a, b = b, a
                c = c[0] + {'gt': 'lt', 'ge': 'le'}[c[1:]]
            o = '<' if c[1:] == 'lt' else '<='
            if c[0] == 'u':
                return ['%s = %s %s %s if %s else %s(%s, %s)' % (dst, a, o, b, both(a, b), c, a, b)]
            sb = 1 << (t.n - 1)
            return ['%s = (%s ^ %d) %s (%s ^ %d) if %s else %s(%s, %s)' % (dst, a, sb, o, b, sb, both(a, b), c, a, b)]
        if op == 'select':
            p.type()
            c = self.val(p, Ty('i', 1))
            p.need(',')
            t = p.type()
            a = self.val(p, t)
            p.need(',')
            t = p.type()
            b = self.val(p, t)
            w = t.n if t.k == 'i' else 64 if t.k == 'p' else -1
            return ['%s = (%s if %s else %s) if %s.__class__ is bool else select(%s, %s, %s, %d)' % (dst, a, c, b, c, c, a, b, w)]
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            while p.peek() in ('nneg', 'nuw', 'nsw'):
                p.next()
            t = p.type()
            a = self.val(p, t)
            p.need('to')
            u = p.type()
            if op in ('zext', 'sext', 'trunc'):
                if op == 'zext' and t.n > 1:
                    return ['%s = %s if %s else zext(%s, %d, %d)' % (dst, a, both(a, '0'), a, t.n, u.n)]
                if op == 'trunc' and u.n > 1:
                    return ['%s = %s & %d if %s else trunc(%s, %d, %d)' % (dst, a, M[u.n], both(a, '0'), a, t.n, u.n)]
                return ['%s = %s(%s, %d, %d)' % (dst, op, a, t.n, u.n)]
            f, g = (64 if t.k == 'p' else t.n), (64 if u.k == 'p' else u.n)
            return ['%s = %s' % (dst, a if f == g else ('trunc' if f > g else 'zext') + '(%s, %d, %d)' % (a, f, g))]
        if op == 'freeze':
            t = p.type()
            return ['%s = %s' % (dst, self.val(p, t))]
        if op == 'getelementptr':
            while p.peek() in ('inbounds', 'nuw', 'nusw'):
                p.next()
            return ['%s = %s' % (dst, self.gep(p, ''))]
        if op == 'load':
            p.eat('volatile')
            t = p.type()
            p.need(',')
            p.type()
            a = self.val(p, Ty('p'))
            if t.k not in 'ip':
                raise Unsupported('load of aggregate')
            n = size(t)
            e = 'ld1(%s)' % a if n == 1 else 'ldn(%s, %d)' % (a, n)
            if t.k == 'i' and t.n != 8 * n:
                e = 'trunc(%s, %d, %d)' % (e, 8 * n, t.n)
            return ['%s = %s' % (dst, e)]
        if op == 'store':
            p.eat('volatile')
            t = p.type()
            v = self.val(p, t)
            p.need(',')
            p.type()
            a = self.val(p, Ty('p'))
            if t.k not in 'ip':
                raise Unsupported('store of aggregate')
            n = size(t)
            if t.k == 'i' and t.n != 8 * n:
                v = 'zext(%s, %d, %d)' % (v, t.n, 8 * n)
            return ['st1(%s, %s)' % (a, v) if n == 1 else 'stn(%s, %s, %d)' % (a, v, n)]
        if op == 'alloca':
            t = p.type()
            cnt = '1'
            if p.eat(','):
                if p.peek() != 'align':
                    ct = p.type()
                    cnt = self.val(p, ct)
            return ['%s = new_obj(%d * concrete(%s), %r)' % (dst, size(t), cnt, 'local'), 'A_.append(%s)' % dst]
        if op == 'extractvalue':
            t = p.type()
            a = self.val(p, t)
            p.need(',')
            return ['%s = %s[%s]' % (dst, a, p.next())]
        if op == 'insertvalue':
            t = p.type()
            a = self.val(p, t)
            p.need(',')
            u = p.type()
            v = self.val(p, u)
            p.need(',')
            return ['%s = insertvalue(%s, %s, %s)' % (dst, a, v, p.next())]
        if op == 'call':
            while p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            skip_attrs(p)
            p.type()
            if p.peek() == '(':
                while p.next() != ')':
                    pass
            f = p.next()
            p.need('(')
            args, tys = [], []
            while not p.eat(')'):
                if p.peek() == 'metadata':
                    return []
                t = p.type()
                tys.append(t)
                args.append(self.val(p, t))
                p.eat(',')
            pre = '%s = ' % dst if dst else ''
            if f.startswith('%'):
                return ['%scall_ptr(%s, [%s])' % (pre, self.reg(f), ', '.join(args))]
            n = f[1:].strip('"')
            if n.startswith('llvm.'):
                k = n.split('.')
                w = int(k[-1][1:]) if re.fullmatch(r'i\d+', k[-1]) else 0
                if k[1] in ('lifetime', 'assume', 'experimental', 'dbg', 'invariant', 'prefetch', 'donothing', 'va_start', 'va_end', 'stackrestore'):
                    return []
                if k[1] == 'stacksave':
                    return ['%s0' % pre]
                if k[1] in ('memcpy', 'memmove'):
                    return ['memcpy(%s, %s, %s)' % tuple(args[:3])]
                if k[1] == 'memset':
                    return ['memset(%s, %s, %s)' % tuple(args[:3])]
                if k[1] in ('umin', 'umax', 'smin', 'smax'):
                    return ['%sminmax(%r, %s, %s, %d)' % (pre, k[1], args[0], args[1], w)]
                if k[1] in ('fshl', 'fshr'):
                    return ['%sfsh(%r, %s, %s, %s, %d)' % (pre, k[1], args[0], args[1], args[2], w)]
                if k[1] in ('bitreverse', 'bswap', 'ctpop'):
                    return ['%s%s(%s, %d)' % (pre, k[1], args[0], w)]
                if k[1] in ('cttz', 'ctlz'):
                    return ['%scttz(%r, %s, %d)' % (pre, k[1], args[0], w)]
                if k[1] == 'abs':
                    return ['%siabs(%s, %d)' % (pre, args[0], w)]
                if len(k) > 2 and k[2] == 'sat':
                    return ['%ssat(%r, %s, %s, %d)' % (pre, k[1], args[0], args[1], w)]
                if len(k) > 2 and k[2] == 'with':
                    return ['%sovf(%r, %s, %s, %d)' % (pre, k[1], args[0], args[1], w)]
                if k[1] == 'expect':
                    return ['%s%s' % (pre, args[0])]
                if k[1] == 'objectsize':
                    return ['%s%d' % (pre, M64)]
                raise Unsupported('intrinsic ' + n)
            return ['%sf_%s(%s)' % (pre, re.sub(r'\W', '_', n), ', '.join(args))]
        raise Unsupported('instruction ' + s)


def truth(c):
    return c if c.__class__ is bool else decide(c)


def main():
    out = sys.argv[2]
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    LIMIT.update(out=out, end=time.time() + float(opt.get('--timeout', '200')), query_s=float(opt.get('--query', '120')))
    t0 = time.time()
    open(out + '.paths', 'w').close()
    pid = os.fork()
    if pid == 0:
        try:
            mod = Module(open(sys.argv[1]).read())
            G = mod.place()
            env = globals()
            env['G'] = G
            src = '\n\n'.join(mod.translate(n) for n in mod.funcs)
            if '--dump' in opt:
                open(opt['--dump'], 'w').write(src)
            exec(compile(src, 'module', 'exec'), env)
            for n in mod.funcs:
                FUNC_AT[G['@' + n]] = env['f_' + re.sub(r'\W', '_', n)]
            for n in mod.decls:
                if 'f_' + n in env:
                    FUNC_AT[G['@' + n]] = env['f_' + n]
            env['f_harness']()
            m = model() if INPUTS else None
            ev = lambda x: x if is_int(x) else m.eval(x, model_completion=True).as_long()
            finish({'end': 'done', 'inputs': [ev(v) for v in INPUTS], 'outs': [ev(v) for v in OUTS]}, 0)
        except Infeasible:
            finish({'end': 'infeasible'}, 0)
        except Violation as e:
            try:
                m = model() if INPUTS or PC else None
                finish({'end': 'violation', 'what': e.what, 'inputs': [m.eval(v, model_completion=True).as_long() for v in INPUTS]}, 10)
            except Exception as e2:
                finish({'end': 'stop', 'why': 'violation %s without model: %r' % (e.what, e2)}, 10)
        except Stop as e:
            finish({'end': 'stop', 'why': str(e)}, 10)
        except Unsupported as e:
            finish({'end': 'stop', 'why': 'unsupported: %s' % e}, 10)
        except MemoryError:
            finish({'end': 'stop', 'why': 'memory'}, 10)
        except BaseException as e:
            import traceback
            finish({'end': 'stop', 'why': 'internal: %r %s' % (e, traceback.format_exc()[-600:])}, 10)
    _, st = os.waitpid(pid, 0)
    recs = [json.loads(l) for l in open(out + '.paths')]
    os.unlink(out + '.paths')
    r = {'paths': sum(x['end'] in ('done', 'violation') for x in recs), 'infeasible': sum(x['end'] == 'infeasible' for x in recs),
         'queries': sum(x['stat']['queries'] for x in recs), 'steps': sum(x['stat']['steps'] for x in recs), 'solver_s': sum(x['stat']['solver_s'] for x in recs), 'wall': time.time() - t0}
    viol = [x for x in recs if x['end'] == 'violation']
    stop = [x for x in recs if x['end'] == 'stop']
    done = [x for x in recs if x['end'] == 'done']
    if viol:
        r.update(status='sat', what=viol[0]['what'], inputs=viol[0]['inputs'])
    elif stop or not os.WIFEXITED(st) or os.WEXITSTATUS(st) != 0:
        r.update(status='timeout' if any(x['why'].startswith(('time', 'solver', 'memory')) for x in stop) else 'error', err='; '.join(x['why'] for x in stop)[:400] or 'status %r' % st)
    else:
        r.update(status='unsat')
    if done:
        r.update(witness={'inputs': done[0]['inputs'], 'outs': done[0]['outs']})
    json.dump(r, open(out, 'w'))


if __name__ == '__main__':
    main()

"""An independent interpreter for (a documented part of) the gsiril language.

Programs are built as trees of the classes below; src() prints one as gsiril
source and run() says what gsiril should print and how it should exit.
"""
from . import ring as R

class Abort(Exception): pass        # $$
class Break(Exception): pass
class Err(Exception): pass          # an error in the program
class TooLong(Exception): pass      # beyond what the oracle is willing to run
class Open(Exception): pass         # meaning not settled by the documentation

INF = 1 << 62

def pat_match(pat, row):
    """Glob match of the list PAT (ints, '*', '?', frozensets) on ROW;
    returns the bells under wildcards or None."""
    def go(i, j):
        if i == len(pat):
            return [] if j == len(row) else None
        p = pat[i]
        if p == '*':
            for k in range(j, len(row) + 1):
                t = go(i + 1, k)
                if t is not None:
                    return list(row[j:k]) + t
            return None
        if j == len(row): return None
        if p == '?':
            t = go(i + 1, j + 1)
            return None if t is None else [row[j]] + t
        if (row[j] in p) if isinstance(p, frozenset) else row[j] == p:
            return go(i + 1, j + 1)
        return None
    return go(0, 0)

def pat_str(pat):
    return "".join(p if isinstance(p, str) else
                   "[" + "".join(R.SYM[b] for b in sorted(p)) + "]"
                   if isinstance(p, frozenset) else R.SYM[p] for p in pat)

def rowstr(r): return "".join(R.SYM[b] for b in r)

def escapes(s):
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != '\\': out.append(c); i += 1; continue
        if i + 1 == len(s): raise Open
        d = s[i+1]
        if d == 'n': out.append('\n')
        elif d == 't': out.append('\t')
        elif d == "'": out.append('"')
        elif d in 'xuU':
            k = {'x': 2, 'u': 4, 'U': 8}[d]
            h = s[i+2:i+2+k]
            if len(h) < k or any(ch not in '0123456789abcdefABCDEF' for ch in h): raise Err
            v = int(h, 16)
            if v >= 0x110000: raise Err
            if 0xd800 <= v < 0xe000: raise Open
            out.append(chr(v)); i += k
        else: out.append(d)
        i += 2
    return "".join(out)

# ---------------------------------------------------------------- contexts

class World:
    """Everything that outlives a proof."""
    def __init__(self, bells=0, extents=1, everyrow_only=False, quiet=0,
                 filt=False, msiril=False, budget=6000):
        self.bells = bells; self.extents = extents
        self.rounds = None          # None: rounds itself
        self.length = (0, 0)
        self.mask = ['*']
        self.maskopt = False
        self.syms = {}
        self.first = None
        self.out = []; self.err = []
        self.failed = False; self.done = False
        self.E = everyrow_only; self.q = quiet; self.filt = filt
        self.msiril = msiril
        self.music = []
        self.prove_one = False; self.determine = False
        self.trace = []; self.trace_all = False
        self.steps = budget
        self.rows = 0; self.proofs = 0; self.verdicts = {}
    def start_row(self):
        r = tuple(range(self.bells))
        if self.rounds is None: return r
        return self.rounds + r[len(self.rounds):]
    def line_len(self):
        m = pat_match(self.mask, tuple(range(self.bells)))
        return self.bells if m is None else len(m)
    def define(self, name, e):
        new = name not in self.syms
        self.syms[name] = e
        if new and self.first is None: self.first = name

class Ctx:
    def __init__(self, w):
        if not w.bells: raise Err
        self.w = w
        self.r = w.start_row()
        self.last = None
        self.counts = {}; self.n = 0; self.dups = 0; self.false = False
        self.proving = True
        self.d = {}
        self.score = 0
        self.clone_of = None
        self.silent = w.E or w.filt or w.q >= 2
        self.maxlen = w.length[1]
    def clone(self):
        c = Ctx.__new__(Ctx)
        c.__dict__.update(self.__dict__)
        c.counts = dict(self.counts); c.d = dict(self.d)
        c.clone_of = self; c.maxlen = 0
        return c
    def step(self):
        self.w.steps -= 1
        if self.w.steps < 0: raise TooLong
    def lookup(self, s):
        if s in self.d: return self.d[s]
        if s == '__line__' and s not in self.w.syms: return Str('-' * self.w.line_len())
        if s in ('min_length', 'max_length') and s not in self.w.syms and any(self.w.length):
            return Num(self.w.length[s == 'max_length'])
        if s in self.w.syms: return self.w.syms[s]
        raise Err
    def defined(self, s):
        return s in self.d or s in self.w.syms \
            or s == '__line__' and self.w.bells > 0 \
            or s in ('min_length', 'max_length') and any(self.w.length) \
            or s in FUNCS
    def write(self, text):
        if self.clone_of is None and not self.silent: self.w.out.append(text)
    def write_parent(self, text):
        if self.clone_of is None: return self.write(text)
        if self.clone_of.clone_of is not None: raise Open
        self.clone_of.write(text)
    def sym(self, s, dir=1):
        self.step()
        if self.clone_of is None:
            if self.w.trace_all and s != 'everyrow' or s in self.w.trace:
                inc = self.w.trace_all or len(self.w.trace) > 1
                self.w.out.append(rowstr(self.r) + ("\t" + s if inc else "") + "\n")
        self.lookup(s).ex(self, dir)
    def final(self, s):
        try: self.sym(s)
        except (Abort, Break): pass
    def isrounds(self):
        return self.r == self.w.start_row() and self.counts.get(self.r, 0) == self.w.extents
    def apply(self, r):
        self.step()
        self.r = r
        if not self.proving: return
        self.w.rows += 1
        k = self.counts.get(r, 0) + 1
        self.counts[r] = k
        self.n += 1
        if k > 1: self.dups += 1
        # a clone is for trying things out: it does not declare anything false
        conflict = k > self.w.extents and self.clone_of is None
        if conflict: self.false = True
        for p in self.w.music:
            if pat_match(p, r) is not None: self.score += 1
        s = self.silent
        if self.w.E and not self.w.filt: self.silent = False
        self.sym('everyrow')
        self.silent = s
        if self.maxlen and self.n > self.maxlen: self.sym('toolong')
        if self.isrounds(): self.sym('rounds')
        if conflict: self.sym('conflict')
    def change(self, c):
        n, sw = c
        r = list(self.r)
        for i in sw: r[i], r[i+1] = r[i+1], r[i]
        self.apply(tuple(r))
    def subst(self, s):
        """-> (text with escapes left in, abort?, no newline?)"""
        out, ab, nonl, i = [], False, False, 0
        while i < len(s):
            c = s[i]
            if c == '@':
                if len(self.r) != self.w.bells: raise Open
                m = pat_match(self.w.mask, self.r)
                if m is None: return None, False, False
                out.append(rowstr(m))
            elif c == '#': out.append(str(self.n))
            elif c == '$':
                if s[i+1:i+2] == '{' and not self.w.msiril:
                    j = s.find('}', i)
                    if j < 0: raise Err
                    v = self.lookup(s[i+2:j]).s(self.clone())
                    out.append(v); i = j
                elif s[i+1:i+2] == '$': ab = True; i += 1
                else: out.append(str(self.dups))
            elif c == '\\':
                if i + 1 == len(s): nonl = True
                else: out.append(s[i:i+2]); i += 1
            else: out.append(c)
            i += 1
        return "".join(out), ab, nonl

# ---------------------------------------------------------------- expressions

class E:
    prec = 10
    def ex(self, c, dir=1): raise Err
    def ev(self, c): raise Err
    def b(self, c): raise Err
    def i(self, c): raise Err
    def s(self, c): raise Err
    def pn(self, c): raise Err
    def arr(self, c): raise Err
    def mus(self, c): raise Err
    def repl(self, c): raise Err       # -> function on a list of changes
    def typ(self, c): return None
    def call(self, c, args): raise Err
    def p(self, sub, prec):
        """SUB in a place which needs at least precedence PREC."""
        t = sub.src()
        return "(" + t + ")" if sub.prec < prec else t

class B(E):
    def ex(self, c, dir=1):
        c.step()
        if dir < 0: raise Err
        self.b(c)
    def ev(self, c): return Bool(self.b(c))
    def typ(self, c): return 'b'

class I(E):
    def ex(self, c, dir=1):
        c.step()
        if dir < 0: raise Err
        self.i(c)
    def ev(self, c): return Num(self.i(c))
    def s(self, c): return str(self.i(c))
    def typ(self, c): return 'i'

def ck(v):
    if not -(1 << 63) <= v < 1 << 63: raise Err
    return v

class Nop(E):
    def ex(self, c, dir=1): c.step()
    def src(self): return ""

class Num(I):
    def __init__(self, v): self.v = v
    def i(self, c): return self.v
    def src(self): return str(self.v)
class Bool(B):
    def __init__(self, v): self.v = v
    def b(self, c): return self.v
    def src(self): return "true" if self.v else "false"

class Str(E):
    """A string literal; done: already interpolated"""
    def __init__(self, t, parent=False, done=False, ab=False, nonl=False, skip=False):
        self.t, self.parent, self.done, self.ab, self.nonl, self.skip = t, parent, done, ab, nonl, skip
        if parent: self.prec = 9
    def ev(self, c):
        if self.done: return self
        t, ab, nonl = c.subst(self.t)
        if t is None: return Str("", self.parent, True, skip=True)
        return Str(t, self.parent, True, ab, nonl)
    def ex(self, c, dir=1):
        c.step()
        e = self.ev(c)
        if e.skip: return
        text = escapes(e.t) + ("" if e.nonl else "\n")
        (c.write_parent if self.parent else c.write)(text)
        if e.ab: raise Abort
    def s(self, c):
        e = self.ev(c)
        if e.skip: raise Open
        return e.t
    def s2(self, c):
        e = self.ev(c)
        if e.skip: raise Open
        return e.t, e.nonl
    def src(self): return ("echo " if self.parent else "") + '"' + self.t + '"'

class PN(E):
    def __init__(self, text, changes): self.t, self.ch = text, changes
    def ex(self, c, dir=1):
        c.step()
        for x in (self.ch if dir > 0 else reversed(self.ch)): c.change(x)
    def pn(self, c): return list(self.ch)
    def repl(self, c):
        return replace(self.ch, max(len(self.ch) - 1, 0), False)
    def src(self): return self.t

def replace(mask, off, begin):
    def f(m):
        m = list(m)
        start = off - 1 if begin else len(m) - (off + 1)
        if off < 0 or off == 0 and begin or start < 0 or start + len(mask) > len(m): raise Err
        m[start:start+len(mask)] = mask
        return m
    return f

class Transp(E):
    def __init__(self, row): self.row = row
    def ex(self, c, dir=1):
        c.step()
        if dir < 0 and R.mul(self.row, self.row) != tuple(range(len(self.row))): raise Open
        row = self.row + tuple(range(len(self.row), len(c.r)))
        c.apply(R.mul(c.r, row))
    def src(self): return "'" + rowstr(self.row) + "'"

class Sym(E):
    def __init__(self, n): self.n = n
    def ex(self, c, dir=1): c.sym(self.n, dir)
    def look(self, c): c.step(); return c.lookup(self.n)
    def ev(self, c): return self.look(c).ev(c)
    def b(self, c): return self.look(c).b(c)
    def i(self, c): return self.look(c).i(c)
    def s(self, c): return self.look(c).s(c)
    def s2(self, c):
        e = self.look(c)
        return e.s2(c) if hasattr(e, 's2') else (e.s(c), False)
    def pn(self, c): return self.look(c).pn(c)
    def arr(self, c): return self.look(c).arr(c)
    def mus(self, c): return self.look(c).mus(c)
    def repl(self, c): return self.look(c).repl(c)
    def typ(self, c): return self.look(c).typ(c)
    def src(self): return self.n

class List(E):
    prec = 1
    def __init__(self, *x): self.x = x
    def ex(self, c, dir=1):
        c.step()
        for e in (self.x if dir > 0 else reversed(self.x)): e.ex(c, dir)
    def lead(self, c):
        c.step()
        for e in self.x[:-1]: e.ex(c, 1)
        return self.x[-1]
    def ev(self, c): return self.lead(c).ev(c)
    def b(self, c): return self.lead(c).b(c)
    def i(self, c): return self.lead(c).i(c)
    def s(self, c): return self.lead(c).s(c)
    def typ(self, c): return self.x[-1].typ(c)
    def pn(self, c): return [k for e in self.x for k in e.pn(c)]
    def src(self): return ", ".join(self.p(e, 2) for e in self.x)

class Rep(E):
    """COUNT x, repeat x, or (star) an integer expression times a block"""
    def __init__(self, count, x, star=None):
        self.count, self.x, self.star = count, x, star
        self.prec = 8 if star else 9
    def times(self, c):
        if self.count is None: return INF
        if isinstance(self.count, int): return self.count
        if self.count.typ(c) != 'i': raise Err
        n = self.count.i(c)
        if not 0 <= n < 1 << 31: raise Err
        return n
    def product(self, c):
        """both factors are numbers"""
        return self.star and (isinstance(self.count, int) or self.count.typ(c) == 'i') and self.x.typ(c) == 'i'
    def scoped(self, c, f):
        old = c.lookup('loop_counter') if c.defined('loop_counter') else None
        try:
            f()
        except Break: pass
        finally:
            c.d.pop('loop_counter', None)
            if old is not None: c.d['loop_counter'] = old
    def ex(self, c, dir=1):
        c.step()
        if self.product(c):
            if dir < 0: raise Err
            a = self.count if isinstance(self.count, int) else self.count.i(c)
            ck(a * self.x.i(c)); return
        def f():
            k = 0
            n = self.times(c)
            while k < n:
                k += 1
                c.d['loop_counter'] = Num(k)
                self.x.ex(c, dir)
        self.scoped(c, f)
    def pn(self, c):
        if self.count is None or self.star or not isinstance(self.count, int): raise Err
        out = []
        def f():
            for k in range(self.count):
                c.step()
                c.d['loop_counter'] = Num(k + 1)
                out.extend(self.x.pn(c))
        self.scoped(c, f)
        return out
    def src(self):
        if self.count is None: return "repeat " + self.p(self.x, 9)
        if self.star:
            cnt = str(self.count) if isinstance(self.count, int) else self.p(self.count, 9)
            if self.star == 'r': return self.p(self.x, 9) + " * " + cnt
            return cnt + "* " + self.p(self.x, 9)
        x = self.p(self.x, 9)
        return str(self.count) + ("" if x[:1] in "&+-(" or x[:1].isalpha() else " ") + x

class Rev(E):
    prec = 9
    def __init__(self, x): self.x = x
    def ex(self, c, dir=1): c.step(); self.x.ex(c, -dir)
    def pn(self, c): return self.x.pn(c)[::-1]
    def src(self): return "~" + self.p(self.x, 9)

class Assign(E):
    prec = 0
    def __init__(self, n, x, op='='): self.n, self.x, self.op = n, x, op
    def ex(self, c, dir=1):
        c.step()
        if dir < 0: raise Err
        if self.op == '=': v = self.x
        elif self.op == ':=': v = self.x.ev(c)
        else: v = Str(c.lookup(self.n).s(c) + self.x.s(c), done=True)
        c.d[self.n] = v
    def src(self): return "%s %s %s" % (self.n, self.op, self.x.src())

class Save(E):
    prec = 9
    def __init__(self, n): self.n = n
    def ex(self, c, dir=1):
        c.step()
        if dir < 0: raise Open
        v = c.lookup(self.n)
        if c.clone_of is None: c.w.define(self.n, v)
    def src(self): return "save " + self.n

class Inc(I):
    prec = 9
    def __init__(self, n, by): self.n, self.by = n, by
    def i(self, c):
        v = ck(c.lookup(self.n).i(c) + self.by)
        c.d[self.n] = Num(v)
        return v
    def src(self): return ("++" if self.by > 0 else "--") + self.n

class Alt(E):
    """{ test: x; test: x; x }"""
    def __init__(self, alts): self.alts = alts
    def pick(self, c):
        for t, x in self.alts:
            c.step()
            if t is None: return x
            try:
                if t.b(c.clone()): return x
            except (Abort, Break): pass
        return None
    def ex(self, c, dir=1):
        c.step()
        if dir < 0: raise Err
        x = self.pick(c)
        if x is not None: x.ex(c, dir)
    def ev(self, c):
        x = self.pick(c)
        if x is None: raise Err
        return x.ev(c)
    def src(self):
        return "{ " + "; ".join((self.p(t, 0) + ": " if t is not None else "") + x.src()
                                for t, x in self.alts) + " }"

class BreakE(E):
    def ex(self, c, dir=1):
        c.step()
        if dir < 0: raise Err
        raise Break
    def src(self): return "break"
class EndProof(E):
    def ex(self, c, dir=1):
        c.step()
        if c.proving: c.last = c.r
        c.proving = False
    def src(self): return "endproof"

class Word(B):
    def __init__(self, w): self.w = w
    def b(self, c): return c.isrounds() if self.w == 'rounds' else c.proving
    def src(self): return self.w
class IWord(I):
    def __init__(self, w): self.w = w
    def i(self, c): return c.w.bells if self.w == 'bells' else c.n
    def src(self): return self.w
class Defined(B):
    def __init__(self, n, par=True): self.n, self.par = n, par; self.prec = 9
    def b(self, c): return c.defined(self.n)
    def src(self): return "defined(%s)" % self.n if self.par else "defined " + self.n

class Pat(B):
    def __init__(self, pat, text=None): self.pat, self.text = pat, text
    def b(self, c): return pat_match(self.pat, c.r) is not None
    def mus(self, c): return [self.pat]
    def src(self): return "/" + (self.text or pat_str(self.pat)) + "/"

class Not(B):
    prec = 9
    def __init__(self, x): self.x = x
    def b(self, c): return not self.x.b(c)
    def src(self): return "!" + self.p(self.x, 9)
class Logic(B):
    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r
        self.prec = 2 if op == '||' else 3
    def b(self, c):
        c.step()
        if self.op == '||': return self.l.b(c) or self.r.b(c)
        return self.l.b(c) and self.r.b(c)
    def src(self): return "%s %s %s" % (self.p(self.l, self.prec), self.op, self.p(self.r, self.prec))
class Cmp(B):
    prec = 4
    def __init__(self, op, l, r): self.op, self.l, self.r = op, l, r
    def b(self, c):
        c.step()
        lt, rt = self.l.typ(c), self.r.typ(c)
        op = self.op
        if lt == 'b' and rt == 'b':
            a, b = self.l.b(c), self.r.b(c)
            if op not in ('==', '!='): raise Err
        elif 'b' in (lt, rt): raise Err
        elif lt == 'i' and rt == 'i': a, b = self.l.i(c), self.r.i(c)
        else:
            if 'i' in (lt, rt) and op not in ('==', '!='): raise Err
            a, b = self.l.s(c), self.r.s(c)
            if '\\' in a or '\\' in b: raise Open
        return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b,
                '<=': a <= b, '>=': a >= b}[op]
    def src(self): return "%s %s %s" % (self.p(self.l, 5), self.op, self.p(self.r, 5))

class Arith(I):
    def __init__(self, op, l, r):
        self.op, self.l, self.r = op, l, r
        self.prec = 7 if op in '+-' else 8
    def i(self, c):
        c.step()
        a, b = self.l.i(c), self.r.i(c)
        if self.op == '+': v = a + b
        elif self.op == '-': v = a - b
        elif self.op == '*': v = a * b
        else:
            if b == 0: raise Err
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0): q = -q
            v = q if self.op == '/' else a - q * b
        return ck(v)
    def src(self):
        t = "%s %s %s" % (self.p(self.l, self.prec), self.op, self.p(self.r, self.prec + 1))
        return t
    def ex(self, c, dir=1):
        if self.op == '*' and (self.l.typ(c) != 'i' or self.r.typ(c) != 'i'): raise Open
        super().ex(c, dir)
    def typ(self, c):
        if self.op == '*' and (self.l.typ(c) != 'i' or self.r.typ(c) != 'i'): raise Open
        return 'i'

class Append(E):
    prec = 8
    def __init__(self, l, r): self.l, self.r = l, r
    def s(self, c): return self.l.s(c) + self.r.s(c)
    def ev(self, c): return Str(self.s(c), done=True)
    def ex(self, c, dir=1): raise Open
    def arr(self, c): return self.l.arr(c) + self.r.arr(c)
    def src(self): return "%s . %s" % (self.p(self.l, 8), self.p(self.r, 9))

class Merge(E):
    prec = 5
    def __init__(self, blk, rep): self.blk, self.rep = blk, rep
    def pn(self, c): c.step(); m = self.blk.pn(c); return self.rep.repl(c)(m)
    def ev(self, c): return PN(None, self.pn(c))
    def ex(self, c, dir=1): PN(None, self.pn(c)).ex(c, dir)
    def src(self): return "%s & %s" % (self.p(self.blk, 5), self.p(self.rep, 6))
class Shift(E):
    prec = 6
    def __init__(self, blk, n, begin): self.blk, self.n, self.begin = blk, n, begin
    def repl(self, c): return replace(self.blk.pn(c), self.n.i(c), self.begin)
    def src(self): return "%s %s %s" % (self.p(self.blk, 7), ">>" if self.begin else "<<", self.p(self.n, 7))

class Arr(E):
    def __init__(self, x): self.x = x
    def arr(self, c): return list(self.x)
    def src(self): return "[" + ", ".join(self.p(e, 2) for e in self.x) + "]"

STAGES = {3: "Singles", 4: "Minimus", 5: "Doubles", 6: "Minor", 7: "Triples", 8: "Major",
          9: "Caters", 10: "Royal", 11: "Cinques", 12: "Maximus"}
FUNCS = {'at', 'pos', 'rowno', 'swap', 'stagename', 'music', 'runs', 'frontruns',
         'backruns', 'crus', 'load', 'loadm', 'loadlh', 'methname', 'pnstr'}

class Runs:
    """Music made of runs of a given length somewhere"""

class Call(E):
    def __init__(self, f, *args): self.f, self.args = f, args
    def go(self, c):
        c.step()
        f, a = self.f, self.args
        if f == 'at':
            if len(a) != 1: raise Err
            k = a[0].i(c)
            if not 1 <= k <= len(c.r): raise Err
            return Num(c.r[k-1] + 1)
        if f == 'pos':
            if len(a) != 1: raise Err
            k = a[0].i(c)
            if not 1 <= k <= len(c.r): raise Err
            return Num(c.r.index(k - 1) + 1)
        if f == 'rowno':
            if a: raise Err
            return Num(c.n)
        if f == 'swap':
            if len(a) not in (1, 2): raise Err
            i = a[0].i(c); j = a[1].i(c) if len(a) == 2 else i + 1
            if not (1 <= i <= c.w.bells and 1 <= j <= c.w.bells) or i == j: raise Err
            r = list(range(c.w.bells)); r[i-1], r[j-1] = r[j-1], r[i-1]
            return Transp(tuple(r))
        if f == 'music':
            if a: raise Err
            return Num(c.score)
        if f == 'stagename':
            if len(a) != 1: raise Err
            k = a[0].i(c)
            if k not in STAGES: raise Open
            return Str(STAGES[k], done=True)
        if f == 'pnstr':
            if not a: raise Err
            ch = [k for e in a for k in e.pn(c.clone())]
            if not ch: raise Open
            return Str(R.pns(ch, "X"), done=True)
        raise Open
    def ex(self, c, dir=1):
        if dir < 0: raise Err
        self.go(c).ex(c, dir)
    def ev(self, c): return self.go(c)
    def i(self, c): return self.go(c).i(c)
    def s(self, c): return self.go(c).s(c)
    def b(self, c): return self.go(c).b(c)
    def typ(self, c):
        return 'i' if self.f in ('at', 'pos', 'rowno', 'music') else None
    def src(self): return self.f + "(" + ", ".join(self.p(x, 2) for x in self.args) + ")"

# ---------------------------------------------------------------- statements

class S:
    kind = None
    def __init__(self, text, fn, kind): self.text, self.fn, self.kind = text, fn, kind
    def lines(self): return [self.text]
    def ex(self, w): self.fn(w)

def st_def(n, x, op='='):
    def f(w):
        if op == '=': w.define(n, x)
        elif op == ':=': w.define(n, x.ev(Ctx(w)))
        elif n not in w.syms: w.define(n, x)
        elif isinstance(w.syms[n], Nop): raise Open
    return S("%s %s %s" % (n, op, x.src()), f, 'def')

def st_bells(n):
    def f(w):
        if not 2 <= n <= 256: raise Err
        if w.rounds is not None and n < len(w.rounds): raise Open
        if w.rounds is not None: w.rounds = w.rounds + tuple(range(len(w.rounds), n))
        w.bells = n
    return S("%d bells" % n, f, 'bells')
def st_extents(n):
    def f(w): w.extents = n
    return S("%d extents" % n, f, 'extents')
def st_rows(a, b=None):
    def f(w): w.length = (a, a if b is None else b)
    return S("%d rows" % a if b is None else "%d to %d rows" % (a, b), f, 'rows')
def st_rounds(r):
    def f(w):
        if len(r) > w.bells: raise Open
        w.rounds = r
    return S("rounds '%s'" % rowstr(r), f, 'rounds')
def st_mask(p):
    def f(w):
        if not w.bells: raise Err
        if not w.E: w.mask = p
    return S("row_mask /%s/" % pat_str(p), f, 'row_mask')
def st_echo(x, word='echo'):
    def f(w):
        c = Ctx(w)
        if w.q < 2 or word != 'echo': c.silent = False
        t, nonl = (x.s2(c) if hasattr(x, 's2') else (x.s(c), False))
        if '\\' in t: raise Open
        t += "" if nonl else "\n"
        if word == 'echo':
            # -qq is documented to silence echo
            if w.q < 2: w.out.append(t)
        else: w.err.append(t)
        if word == 'error': raise Exit(1)
    return S(word + " " + x.src(), f, word)
def st_music(pats):
    def f(w): w.music = [q for p in pats for q in p.mus(Ctx(w))]
    return S("music " + ", ".join(p.src() if p.prec >= 2 else "(" + p.src() + ")" for p in pats), f, 'music')
def st_raw(text, fn, kind='raw'): return S(text, fn, kind)

class Exit(Exception):
    def __init__(self, rc): self.rc = rc

def prove(w, x):
    if w.prove_one and w.done: raise Err
    w.done = True
    w.proofs += 1
    if w.determine: w.out.append("%d bells\n" % w.bells)
    c = Ctx(w)
    def verdict(v): w.verdicts[v] = w.verdicts.get(v, 0) + 1
    try:
        c.sym('start'); x.ex(c, 1); c.sym('finish')
    except Abort:
        c.final('abort'); w.failed = True; verdict('abort'); return
    except Break:
        raise Open
    end = c.r if c.proving else c.last
    if c.false: c.final('false'); w.failed = True; verdict('false')
    elif end != w.start_row(): c.final('notround'); w.failed = True; verdict('notround')
    elif w.length[0] and c.n < w.length[0]: c.final('tooshort'); w.failed = True; verdict('tooshort')
    else:
        if w.q: c.silent = True
        c.final('true'); verdict('true')

def st_prove(x): return S("prove " + x.src(), lambda w: prove(w, x), 'prove')

class If:
    kind = 'if'
    def __init__(self, alts): self.alts = alts      # [(cond or None, [stmts])]
    def lines(self):
        out = []
        for k, (t, b) in enumerate(self.alts):
            out.append("else" if t is None else ("elseif " if k else "if ") + t.src())
            for s in b: out += ["  " + l for l in s.lines()]
        return out + ["endif"]
    def ex(self, w):
        for t, b in self.alts:
            if t is not None:
                c = Ctx(w); c.silent = True
                try:
                    if not t.b(c): continue
                except (Abort, Break): raise Open
            for s in b: s.ex(w)
            return
class For:
    kind = 'foreach'
    def __init__(self, n, arr, body): self.n, self.a, self.body = n, arr, body
    def lines(self):
        out = ["foreach %s as %s" % (self.a.src(), self.n)]
        for s in self.body: out += ["  " + l for l in s.lines()]
        return out + ["endfor"]
    def ex(self, w):
        for x in self.a.arr(Ctx(w)):
            w.define(self.n, x)
            for s in self.body: s.ex(w)

class Import:
    """Import of statements kept in a file"""
    kind = 'import'
    def __init__(self, fname, body): self.fname, self.body = fname, body
    def lines(self): return ['import "%s"' % self.fname]
    def ex(self, w):
        first, b, rounds = w.first, w.bells, w.rounds
        for s in self.body:
            s.ex(w)
        w.first = first
        if b and w.bells != b:
            if w.rounds is not None: raise Open
            w.bells = b

def init(w):
    """The documented initialisation file"""
    summ = Str("# rows ending in @")
    S_ = Sym("__summary__")
    d = {'__summary__': summ,
         '__music__': List(Assign('__score__', Call('music')),
                           Alt([(Cmp('>', Sym('__score__'), Num(0)), Str("Music score: ${__score__}"))])),
         'true': List(S_, Str("Touch is true"), Sym('__music__')),
         'notround': List(S_, Str("Is this OK?")),
         'false': List(S_, Str("Touch is false in $ rows")),
         'tooshort': List(S_, Str("Touch is too short: \\"), Str("at least ${min_length} rows expected")),
         'toolong': Str("Touch exceeds maximum length of ${max_length} rows$$"),
         'conflict': List(S_, Str("Touch not completed due to false row$$"))}
    for k in ('rounds', 'start', 'finish', 'abort', 'everyrow'): d[k] = Nop()
    w.syms.update(d)

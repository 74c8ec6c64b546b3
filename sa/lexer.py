"""Analysis of the generated lexer: the byte-level automaton the derive macro produced is read from its MIR and
explored in product with a reference automaton of the language's tokens (C20).

The generated code is a set of functions over the lexer's read/bump/set/error operations.  It is interpreted with every
unread byte of the input unknown; a value computed from one byte is kept as a table over the 256 byte values, so a branch
splits the set of bytes possible at that place.  Consumed bytes drive the reference automaton; input is valid UTF-8."""
import re
from engine import *

KIND = 'dice_syntax::lexer::token::TokenKind'
ALL = (1 << 256) - 1
def bits(bs):
    m = 0
    for b in bs: m |= 1 << b
    return m
def members(m): return [b for b in range(256) if m >> b & 1]

# ---------------------------------------------------------------- reference
SPELL = {'LeftParen': '(', 'RightParen': ')', 'LeftCurly': '{', 'RightCurly': '}', 'LeftSquare': '[', 'RightSquare': ']', 'Colon': ':', 'Comma': ',', 'Pipe': '|',
         'RangeExclusive': '..', 'RangeInclusive': '..=', 'Arrow': '->', 'WideArrow': '=>', 'Dot': '.', 'QuestionMark': '?', 'ErrorPropagate': '!!', 'Coalesce': '??',
         'ErrorCoalesce': 'or', 'Minus': '-', 'Plus': '+', 'Remainder': '%', 'Star': '*', 'Slash': '/', 'Not': '!', 'NotEqual': '!=', 'Equal': '==', 'Greater': '>',
         'GreaterEqual': '>=', 'Less': '<', 'LessEqual': '<=', 'Assign': '=', 'MulAssign': '*=', 'DivAssign': '/=', 'AddAssign': '+=', 'SubAssign': '-=', 'LazyAnd': '&&',
         'Pipeline': '|>', 'Object': '#', 'False': 'false', 'True': 'true', 'Null': 'null', 'If': 'if', 'Else': 'else', 'While': 'while', 'Loop': 'loop', 'For': 'for',
         'Break': 'break', 'Continue': 'continue', 'Return': 'return', 'Function': 'fn', 'Let': 'let', 'Mut': 'mut', 'In': 'in', 'Operator': 'op', 'Class': 'class', 'Is': 'is',
         'Import': 'import', 'As': 'as', 'From': 'from', 'Export': 'export', 'Super': 'super'}
RESERVED = ('await', 'async', 'yield', 'do', 'const', 'match', 'enum', 'trait', 'type', 'try', 'when', 'default', 'switch')
TRIVIA = 'trivia'

class Ref:
    """deterministic automaton; a state is a frozenset of items (rule, position)"""
    def __init__(self):
        ident0 = bits(b'_' + bytes(range(65, 91)) + bytes(range(97, 123))); digit = bits(range(48, 58)); ident = ident0 | digit
        ws = bits(b' \t\r\n\x0c'); nl = bits(b'\r\n'); q, bs = bits(b'"'), bits(b'\\'); esc = bits(b'"\\nrt')
        # rule: name -> {state: [(byteset, next)]}, accepting states
        self.rules = []
        for k, s in list(SPELL.items()) + [('Reserved', r) for r in RESERVED]:
            b = s.encode(); self.rules.append((k, 2, {i: [(1 << c, i + 1)] for i, c in enumerate(b)}, {len(b)}))
        self.rules += [('Identifier', 1, {0: [(ident0, 1)], 1: [(ident, 1)]}, {1}), ('Integer', 1, {0: [(digit, 1)], 1: [(digit, 1)]}, {1}),
                       ('Float', 1, {0: [(digit, 1)], 1: [(digit, 1), (bits(b'.'), 2)], 2: [(digit, 3)], 3: [(digit, 3)]}, {3}),
                       ('String', 1, {0: [(q, 1)], 1: [(ALL & ~q & ~bs, 1), (bs, 2), (q, 3)], 2: [(esc, 1)]}, {3}),
                       ('BackslashArg', 1, {0: [(bs, 1)], 1: [(ALL & ~bs, 1), (bs, 2)]}, {2}),
                       # blank text and comments; 2 is inside a comment
                       (TRIVIA, 1, {0: [(ws, 1), (bits(b'/'), 3)], 1: [(ws, 1), (bits(b'/'), 3)], 3: [(bits(b'/'), 2)], 2: [(ALL & ~nl, 2), (nl, 1)]}, {1, 2})]
        self.start = frozenset((i, 0) for i in range(len(self.rules)))
        self.memo = {}; self.acc_memo = {}; self.live_memo = {}
    def step(self, q, b):
        k = (q, b); r = self.memo.get(k)
        if r is None:
            out = set()
            for i, s in q:
                for m, t in self.rules[i][2].get(s, ()):
                    if m >> b & 1: out.add((i, t))
            r = self.memo[k] = frozenset(out)
        return r
    def accept(self, q):
        """name of the token the consumed bytes are, or None"""
        r = self.acc_memo.get(q, 0)
        if r == 0:
            best = None
            for i, s in q:
                n, p, _, acc = self.rules[i]
                if s in acc and (best is None or p > best[0]): best = (p, n)
            r = self.acc_memo[q] = best[1] if best else None
        return r
    def live(self, q):
        """can more input still make a token?"""
        r = self.live_memo.get(q)
        if r is None:
            seen = {q}; work = [q]; r = False
            while work and not r:
                x = work.pop()
                for b in range(0, 256):
                    y = self.step(x, b)
                    if not y or y in seen: continue
                    if self.accept(y): r = True; break
                    seen.add(y); work.append(y)
            self.live_memo[q] = r
        return r
    def comment(self, q):
        return any(self.rules[i][0] == TRIVIA and s == 2 for i, s in q)

# UTF-8: state 0 = at a character boundary, otherwise (allowed next bytes, following state)
CONT = bits(range(0x80, 0xC0))
U = {0: [(bits(range(0x80)), 0), (bits(range(0xC2, 0xE0)), 1), (1 << 0xE0, 3), (bits(list(range(0xE1, 0xED)) + [0xEE, 0xEF]), 2), (1 << 0xED, 4), (1 << 0xF0, 6),
         (bits(range(0xF1, 0xF4)), 5), (1 << 0xF4, 7)],
     1: [(CONT, 0)], 2: [(CONT, 1)], 3: [(bits(range(0xA0, 0xC0)), 1)], 4: [(bits(range(0x80, 0xA0)), 1)],
     5: [(CONT, 2)], 6: [(bits(range(0x90, 0xC0)), 2)], 7: [(bits(range(0x80, 0x90)), 2)]}

class Undecided(Exception): pass

class Conf:
    """L: what is known of the input from where this function started (byte sets, '?' an unknown byte, 'E' the end);
    b: bytes of L consumed; q: reference state after them; u: possible UTF-8 states where L begins; n: how many of L are sets;
    acc: a token the reference has seen on the way"""
    __slots__ = ('L', 'b', 'q', 'u', 'n', 'acc', 'done', 'loc', 'w')
    def copy(self):
        c = Conf(); c.L, c.b, c.q, c.u, c.n, c.acc, c.done, c.w = self.L, self.b, self.q, self.u, self.n, self.acc, self.done, self.w; c.loc = dict(self.loc); return c
    def with_(self, **k):
        c = self.copy()
        for a, v in k.items(): setattr(c, a, v)
        return c
    def key(self): return (self.L[self.b:], self.q, self.u, self.n - self.b, self.acc)

class Lex:
    def __init__(self, P, report):
        self.P = P; self.report = report; self.ref = Ref(); self.events = []; self.nsteps = 0; self.ncov = 0; self.limit = 40000000
        self.kinds = [v['n'] for v in P.variants(KIND)]
        self.prefix = None
        for n in P.F:
            m = re.match(r"<%s as logos::Logos<'\w+>>::lex::" % re.escape(KIND), n)
            if m: self.prefix = m.group(0)
        self.entry = [n for n in P.F if re.match(r"<%s as logos::Logos<'\w+>>::lex$" % re.escape(KIND), n)]
        if not self.entry: raise Undecided('no generated lexer')
        self.seen = set(); self.work = []; self.tokens = {}; self.calls = {}
    # -------------------------------------------------------- exploration
    def run(self):
        c = Conf(); c.L = (); c.b = 0; c.q = self.ref.start; c.u = frozenset({0}); c.n = 0; c.acc = None; c.done = False; c.loc = {}; c.w = ''
        self.push(self.entry[0], c)
        while self.work:
            fn, c = self.work.pop()
            self.fn = fn
            for v, c2 in self.call(fn, ['LEX'], c):
                if not c2.done: raise Undecided('%s returns without a token' % fn.split('::')[-1])
        return self
    def push(self, fn, c):
        d = Conf(); d.L = c.L[c.b:]; d.b = 0; d.q = c.q; d.u = self.after(c, c.b); d.n = max(0, c.n - c.b); d.acc = c.acc; d.done = False; d.loc = {}; d.w = c.w
        if c.n < c.b: raise Undecided('consumed bytes that were not looked at')
        d.L = self.forget(d.L, d.q)
        k = (fn, d.key())
        if k not in self.seen: self.seen.add(k); self.work.append((fn, d))
    def forget(self, L, q):
        """drop what is known of the amount of input where it cannot matter: no token being matched is that long"""
        if '?' not in L: return L
        far = max([len(self.ref.rules[i][2]) - s if self.ref.rules[i][1] == 2 else 2 for i, s in q] or [0])
        return L if L[-1] == 'E' and len(L) <= far + 1 else L[:L.index('?')]
    def call(self, fn, args, conf):
        f = self.P.F.get(fn)
        if f is None: raise Undecided('no body of ' + fn)
        c0 = conf.with_(loc={i + 1: a for i, a in enumerate(args)})
        outs = []; work = [(0, c0)]; seen = set(); top = args == ['LEX']
        while work:
            b, c = work.pop(); self.nsteps += 1
            if self.nsteps > self.limit: raise Undecided('too many steps')
            for c, t in self.block(f, b, c):
                if t == 'return': r = c.copy(); v = r.loc.get(0); r.loc = conf.loc; outs.append((v, r)); continue
                if t <= b and top:      # a loop: forget what lies behind, and do not repeat a round from the same situation
                    c = self.rebase(c); k = (t, c.key(), tuple(sorted(c.loc.items(), key=lambda x: x[0])))
                    if k in seen: continue
                    seen.add(k)
                work.append((t, c))
        return outs
    def rebase(self, c):
        o = c.b; d = c.copy(); far = 0
        for l, v in list(d.loc.items()):
            if isinstance(v, tuple) and v[0] in ('fb', 'S'):
                if v[1] < o: d.loc.pop(l)
                else: d.loc[l] = (v[0], v[1] - o) + v[2:]; far = 1
            elif isinstance(v, tuple) and v[0] in ('v', 't') and any(isinstance(x, tuple) for x in v[-1]): d.loc.pop(l)
        if c.n < o: raise Undecided('consumed bytes that were not looked at')
        d.u = self.after(c, o); d.L = c.L[o:]; d.n = c.n - o; d.b = 0
        if not far: d.L = self.forget(d.L, d.q)
        return d
    def block(self, f, bi, c):
        b = f['blocks'][bi]; c = c.copy()
        for s in b['s']:
            if s[0] == 'dead': c.loc.pop(s[1], None); continue
            if s[0] != '=': raise Undecided('statement ' + s[0])
            if s[1][1]: raise Undecided('write into a part of a value')
            c.loc[s[1][0]] = self.rvalue(s[2], c)
        return self.term(f, b['t'], c)
    def term(self, f, t, c):
        k = t[0]
        if k == 'goto': return [(c, t[1])]
        if k == 'return': return [(c, 'return')]
        if k == 'unreachable': return []
        if k == 'drop': return [(c, t[2])]
        if k == 'assert':
            out = []
            for v, c2 in self.conc(self.operand(t[1], c), c):
                if bool(v) != bool(t[2]): raise Undecided('an assertion of the generated code can fail')
                out.append((c2, t[3]))
            return out
        if k == 'switch':
            out = []
            to = {val: b for val, b in reversed(t[2])}
            for tgt, c2 in self.conc(self.mapv(self.operand(t[1], c), lambda x: to.get(x, t[3])), c): out.append((c2, tgt))
            return out
        if k == 'call':
            const = t[1]; v = const[1].get('v', {}) if const[0] == 'k' else {}
            if 'inst' not in v: raise Undecided('an indirect call')
            out = []
            for r, c2 in self.op(v, [self.operand(a, c) for a in t[2]], c):
                c3 = c2.copy()
                if t[3][1]: raise Undecided('call result into a part')
                c3.loc[t[3][0]] = r; out.append((c3, t[4]))
            return out
        raise Undecided('terminator ' + k)
    # -------------------------------------------------------- values
    def cval(self, v):
        if 'ref' in v: return self.cval(v['ref'])
        if 'int' in v: return v['int']
        if 'array' in v: return ('A', tuple(self.cval(x) for x in v['array']))
        if 'adt' in v: return ('v', v['v'], tuple(self.cval(x) for x in v.get('f', ())))
        if 'tuple' in v: return ('t', tuple(self.cval(x) for x in v['tuple']))
        if 'bytes' in v: return ('A', tuple(v['bytes']))
        if 'closure' in v or 'inst' in v: return ('fn', v.get('inst') or v.get('closure'), v)
        raise Undecided('constant %s' % str(v)[:60])
    CC = {}
    def operand(self, o, c):
        if o[0] in ('c', 'm'): return self.place(o[1], c)
        if o[0] == 'k':
            k = id(o)
            if k not in self.CC: self.CC[k] = (o, self.cval(o[1].get('v', {})))
            return self.CC[k][1]
        raise Undecided('operand ' + str(o[0]))
    def byte(self, c, p): return ('fb', p, IDENT)
    def place(self, pl, c):
        v = c.loc.get(pl[0])
        for e in pl[1]:
            if v is None: raise Undecided('an unknown value')
            if e[0] == '*':
                if isinstance(v, tuple) and v[0] == 'R': v = c.loc.get(v[1])
            elif e[0] == 'f':
                if isinstance(v, tuple) and v[0] in ('v', 'clo'): v = v[2][e[1]]
                elif isinstance(v, tuple) and v[0] == 'fb': v = ('fb', v[1], tuple(x[2][e[1]] if isinstance(x, tuple) and x[0] == 'v' and e[1] < len(x[2]) else BAD for x in v[2]))
                elif isinstance(v, tuple) and v[0] == 't': v = v[1][e[1]]
                else: raise Undecided('field of ' + str(v)[:40])
            elif e[0] == 'dc': pass
            elif e[0] == 'i': v = self.index(v, c.loc.get(e[1]))
            elif e[0] == 'ci':
                if e[3]: raise Undecided('index from the end')
                v = self.index(v, e[1])
            else: raise Undecided('place ' + e[0])
        return v
    def index(self, v, i):
        if isinstance(v, tuple) and v[0] == 'S' and isinstance(i, int): return ('fb', v[1] + i, IDENT)
        if isinstance(v, tuple) and v[0] == 'A':
            if isinstance(i, int): return v[1][i]
            if isinstance(i, tuple) and i[0] == 'fb': return ('fb', i[1], tuple(v[1][x] if isinstance(x, int) and x < len(v[1]) else BAD for x in i[2]))
        raise Undecided('index')
    def conc(self, v, c):
        """concrete cases of a value"""
        if isinstance(v, int): return [(v, c)]
        if isinstance(v, tuple) and v[0] == 'fb':
            out = []
            for c2 in self.known(c, v[1]):
                m = c2.L[v[1]]; groups = {}
                for b in members(m): groups[v[2][b]] = groups.get(v[2][b], 0) | 1 << b
                for x, g in groups.items():
                    if x == BAD: raise Undecided('index out of range')
                    c3 = c2 if g == m else c2.with_(L=c2.L[:v[1]] + (g,) + c2.L[v[1] + 1:])
                    if self.feasible(c3): out.append((x, c3))
            return out
        raise Undecided('no concrete value: ' + str(v)[:60])
    def known(self, c, p):
        """the configuration in which the bytes up to place p of L are sets"""
        while c.n <= p:
            if c.L[c.n] == 'E': raise Undecided('reads past the end')
            us = self.after(c, c.n); m = 0
            for u in us:
                for x, _ in U[u]: m |= x
            c = c.with_(L=c.L[:c.n] + (m,) + c.L[c.n + 1:], n=c.n + 1)
        return [c] if self.feasible(c) else []
    AF = {}
    def ustep(self, us, m):
        k = (us, m); r = self.AF.get(k)
        if r is None: r = self.AF[k] = frozenset(t for u in us for x, t in U[u] if x & m)
        return r
    def after(self, c, i):
        """possible UTF-8 states after i bytes of L"""
        us = c.u
        for m in c.L[:i]: us = self.ustep(us, m) if m != '?' else frozenset(U)
        return us
    def feasible(self, c):
        us = c.u
        for m in c.L:
            if m == '?': return True
            if m == 'E': return 0 in us
            us = self.ustep(us, m)
            if not us: return False
        return True
    def rvalue(self, r, c):
        k = r[0]
        if k == 'use': return self.operand(r[1], c)
        if k == 'ref':
            pl = r[1]
            if not pl[1]: return c.loc[pl[0]] if c.loc.get(pl[0]) == 'LEX' else ('R', pl[0])
            if pl[1] == [['*']]: return c.loc[pl[0]]
            raise Undecided('reference to a part')
        if k == 'discr':
            v = self.place(r[1], c)
            return self.mapv(v, lambda x: x[1] if isinstance(x, tuple) and x[0] == 'v' else x)
        if k == 'cast':
            v = self.operand(r[2], c); w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(r[3])
            if w is None: raise Undecided('cast to ' + str(r[3]))
            return self.mapv(v, lambda x: x & ((1 << w) - 1))
        if k == 'bin':
            a, b = self.operand(r[2], c), self.operand(r[3], c)
            if isinstance(a, tuple) and isinstance(b, tuple) and (a[0] != 'fb' or b[0] != 'fb' or a[1] != b[1]): raise Undecided('operation on two bytes')
            f = BIN.get(r[1])
            if f is None: raise Undecided('operation ' + r[1])
            if isinstance(a, tuple) and isinstance(b, tuple): return ('fb', a[1], tuple(f(x, y) for x, y in zip(a[2], b[2])))
            if isinstance(a, tuple): return self.mapv(a, lambda x: f(x, b))
            return self.mapv(b, lambda y: f(a, y))
        if k == 'un':
            v = self.operand(r[2], c)
            if r[1] == 'Not': return self.mapv(v, lambda x: 1 - x)
            raise Undecided('operation ' + r[1])
        if k == 'agg':
            kind = r[1]
            if kind[0] == 'adt': return ('v', kind[2], tuple(self.operand(o, c) for o in r[2]))
            if kind[0] == 'tuple': return ('t', tuple(self.operand(o, c) for o in r[2]))
            if kind[0] == 'closure': return ('clo', kind[1], tuple(self.operand(o, c) for o in r[2]))
        raise Undecided('value ' + k)
    def mapv(self, v, f):
        if isinstance(v, tuple) and v[0] == 'fb': return ('fb', v[1], tuple(f(x) if x != BAD else BAD for x in v[2]))
        return f(v)
    # -------------------------------------------------------- the lexer's operations
    def op(self, v, args, c):
        fn, inst = v['fn'], v['inst']; meth = fn.split('::')[-1]
        if fn.startswith('logos::internal::LexerInternal'):
            if meth in ('read', 'read_at', 'test', 'test_at'):
                ty = (v.get('targs') or ['', ''])[1]
                m = re.search(r'&\S* ?\[u8; (\d+)\]|\[u8; (\d+)\]', ty); n = int(m.group(1) or m.group(2)) if m else 1 if ty == 'u8' else None
                if n is None: raise Undecided('reads a ' + ty)
                off = args[1] if meth.endswith('_at') else 0
                out = []
                for ok, c2 in self.ensure(c, off, n):
                    x = self.byte(c2, c2.b + off) if not m else ('S', c2.b + off, n)
                    if meth.startswith('read'): out.append((('v', 1, (x,)) if ok else ('v', 0, ()), c2)); continue
                    if not ok: out.append((0, c2)); continue
                    out.extend(self.apply(args[-1], [x], c2))
                return out
            if meth == 'bump_unchecked':
                out = [c]
                for _ in range(args[1]): out = [d for x in out for d in self.consume(x)]
                return [(None, d) for d in out]
            if c.done: raise Undecided('two results of one token')
            if meth == 'set':
                res = []
                for k, c2 in self.kindof(args[1], c): self.token(k, c2); res.append((None, c2.with_(done=True)))
                return res
            if meth == 'error': self.error(c); return [(None, c.with_(done=True))]
            if meth == 'end': self.end(c); return [(None, c.with_(done=True))]
            if meth == 'trivia': self.trivia(c); return [(None, c.with_(done=True))]
            raise Undecided('lexer operation ' + meth)
        if fn.startswith('logos::internal::CallbackResult'):
            ty = v['targs'][0]
            if ty == 'logos::Skip': self.trivia(c); return [(None, c.with_(done=True))]
            if ty == 'bool':
                clo = args[1]
                for k, c2 in self.apply(clo, [('t', ())], c): self.callback(args[0], k, c2)
                return [(None, c.with_(done=True))]
            raise Undecided('callback yielding ' + ty)
        if fn == 'logos::skip': return [(None, c)]
        if inst.startswith(self.prefix or '!'):
            f = self.P.F.get(inst)
            if f is None: raise Undecided('no body of ' + inst)
            if args and args[0] == 'LEX':
                if c.done: raise Undecided('work after a token is complete')
                self.push(inst, c); return [(None, c.with_(done=True))]
            if len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'fb': return self.table(inst, args[0], c)
            return self.call(inst, args, c)
        if fn == 'core::num::<impl u64>::checked_shl':
            return [(self.mapv(args[1], lambda x: ('v', 1, ((args[0] << x) & (2**64 - 1),)) if x < 64 else ('v', 0, ())), c)]
        m = re.match(r'core::num::<impl u(8|64|16|32|size)>::(\w+)$', fn)
        if m and m.group(2) in ('wrapping_sub', 'wrapping_add', 'wrapping_shl', 'wrapping_shr') and len(args) == 2 and isinstance(args[1], int):
            w = 64 if m.group(1) == 'size' else int(m.group(1)); k = args[1]
            g = {'wrapping_sub': lambda x: x - k, 'wrapping_add': lambda x: x + k, 'wrapping_shl': lambda x: x << k % w, 'wrapping_shr': lambda x: x >> k % w}[m.group(2)]
            return [(self.mapv(args[0], lambda x: g(x) & ((1 << w) - 1)), c)]
        f = self.P.F.get(inst)
        if f and args == ['LEX'] and f['locals'][0] == 'bool':
            if self.calls.setdefault(inst, self.ref_state(c)) != self.ref_state(c): raise Undecided('a callback used in two places')
            return [(('cb', inst), c)]
        raise Undecided('call of ' + fn)
    def ref_state(self, c): return c.q
    PT = {}
    def table(self, inst, arg, c):
        """a function of one byte, as a table"""
        t = self.PT.get(inst)
        if t is None:
            t = []
            for b in range(256):
                outs = self.call(inst, [b], c)
                if len(outs) != 1 or outs[0][1].done: raise Undecided('a test of a byte has several results')
                t.append(outs[0][0])
            t = self.PT[inst] = tuple(t)
        return [(('fb', arg[1], tuple(t[x] if x != BAD else BAD for x in arg[2])), c)]
    def apply(self, f, args, c):
        if isinstance(f, tuple) and f[0] == 'clo':
            n = [k for k in self.P.F if k == f[1]]
            if not n: raise Undecided('closure')
            return self.call(n[0], [f] + args, c)
        if isinstance(f, tuple) and f[0] == 'fn': return self.table(f[1], args[0], c) if len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == 'fb' else self.call(f[1], args, c)
        raise Undecided('applies ' + str(f)[:40])
    def kindof(self, v, c):
        if isinstance(v, tuple) and v[0] == 'v': return [(self.kinds[v[1]], c)]
        raise Undecided('a token kind that is not constant')
    def ensure(self, c, off, n):
        """is there input for `n` bytes from `off` on?"""
        need = c.b + off + n; have = len(c.L)
        if c.L and c.L[-1] == 'E': return [(have - 1 >= need, c)]
        if have >= need: return [(True, c)]
        out = [(True, c.with_(L=c.L + ('?',) * (need - have)))]
        for j in range(have, need):
            d = c.with_(L=c.L + ('?',) * (j - have) + ('E',))
            if self.feasible(d): out.append((False, d))
        return out
    def consume(self, c):
        out = []
        for d in self.known(c, c.b) if c.b < len(c.L) else self.fail('consumes what it has not read'):
            m = d.L[d.b]; groups = {}
            for b in members(m): t = self.ref.step(d.q, b); groups[t] = groups.get(t, 0) | 1 << b
            for t, g in groups.items():
                e = d.with_(L=d.L[:d.b] + (g,) + d.L[d.b + 1:], b=d.b + 1, q=t, w=(d.w + self.one(g))[-24:])
                if not self.feasible(e): continue
                if self.ref.accept(t): e.acc = self.ref.accept(t)
                out.append(e)
        return out
    def fail(self, m): raise Undecided(m)
    # -------------------------------------------------------- judging
    def rest(self, c, q):
        """names of longer tokens some input consistent with what is known has"""
        out = set(); states = {q}; i = c.b
        while i < len(c.L) and states:
            x = c.L[i]
            if x == 'E': return out
            nx = set()
            for s in states:
                for b in (members(x) if x != '?' else range(256)):
                    t = self.ref.step(s, b)
                    if t:
                        nx.add(t)
                        if self.ref.accept(t): out.add(self.ref.accept(t))
            states = nx; i += 1
        for s in states:
            if s and self.ref.live(s): out.update(self.ref.rules[i][0] for i, _ in s)
        return out
    def one(self, m):
        b = next((b for b in range(32, 127) if m >> b & 1), None)
        return chr(b) if b is not None else '\\n' if m >> 10 & 1 else '\\t' if m >> 9 & 1 else '·'
    def show(self, c):
        """an example of the text"""
        return '"%s" before "%s"' % (c.w, ''.join('?' if x == '?' else '<end>' if x == 'E' else self.one(x) for x in c.L[c.b:])[:20])
    def token(self, kind, c):
        self.ncov += 1
        self.tokens[kind] = self.tokens.get(kind, 0) + 1
        if kind == 'Error': return self.error(c)
        want = self.ref.accept(c.q)
        if want != kind: self.report('token ' + kind, 'text that is %s is recognised as %s: %s' % ('a %s token' % want if want else 'no token', kind, self.show(c))); return
        more = self.rest(c, c.q) - {None}
        if more: self.report('short ' + kind, 'a %s token ends although the text goes on to be a longer one (%s): %s' % (kind, ', '.join(sorted(more))[:80], self.show(c)))
    def error(self, c):
        self.ncov += 1
        if c.acc: self.report('error ' + c.acc, 'text that starts with a %s token is reported as unrecognised: %s' % (c.acc, self.show(c))); return
        more = self.rest(c, c.q)
        if more: self.report('error ' + ','.join(sorted(more))[:60], 'text that can be a %s token is reported as unrecognised (%s)' % (', '.join(sorted(more))[:80], self.show(c)))
        if c.q == self.ref.start: self.report('error empty', 'an error consumes no input: the lexer does not advance')
    def end(self, c):
        self.ncov += 1
        if c.L[c.b:] != ('E',) or c.q != self.ref.start: self.report('end', 'lexing ends before the input does')
    def trivia(self, c):
        self.ncov += 1
        self.tokens[TRIVIA] = self.tokens.get(TRIVIA, 0) + 1
        if self.ref.accept(c.q) != TRIVIA: self.report('skip', 'text that is %s is skipped' % ('a %s token' % self.ref.accept(c.q) if self.ref.accept(c.q) else 'no blank or comment')); return
        if self.ref.comment(c.q):
            nl = bits(b'\r\n'); x = c.L[c.b] if c.b < len(c.L) else '?'
            if x != 'E' and (x == '?' or x & ~nl): self.report('comment', 'a comment ends before the end of its line: %s' % self.show(c))
    def callback(self, v, k, c):
        kind = self.kinds[k[1]]; self.ncov += 1; self.tokens[kind] = self.tokens.get(kind, 0) + 1
        if not (isinstance(v, tuple) and v[0] == 'cb'): raise Undecided('callback result')
        names = {self.ref.rules[i][0] for i, _ in c.q}
        if kind not in names: self.report('token ' + kind, 'text that can%s is scanned as a %s' % (' be ' + '/'.join(sorted(names)) if names else 'not be a token', kind)); return
        self.events.append((v[1], kind, c.q))
        if c.L[c.b:]: self.rest_known = True

BAD = ('bad',)
IDENT = tuple(range(256))
BIN = {'Lt': lambda a, b: int(a < b), 'Le': lambda a, b: int(a <= b), 'Gt': lambda a, b: int(a > b), 'Ge': lambda a, b: int(a >= b), 'Eq': lambda a, b: int(a == b), 'Ne': lambda a, b: int(a != b),
       'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b, 'Sub': lambda a, b: a - b, 'Add': lambda a, b: a + b, 'Shl': lambda a, b: (a << b) & (2**64 - 1), 'Shr': lambda a, b: a >> b}

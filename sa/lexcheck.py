"""C20: the generated byte automaton, the hand-written scanners of delimited tokens, and the token stream above them."""
import contextlib, traceback
import lexer, models
from engine import *
from lexer import Undecided, SPELL

TI = 'dice_syntax::lexer::token::TokenIter'
ERR = 'dice_core::error::Error'
CLS = [ord(c) for c in '"\\nrt']
# reference automata over characters: state -> class -> state; classes are code points, None = any other character
REFS = {'String': {0: {34: 2, 92: 1, None: 0}, 1: {34: 0, 92: 0, 110: 0, 114: 0, 116: 0, None: 3}},
        'BackslashArg': {0: {92: 2, None: 0}}}
CLOSED, BADESC = 2, 3
def rstep(ref, q, c):
    t = ref.get(q)
    if t is None: return q       # closed or broken: stays
    return t[c] if c in t else t[None]

class Scan:
    """a callback run over a text of unknown characters"""
    def __init__(self, P, fn, kind, q0=0):
        self.P = P; self.fn = fn; self.kind = kind; self.ref = REFS[kind]; self.seen = set(); self.over = False; self.rounds = 0
    def run(self):
        E = self.E = Engine(self.P, 2000000); models.install(E); E.hooks = [self.hook]; E.mergelimit = 10**9; E.rebase = self.rebase; E.generic_rounds = 0
        st = State(); f = self.P.F[self.fn]
        st.facts[('lx',)] = (frozenset({0}), I(0), 0)
        args = []
        for i in range(1, f['argc'] + 1):
            ty = f['locals'][i]
            args.append(E.mk(('arg', i), ty))
        return E, E.call_body_rec(st, self.fn, args, 0)
    # ---- the text
    def chr(self, ep, i): return ('i', 0, ((self.E.sym(('chr', ep, i), 'char'), 1),))
    def known(self, st, c):
        lo, hi = self.E.bounds(st, c); return lo if lo is not None and lo == hi else None
    def isclass(self, st, c, k):
        """True/False/None: is character c the code point k?"""
        return self.E.decide(st, self.E.eq0(lin_add(c, I(-k))))
    def width(self, st, c):
        k = self.known(st, c)
        if k is not None: return I(len(chr(k).encode()))
        s = self.E.sym(('width', c), 'usize'); w = ('i', 0, ((s, 1),)); self.E.setrange(st, w, 1, 4); return w
    def norm(self, st, v):
        """widths of characters that have become known"""
        r = I(v[1])
        for s, k in v[2]:
            t = self.E.tlist[s]
            r = lin_add(r, self.width(st, t[1]) if t[0] == 'width' else ('i', 0, ((s, 1),)), k)
        return r
    def off(self, st, i):
        q, P, ep = st.facts[('lx',)]; r = self.norm(st, P)
        for j in range(i): r = lin_add(r, self.width(st, self.chr(ep, j)))
        return r
    def look(self, st, i):
        """[(state, is there a character i)]"""
        q, P, ep = st.facts[('lx',)]
        for j in range(i + 1):
            x = st.facts.get(('tx', j))
            if x == 'end': return [(st, False)]
        if st.facts.get(('tx', i)) == 'c': return [(st, True)]
        for j in range(i): st.facts[('tx', j)] = 'c'
        a, b = st.fork(), st
        a.facts[('tx', i)] = 'c'; b.facts[('tx', i)] = 'end'
        return [(a, True), (b, False)]
    def states(self, st, i):
        """reference states after i characters"""
        q, P, ep = st.facts[('lx',)]; q = set(q)
        for j in range(i):
            c = self.chr(ep, j); n = set()
            for s in q:
                t = self.ref.get(s)
                if t is None: n.add(s); continue
                ks = [k for k in t if k is not None and self.isclass(st, c, k) is True]
                if ks: n.add(t[ks[0]]); continue
                for k, to in t.items():
                    if k is None or self.isclass(st, c, k) is None: n.add(to)
            q = n
        return frozenset(q)
    # ---- calls
    def hook(self, E, st, callee, args, dty, d, where):
        fn = callee.get('fn') or ''; df = callee.get('def') or ''; inst = callee.get('inst') or ''; meth = callee.get('meth') or fn.split('::')[-1]
        q, P, ep = st.facts[('lx',)]
        if df.startswith('logos::lexer::Lexer') or fn.startswith('logos::lexer::Lexer'):
            if meth == 'remainder': return [('ret', st, ('adt', '~rem', 0, (I(ep),)))]
            if meth == 'bump': st.event(('bump', args[1])); return [('ret', st, UNIT)]
            return None
        if inst.endswith('LexerResult::set_error'): st.event(('err', E.freeze(st, args[1]))); return [('ret', st, UNIT)]
        a0 = E.strip(st, args[0]) if args else None
        if a0 is not None and a0[0] == 'adt' and a0[1] == '~rem':
            if meth in ('chars', 'char_indices'): return [('ret', st, ('adt', '~chars', int(meth != 'chars'), (a0[3][0], I(0))))]
            if meth == 'is_empty':
                return [('ret', s, ('b', not ok)) for s, ok in self.look(st, 0)]
            if meth == 'find' and len(args) == 2 and is_i(args[1]) and not args[1][2]: return self.find(st, args[1][1], dty)
            if meth in ('to_owned', 'to_string', 'from'): return [('ret', st, ('s', E.sym(('text', st.ctr), dty)))]
            raise Undecided('reads the text by ' + meth)
        if a0 is not None and a0[0] == 'adt' and a0[1] == '~chars':
            loc = E.loc(st, args[0]) if E.isref(args[0]) else None
            if meth in ('into_iter', 'by_ref', 'clone', 'peekable'): return [('ret', st, a0 if meth != 'by_ref' else args[0])]
            if a0[3][0] != I(ep): raise Undecided('a stale iterator')
            i = a0[3][1][1]
            if meth in ('next', 'peek', 'next_if_eq', 'next_if') and loc is not None:
                out = []
                for s, ok in self.look(st, i):
                    if not ok: out.append(('ret', s, ('adt', dty, 0, ()))); continue
                    c = self.chr(ep, i); v = c if not a0[2] else ('tup', (self.off(s, i), c))
                    if meth == 'next': E.write(s, loc[0], loc[1], ('adt', '~chars', a0[2], (a0[3][0], I(i + 1)))); out.append(('ret', s, ('adt', dty, 1, (v,)))); continue
                    if meth == 'peek': out.append(('ret', s, ('adt', dty, 1, (('box', v),)))); continue
                    raise Undecided('reads the text by ' + meth)
                return out
            if meth == 'as_str' : raise Undecided('the rest of the iterator')
            raise Undecided('reads the text by ' + meth)
        if meth == 'len_utf8' and args and is_i(a0): return [('ret', st, self.width(st, a0))]
        if 'string::String' in df + fn and meth in ('new', 'with_capacity', 'default'): return [('ret', st, ('adt', '~str', 0, (I(0),)))]
        if a0 is not None and a0[0] == 'adt' and a0[1] == '~str':
            if meth in ('len', 'capacity'): return [('ret', st, a0[3][0] if meth == 'len' and a0[3][0] is not None else E.fresh(st, 'len', 'usize'))]
            if meth in ('push', 'push_str', 'clear', 'truncate', 'reserve', 'pop'):
                loc = E.loc(st, args[0]); n = a0[3][0]
                E.write(st, loc[0], loc[1], ('adt', '~str', 0, (lin_add(n, self.width(st, args[1])) if meth == 'push' and n is not None and is_i(args[1]) else I(0) if meth == 'clear' else n if meth == 'reserve' else None,)))
                return [('ret', st, UNIT if meth != 'pop' else E.fresh(st, 'pop', dty))]
            if meth in ('as_str', 'deref', 'as_ref', 'clone', 'as_bytes'): return [('ret', st, ('s', E.sym(('built', st.ctr), dty)))]
        if df.endswith('fmt::format') or 'must_use' in fn or fn.startswith('core::fmt::') or meth in ('to_string',): return [('ret', st, E.mk(('text', tuple(E.freeze(st, a) for a in args)), dty))]
        return None
    def find(self, st, k, dty):
        """first occurrence of a character"""
        q, P, ep = st.facts[('lx',)]; E = self.E
        if any(key[0] == 'tx' for key in st.facts): raise Undecided('searches after reading')
        q = set(q); work = list(q)
        while work:
            s = work.pop(); t = self.ref.get(s)
            for c in ([s] if t is None else [to for cl, to in t.items() if cl != k]):
                if c not in q: q.add(c); work.append(c)
        n = st.fork(); n.facts[('lx',)] = (frozenset(q), P, ep); n.facts[('tx', 0)] = 'end'
        y = st; pos = ('i', 0, ((E.sym(('found', ep), 'usize'), 1),)); y.facts[('lx',)] = (frozenset(q), pos, ep + 1); y.facts[('tx', 0)] = 'c'
        E.assume(y, E.eq0(lin_add(self.chr(ep + 1, 0), I(-k))), True)
        return [('ret', n, ('adt', dty, 0, ())), ('ret', y, ('adt', dty, 1, (pos,)))]
    # ---- loops: express what is carried around relative to the position, and stop at a repeated situation
    def rebase(self, E, head, st, name, d, h, u):
        q, P, ep = st.facts[('lx',)]; live = self.P.cfg(name)['live'][h]; loc = self.P.F[name]['locals']
        its = []
        def iters(v):
            if type(v) is tuple:
                if len(v) == 4 and v[0] == 'adt' and v[1] == '~chars': its.append(v)
                else:
                    for x in v: iters(x)
        frames = {c for c in st.mem if isinstance(c[0], int)}
        for c, v in st.mem.items():
            if c in frames and c[0] == d and c[1] not in live: continue
            iters(v)
        its = [v for v in its if v[3][0] == I(ep)]
        if not its: raise Undecided('a loop without an iterator over the text')
        k = min(v[3][1][1] for v in its)
        if u > 24: raise Undecided('a loop that does not settle')
        tot = self.off(st, k); nq = self.states(st, k); NP = ('i', 0, ((E.sym(('pos',), 'usize'), 1),)); ne = ep
        fut = []
        j = k
        while st.facts.get(('tx', j)):
            x = st.facts[('tx', j)]; c = self.chr(ep, j)
            fut.append((x, tuple(self.isclass(st, c, cl) for cl in CLS))); j += 1
            if x == 'end': break
        Ps = {s for s, _ in P[2]}
        def drift(c): return ('i', 0, ((E.sym(('drift', str(c)), 'usize'), 1),))
        def conv(v, old, ty, top):
            if type(v) is not tuple: return v
            if v and v[0] == 'i' and len(v) == 3:
                n = self.norm(st, v)
                if old is not None and v == old and not (set(s for s, _ in v[2]) & Ps): return v if not v[2] else None if any(E.tlist[s][0] in ('chr', 'width') for s, _ in v[2]) else v
                if not n[2] and ty not in ('usize', None): return n
                dl = lin_add(n, tot, -1)
                if dl[2] or u > 4 and old is not None and old[0] == 'i' and lin_add(old, P, -1) != dl: return drift(top)
                return lin_add(NP, dl)
            if v and v[0] == 'adt' and v[1] == '~chars': return ('adt', '~chars', v[2], (I(ne), I(v[3][1][1] - k))) if v[3][0] == I(ep) else v
            if v and v[0] == 'adt': return ('adt', v[1], v[2], tuple(conv(x, old[3][i] if type(old) is tuple and old[0] == 'adt' and i < len(old[3]) else None, None, (top, i)) for i, x in enumerate(v[3])))
            if v and v[0] == 'tup': return ('tup', tuple(conv(x, old[1][i] if type(old) is tuple and old[0] == 'tup' and i < len(old[1]) else None, None, (top, i)) for i, x in enumerate(v[1])))
            return v
        mem = {}
        for c, v in st.mem.items():
            if c in frames and c[0] == d and c[1] not in live: continue
            if c in frames and c[0] > d: continue
            x = conv(v, head.mem.get(c), loc[c[1]] if c in frames and c[0] == d else None, c)
            if x is not None: mem[c] = x
        st.mem.clear(); st.mem.update(mem)
        old = st.facts; st.facts = {}
        for key, x in old.items():
            if key[0] in ('tx', 'lx', 'rng', 'val') or 'chr' in str(key) and not isinstance(key, tuple): continue
            if self.mentions(key): continue
            st.facts[key] = x
        st.facts[('lx',)] = (nq, NP, ne)
        for i, (x, cl) in enumerate(fut):
            st.facts[('tx', i)] = x
            c = self.chr(ne, i)
            for kk, b in zip(CLS, cl):
                if b is not None: E.assume(st, E.eq0(lin_add(c, I(-kk))), b)
        key = (name, h, nq, tuple(fut), tuple(sorted((str(c), str(E.freeze(st, v))) for c, v in st.mem.items() if c in frames)), tuple(e for e in st.events()))
        if key in self.seen: return None
        self.seen.add(key); return st
    def mentions(self, key):
        """does a fact speak of a character or a width?"""
        E = self.E
        def go(x):
            if type(x) is tuple:
                if len(x) == 3 and x[0] == 'i' and type(x[2]) is tuple:
                    return any(type(p) is tuple and len(p) == 2 and isinstance(p[0], int) and p[0] < len(E.tlist) and E.tlist[p[0]][0] in ('chr', 'width', 'pos', 'found') for p in x[2])
                return any(go(y) for y in x)
            return False
        return go(key)

def scanners(P, res, events, codes, lim, keeps):
    """the functions that find the end of delimited tokens"""
    for fn, kind, q in sorted(set(events), key=str):
        name = 'scanner of %s' % kind; f = P.F.get(fn, {}); w = (name, fn, '%s:%s' % (f.get('file', '?'), f.get('line', '?')))
        try:
            with lim():
                S = Scan(P, fn, kind); E, outs = S.run()
        except Exception:
            res.undecide(name, 'analysis: ' + traceback.format_exc(limit=-2)[-300:], 'C20', 'C11'); continue
        notes = [n for n in E.notes if n not in ('widened', 'loop-sym-override')]
        if E.unknown or notes or not outs: res.undecide(name, 'unmodelled: ' + ', '.join(sorted(map(str, list(E.unknown) + notes)))[:200], 'C20', 'C11'); continue
        res.decide(name, 'C20', 'C11')
        for o in outs:
            res.n('C20', 'paths of scanners'); res.n('C11', 'paths of scanners'); st = o[1]
            if o[0] == 'panic': res.bad('C11', 'panic %s' % kind, 'scanning a %s token can panic: %s' % (kind, str(o[2])[:120]), w); continue
            ev = st.events(); q, p0, ep = st.facts[('lx',)]; n = 0
            while st.facts.get(('tx', n)) == 'c': n += 1
            ended = st.facts.get(('tx', n)) == 'end'; total = I(0); opaque = False
            for e in ev:
                if e[0] == 'bump':
                    if e[1] is None or not is_i(e[1]): opaque = True
                    else: total = lin_add(total, S.norm(st, e[1]))
            errs = [e[1] for e in ev if e[0] == 'err']
            if o[2] is None or o[2][0] != 'b': res.undecide(name, 'an unknown result', 'C20', 'C11'); continue
            at = [i for i in range(n + 1) if S.off(st, i) == total]
            if not opaque and any(E.tlist[s][0] not in ('width', 'pos', 'found', 'drift') for s, _ in total[2]): res.undecide(name, 'an amount of text of unknown origin', 'C20', 'C11'); continue
            if opaque: res.undecide(name, 'an amount of text of unknown origin', 'C20', 'C11'); continue
            if o[2][1]:
                good = [i for i in at if S.states(st, i) == {CLOSED} and (i == 0 or CLOSED not in S.states(st, i - 1)) and (i > 0 or CLOSED not in q)]
                if not good:
                    k = next((i for i in range(n + 1) if S.states(st, i) == {CLOSED}), None)
                    if k is None: res.bad('C20', 'accepts %s' % kind, 'a %s token is recognised although its text is not closed or has an invalid escape' % kind, w)
                    else: res.bad('C20', 'extent %s' % kind, 'a %s token does not end right after its closing delimiter (the lengths of the characters read and of the text skipped differ)' % kind, w); res.bad('C11', 'extent %s' % kind, 'a %s token may end in the middle of a character' % kind, w)
                elif errs: res.bad('C20', 'error %s' % kind, 'a well-formed %s token is reported as an error' % kind, w)
            else:
                if total != I(0) and not at: res.bad('C11', 'bump %s' % kind, 'after a malformed %s token the lexer may stand in the middle of a character' % kind, w)
                qs = S.states(st, n)
                if CLOSED in qs: res.bad('C20', 'rejects %s' % kind, 'a closed %s token is rejected' % kind, w); continue
                if not ended and qs != {BADESC}: res.bad('C20', 'rejects %s' % kind, 'a %s token is rejected before its end is reached' % kind, w); continue
                for e in errs:
                    for part in keeps:
                        x = field(P, e, part)
                        if x is not None and x[0] == 'adt' and (part == 'source_code' and x[2] == 0 or part == 'span' and x[3] and all(y == I(0) for y in x[3])): res.bad('C13', 'error %s' % part, 'an error in a %s token carries no %s' % (kind, part.replace('_code', '')), w)
                    code = field(P, e, 'error_code'); c = codes.get(code[1]) if code is not None and code[0] == 'str' else None
                    want = 'INVALID_ESCAPE_SEQUENCE' if qs == {BADESC} else 'UNTERMINATED_STRING' if kind == 'String' else 'UNTERMINATED_BACKSLASH_ARG'
                    if c is not None and c != want: res.bad('C20', 'code %s' % kind, 'a malformed %s token is reported as %s instead of %s' % (kind, c, want), w)
                if qs == {BADESC} and not errs: res.bad('C20', 'code %s' % kind, 'an invalid escape sequence is not reported as such', w)

def field(P, v, name):
    if v is None or v[0] != 'adt': return None
    t = P.T.get(v[1])
    if not t: return None
    nm = [f[0] for f in t['variants'][v[2]]['f']]
    return v[3][nm.index(name)] if name in nm else None

def automaton(P, res, lim):
    viol = {}
    def rep(k, m): viol.setdefault(k, m)
    L = None
    try:
        with lim():
            L = lexer.Lex(P, rep); w = ('token automaton', L.entry[0].split(' as ')[0].lstrip('<'), P.T.get(lexer.KIND, {}).get('file', 'dice-syntax/src/lexer/token.rs')); L.run()
    except Exception:
        res.undecide('token automaton', 'analysis: ' + traceback.format_exc(limit=-2)[-300:], 'C20', 'C05')
        if L is None: return None
    else:
        for k in SPELL:
            if k in L.kinds and k not in L.tokens: viol.setdefault('missing ' + k, 'no text is recognised as a %s token' % k)
        for k in ('Identifier', 'Integer', 'Float', 'String', 'BackslashArg', 'Reserved'):
            if k in L.kinds and k not in L.tokens: viol.setdefault('missing ' + k, 'no text is recognised as a %s token' % k)
        res.decide('token automaton', 'C20', 'C05')
    res.n('C20', 'situations of the byte automaton', len(L.seen)); res.n('C20', 'recognitions judged', L.ncov)
    from grammar import BINARY, ASSIGN, UNARYOP
    ops = set(BINARY) | set(ASSIGN) | set(UNARYOP)
    for k, m in viol.items():
        res.bad('C20', 'automaton ' + k, m, w)
        if set(k.replace(',', ' ').split()[1:]) & ops or any(' %s token' % o in m for o in ops): res.bad('C05', 'automaton ' + k, m, w)
    res.n('C05', 'operator spellings', len([k for k in ops if k in L.tokens]))
    return L

def check(P, res, codes, lim):
    L = automaton(P, res, lim)
    keeps = stream(P, res, codes, lim)
    if L is not None: scanners(P, res, L.events, codes, lim, keeps)

# ---------------------------------------------------------------- the token stream
LX = 'dice_syntax::lexer::Lexer'
def from_scanner(E, v, n=0):
    """is v (a part of) the error a scanner has left?"""
    if n > 8: return False
    if isinstance(v, int): return 0 <= v < len(E.tlist) and (E.tlist[v][0] == 'lerror' or any(from_scanner(E, x, n + 1) for x in E.tlist[v][1:] if not isinstance(x, int) or 0 <= x < v))
    if type(v) is not tuple or not v: return False
    if v[0] == 's' and len(v) == 2: return from_scanner(E, v[1], n + 1)
    if v[0] == 'i' and len(v) == 3: return any(from_scanner(E, s, n + 1) for s, _ in v[2])
    if v[0] in ('adt', 'tup'): return any(from_scanner(E, x, n + 1) for x in v[-1])
    return False

def stream(P, res, codes, lim):
    import parser as pm
    M = pm.ParserModel(P, 1); keeps = set()
    meth = {}
    for n, f in P.F.items():
        if f.get('crate') == 'dice_syntax' and '#promoted' not in n and '{closure' not in n:
            b = pm.base(n)
            if b.startswith(LX + '::') or b.startswith(LX + '<'): meth[n.split('::')[-1]] = n
    def fields(ty): t = P.T.get(ty); return [x[0] for x in t['variants'][0]['f']]
    def root(name, fn, body, *props):
        f = P.F[fn]; w = (name, fn, '%s:%s' % (f.get('file'), f.get('line')))
        try:
            with lim(): E, outs = body(fn)
        except Exception:
            res.undecide(name, 'analysis: ' + traceback.format_exc(limit=-2)[-300:], *props); return
        notes = [n for n in E.notes if n not in ('widened', 'loop-sym-override')]
        if E.unknown or notes or not outs: res.undecide(name, 'unmodelled: ' + ', '.join(sorted(map(str, list(E.unknown) + notes)))[:200], *props); return
        res.decide(name, *props); ok = []
        for o in outs:
            for p in props: res.n(p, 'paths of the token stream')
            if o[0] == 'panic': res.bad('C11', 'panic', 'reading a token can panic: %s' % str(o[2])[:120], w)
            else: ok.append(o)
        return E, ok, w
    tokty = M.tyname(pm.TOK); tf = fields(tokty) if P.T.get(tokty) else []
    def run(fn):
        E = M.engine(); st = State(); f = P.F[fn]
        lty = E.deref_ty(f['locals'][1])
        E.start = E.sym(('start',), 'pos'); v = []
        for nm, ft in P.T[lty]['variants'][0]['f']:
            v.append(('s', E.start) if 'Peekable<' in ft else M.token(E, ('last', E.start)) if pm.base(ft) == pm.TOK else E.mk(('init', nm), ft))
        st.mem[('R', 'lex')] = ('adt', lty, 0, tuple(v)); E.lty = lty; E.before = dict(zip(fields(lty), v))
        E.args = [('ref', ('R', 'lex'), ())] + [E.mk(('arg', i), f['locals'][i]) for i in range(2, f['argc'] + 1)]
        return E, E.call_body_rec(st, fn, list(E.args), 0)
    def after(E, st, ft):
        v = st.mem[('R', 'lex')]
        if v[0] != 'adt': return None
        for (nm, ty), x in zip(P.T[E.lty]['variants'][0]['f'], v[3]):
            if ft(ty): return x
    def tokof(E, st, v):
        """position whose token v is, 'end' for the end-of-input token, or None"""
        v = E.freeze(st, v)
        if v is None or v[0] != 'adt': return None
        k = v[3][tf.index('kind')]; s = v[3][tf.index('slice')]
        if k[0] == 'adt' and M.kinds[k[2]] == 'EndOfInput': return 'end'
        if k[0] == 's' and E.tlist[k[1]][0] == 'kind':
            p = E.tlist[k[1]][1]
            if E.freeze(st, M.token(E, p)) == v: return p
            return 'mixed'
        return None
    for name in ('next', 'peek', 'consume', 'consume_ident', 'consume_string', 'consume_one_of'):
        if name not in meth or not tf: continue
        r = root('lexer ' + name, meth[name], run, 'C20')
        if not r: continue
        E, outs, w = r
        for o in outs:
            st = o[1]; tk = st.facts.get(('tk', E.start)); v = o[2]
            if v is None or v[0] != 'adt' or len(v[3]) != 1: res.undecide(w[0], 'an unknown result', 'C20'); break
            pos = after(E, st, lambda t: 'Peekable<' in t); cur = after(E, st, lambda t: pm.base(t) == pm.TOK)
            good = v[2] == 0; x = E.strip(st, v[3][0])
            if good and x is not None and x[0] == 'tup': name2 = E.freeze(st, x[1][1]); x = E.strip(st, x[1][0])
            else: name2 = None
            if tk is None: res.bad('C20', 'blind', 'yields a result without looking at the next token', w); continue
            moved = E.sym(('after', E.start), 'pos'); want = E.start if name == 'peek' else moved
            if tk in ('tok', 'err') and pos != ('s', want):
                if not (not good and name != 'next' and name != 'peek'):
                    res.bad('C20', 'position', 'looking at the next token consumes it' if name == 'peek' else 'reads %s the next token' % ('more than' if pos != ('s', E.start) else 'without consuming'), w); continue
            if tk == 'err':
                if good: res.bad('C20', 'error dropped', 'text that is no token is passed over', w)
                continue
            t = tokof(E, st, x) if good else None
            if good and t != (E.start if tk == 'tok' else 'end'):
                if t is None: res.undecide(w[0], 'a token of unknown origin', 'C20'); break
                res.bad('C20', 'token', 'yields a token other than the next one' if tk == 'tok' else 'yields a token after the end of input', w); continue
            if name == 'peek':
                if not good: res.bad('C20', 'rejects', 'peeking at a token fails', w)
                if cur != E.before.get('current', cur): res.bad('C20', 'current', 'peeking changes the current token', w)
                continue
            c = tokof(E, st, cur) if cur is not None else None
            if good and 'current' in E.before and c != t: res.bad('C20', 'current', 'the current token is not the one just read', w)
            if name == 'next':
                if not good: res.bad('C20', 'rejects', 'reading a token fails', w)
                continue
            kind = ('s', M.kindsid(E, E.start)) if tk == 'tok' else ('adt', pm.KIND, M.kix['EndOfInput'], ())
            if name == 'consume_one_of':
                m = [x for k, x in st.facts.items() if 'contains' in E.pfacts({k: x})[0]]
                if len(m) == 1 and bool(m[0]) != good: res.bad('C20', 'accepts', 'a token is accepted although it is not among those asked for, or rejected although it is', w)
                continue
            arg = E.strip(st, E.args[1]) if name == 'consume' else ('adt', pm.KIND, M.kix['Identifier' if name == 'consume_ident' else 'String'], ())
            eq = E.decide(st, E.eqv(st, kind, arg))
            if good and eq is not True: res.bad('C20', 'accepts', 'accepts a token of another kind than asked for', w)
            if not good and eq is not False: res.bad('C20', 'rejects', 'rejects a token of the kind asked for', w)
            if good and name2 is not None and name2 != M.slice(E, E.start):
                if name2[0] == 's' and E.tlist[name2[1]][0] not in ('call', 'n'): res.bad('C20', 'text', 'yields another text than that of the token: %s' % E.pv(name2)[:80], w)
    # ---- tokens from the byte automaton
    def run_iter(fn):
        E = M.engine(); st = State(); f = P.F[fn]
        def hook(E, st, callee, args, dty, d, where):
            df = (callee.get('def') or '') + ' ' + (callee.get('fn') or ''); inst = callee.get('inst') or ''; mth = callee.get('meth') or (callee.get('fn') or '').split('::')[-1]
            if 'logos::lexer::Lexer' in df or 'logos::lexer::Lexer' in inst:
                n = st.aux.get('ln', 0)
                if mth == 'next': st.aux['ln'] = n + 1; return [('ret', st, E.mk(('lnext', n + 1), dty))]
                if mth in ('span', 'slice'): return [('ret', st, E.mk(('l' + mth, n), dty))]
            if inst.endswith('LexerResult::error'):
                n = st.aux.get('le', 0); st.aux['le'] = n + 1; return [('ret', st, E.mk(('lerror', n, st.aux.get('ln', 0)), dty))]
            return None
        E.hooks.insert(0, hook); E.args = [E.mk(('arg', 1), f['locals'][1])]
        return E, E.call_body_rec(st, fn, list(E.args), 0)
    for fn in [n for n in P.F if pm.base(n).startswith('<' + TI) and n.endswith('Iterator>::next')]:
        r = root('token iterator', fn, run_iter, 'C20', 'C13')
        if not r: continue
        E, outs, w = r; src = None
        for o in outs:
            st = o[1]; v = o[2]
            if v is None or v[0] != 'adt': res.undecide(w[0], 'an unknown result', 'C20', 'C13'); break
            n1 = E.sym(('lnext', 1), 'core::option::Option<%s>' % pm.KIND); has = st.facts.get(('var', n1)); has = has if isinstance(has, int) else None
            ers = [(t, st.facts.get(('var', i))) for i, t in enumerate(E.tlist) if t[0] == 'lerror' and isinstance(st.facts.get(('var', i)), int)]
            err = any(x == 1 for t, x in ers)
            if has is None: res.undecide(w[0], 'the next token is not looked at', 'C20', 'C13'); break
            if has == 0:
                if v[2] == 1 and not err: res.bad('C20', 'after end', 'yields a token after the end of the text', w)
                continue
            if v[2] == 0: res.bad('C20', 'token lost', 'ends although there is a further token', w); continue
            x = E.strip(st, v[3][0])
            if x is None or x[0] != 'adt': res.undecide(w[0], 'an unknown result', 'C20', 'C13'); break
            rng = P.T.get('core::ops::range::Range<usize>'); sp = E.freeze(st, E.mk(('lspan', 1), 'core::ops::range::Range<usize>'))
            def isspan(y):
                y = E.freeze(st, y)
                if y is None or y[0] != 'adt' or len(y[3]) != 2: return None
                for c, nm in zip(y[3], (0, 1)):
                    if c is None or not is_i(c): return None
                    if c != E.symfield(sp[1], 0, nm): return False
                return True
            kv = E.symfield(n1, 1, 0)
            isbad = kv[0] == 's' and st.facts.get(('var', kv[1])) == M.kix.get('Error')
            if x[2] == 0:
                if err: res.bad('C20', 'error dropped', 'text with a lexical error becomes a token', w); continue
                t = E.freeze(st, x[3][0])
                if t[0] != 'adt': res.undecide(w[0], 'an unknown token', 'C20', 'C13'); break
                if t[3][tf.index('kind')] != kv: res.bad('C20', 'kind', 'the kind of a token is not the one recognised: %s' % E.pv(t[3][tf.index('kind')])[:60], w)
                if t[3][tf.index('slice')] not in (E.freeze(st, E.mk(('lslice', 1), E.symty[E.terms[('lslice', 1)]])) if ('lslice', 1) in E.terms else None,): res.bad('C20', 'text', 'the text of a token is not the text recognised', w)
                if isspan(t[3][tf.index('span')]) is False: res.bad('C13', 'span', 'the span of a token is not where its text lies', w); res.bad('C20', 'span', 'the span of a token is not where its text lies', w)
            else:
                if not err and not isbad: res.bad('C20', 'error', 'a recognised token is reported as an error', w); continue
                e = E.freeze(st, x[3][0]); s = field(P, e, 'span'); c = field(P, e, 'source_code')
                if s is None: continue
                if from_scanner(E, s): keeps.add('span')
                if from_scanner(E, c): keeps.add('source_code')
                if isspan(s) is False: res.bad('C13', 'error span', 'a lexical error is not reported where its text lies', w)
                if c is not None and c[0] == 'adt' and c[2] == 0: res.bad('C13', 'error source', 'a lexical error carries no source', w)
    # ---- the whole text is lexed
    for fn in [n for n in P.F if pm.base(n).startswith(TI + '::') and n.split('::')[-1] == 'new' and '#' not in n]:
        def run_new(fn):
            E = M.engine(); st = State(); f = P.F[fn]
            def hook(E, st, callee, args, dty, d, where):
                mth = callee.get('meth') or (callee.get('fn') or '').split('::')[-1]; fnm = callee.get('fn') or ''
                if 'Logos' in fnm and mth in ('lexer', 'lexer_with_extras') or 'logos::lexer::Lexer' in fnm and mth in ('new', 'with_extras'):
                    a = [E.freeze(st, x) for x in args]; st.event(('lexes', a[0])); return [('ret', st, E.mk(('logos',), dty))]
                if fnm.endswith('Default::default'): return [('ret', st, E.mk(('default',), dty))]
                return None
            E.hooks.insert(0, hook); E.args = [E.mk(('arg', 1), f['locals'][1])]
            return E, E.call_body_rec(st, fn, list(E.args), 0)
        r = root('token iterator start', fn, run_new, 'C20')
        if not r: continue
        E, outs, w = r
        for o in outs:
            st = o[1]; ev = [e for e in st.events() if e[0] == 'lexes']
            if len(ev) != 1: res.undecide(w[0], 'no single text', 'C20'); break
            t = E.strip(st, ev[0][1]) if E.isref(ev[0][1]) else ev[0][1]; ok = True
            if t is None or t[0] in ('str',): ok = False
            elif t[0] == 's':
                x = E.tlist[t[1]]
                while x[0] == '*': x = E.tlist[x[1]]
                if x[0] in ('call', 'strop', 'substr', 'inner'): ok = False if x[0] != 'call' or any(k in str(x[1]) for k in ('trim', 'index', 'get', 'split')) else None
            else: ok = None
            if ok is None: res.undecide(w[0], 'the text is of unknown origin', 'C20'); break
            if not ok: res.bad('C20', 'text', 'not the whole source text is lexed: %s' % E.pv(t)[:80], w)
    # ---- errors of a scanner are reported once
    for fn in [n for n in P.F if n.endswith('LexerResult::error') or n.endswith('LexerResult::set_error')]:
        def run_res(fn):
            E = M.engine(); st = State(); f = P.F[fn]; E.old = E.mk(('content',), 'core::option::Option<%s>' % ERR); st.mem[('R', 'rc')] = E.old
            def hook(E, st, callee, args, dty, d, where):
                fnm = (callee.get('fn') or '') + ' ' + (callee.get('inst') or ''); mth = callee.get('meth') or (callee.get('fn') or '').split('::')[-1]
                cell = ('ref', ('R', 'rc'), ())
                if 'RefCell' in fnm and mth in ('borrow_mut', 'borrow'): return [('ret', st, cell)]
                if ('RefMut' in fnm or 'cell::Ref<' in fnm) and mth in ('deref', 'deref_mut'): return [('ret', st, cell)]
                if 'Rc<' in fnm and mth in ('deref', 'as_ref'): return [('ret', st, cell)]
                if 'RefCell' in fnm and mth in ('replace', 'take'):
                    old = st.mem[('R', 'rc')]; st.mem[('R', 'rc')] = args[1] if mth == 'replace' else ('adt', 'core::option::Option<%s>' % ERR, 0, ()); return [('ret', st, old)]
                return None
            E.hooks.insert(0, hook); E.args = [E.mk(('arg', i), f['locals'][i]) for i in range(1, f['argc'] + 1)]
            return E, E.call_body_rec(st, fn, list(E.args), 0)
        r = root(fn.split('::')[-2] + ' ' + fn.split('::')[-1], fn, run_res, 'C20', 'C12')
        if not r: continue
        E, outs, w = r
        for o in outs:
            st = o[1]; now = E.freeze(st, st.mem[('R', 'rc')])
            if fn.endswith('set_error'):
                was = st.facts.get(('var', E.old[1]))
                if now is not None and (now[0] == 'adt' and (now[2] == 0 or now[3][0] != E.freeze(st, E.args[1])) or now == E.old and was != 1):
                    for p in ('C20', 'C12'): res.bad(p, 'lost', 'the error a scanner found is not kept', w)
            else:
                var = st.facts.get(('var', E.old[1]))
                empty = now[0] == 'adt' and now[2] == 0 or now == E.old and var == 0
                for p in ('C20', 'C12') if not empty else (): res.bad(p, 'kept', 'the error of one token is reported again for the next', w)
                v = E.freeze(st, o[2])
                if v is not None and v[0] == 'adt' and v[2] == 0 and var != 0:
                    for p in ('C20', 'C12'): res.bad(p, 'lost', 'the error a scanner found is lost', w)
    return keeps

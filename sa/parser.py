"""Analysis of dice-syntax: every parser function is interpreted over a symbolic token stream.

The stream is a chain of positions.  Position p holds a token T(p) (symbolic kind, span, slice), a lexical error, or
the end.  Reading a token moves p to after(p); a nested parse moves p to child(<what>, p) and yields the node id
child-id(<what>, p).  Peeking does not move.  What a function consumed, what it looked at and what it built are
therefore all visible in the final position, the facts of the path and the returned node term."""
import re
from engine import *
import models

PA = "dice_syntax::parser::Parser"
TOK = 'dice_syntax::lexer::token::Token'
KIND = 'dice_syntax::lexer::token::TokenKind'
SYN = 'dice_syntax::ast::SyntaxNode'
IDT = 'id_arena::Id<dice_syntax::ast::SyntaxNode>'
ERR = 'dice_core::error::Error'
SPAN = 'dice_core::span::Span'
PREC = 'dice_syntax::parser::rules::Precedence'
RULE = 'dice_syntax::parser::rules::Rule'
# functions that, where they exist, are treated as nested parses and checked as roots of their own
CUTS = ('expression_sequence', 'loop_statement', 'while_statement', 'for_statement', 'control_flow', 'var_decl', 'fn_decl',
        'op_decl', 'class_decl', 'import_decl', 'export_decl', 'if_expression')

def base(ty): return re.sub(r"<'[^>]*>", '', ty)

class ParserModel:
    def __init__(self, prog, rounds=2, budget=6000000):
        self.P = prog; self.F = prog.F; self.T = prog.T; self.rounds = rounds; self.budget = budget
        self.kinds = [v['n'] for v in prog.variants(KIND) or ()]
        self.kix = {n: i for i, n in enumerate(self.kinds)}
        self.prec = [v['n'] for v in prog.variants(PREC) or ()]
        self.meth = {}
        for n, f in self.F.items():
            m = re.match(re.escape(PA) + r"(::)?<'[^>]*>::(\w+)$", n)
            if m and f.get('crate') == 'dice_syntax': self.meth[m.group(2)] = n
        self.cuts = {self.meth[c]: c for c in CUTS if c in self.meth}
        self.table = None; self.adm = None
    def tyname(self, t):
        for n in self.T:
            if base(n) == t: return n
        return t
    def fields(self, ty):
        t = self.T.get(ty) or self.T.get(self.tyname(ty)); return [f[0] for f in t['variants'][0]['f']]
    # ---- engine
    def engine(self):
        E = Engine(self.P, self.budget); models.install(E); E.hooks = [self.hook]; E.generic_rounds = self.rounds; E.mergelimit = 10**9
        E.pm = self; E.root_fn = None
        return E
    def initial(self, E):
        """the parser at some position of some source"""
        st = State(); cell = ('R', 'parser')
        E.start = E.sym(('start',), 'pos')
        E.src = ('s', E.sym(('src',), '&dice_core::source::Source'))
        def build(ty, name):
            t = self.T.get(ty)
            b = base(ty)
            if 'Peekable<' in ty: return ('s', E.start)
            if b.endswith('source::Source') or b.endswith('&dice_core::source::Source'): return E.src
            if b == TOK: return self.token(E, ('last', E.start))
            if t and t['kind'] == 'struct' and t.get('ws') and not b.endswith('ParserRules'):
                return ('adt', ty, 0, tuple(build(ft, name + '.' + fn) for fn, ft in t['variants'][0]['f']))
            return E.mk(('init', name), ty)
        pty = self.tyname(PA)
        st.mem[cell] = build(pty, 'p')
        return st, ('ref', cell, ())
    def token(self, E, p):
        """token whose parts are symbols named after p"""
        ty = self.tyname(TOK); fs = []
        for fn, ft in self.T[ty]['variants'][0]['f']:
            fs.append(E.mk((fn, p), ft))
        return ('adt', ty, 0, tuple(fs))
    def kindsid(self, E, p): return E.sym(('kind', p), KIND)
    # ---- what stands at position p
    def look(self, E, st, p):
        """-> [(state, 'end'|'err'|'tok')]"""
        f = st.facts.get(('tk', p))
        if f: return [(st, f)]
        out = []
        for k in ('tok', 'err', 'end'):
            s = st.fork() if k != 'end' else st
            s.facts[('tk', p)] = k
            ks = self.kindsid(E, p); eoi = self.kix.get('EndOfInput')
            if k == 'tok':
                old = s.facts.get(('var', ks))
                if isinstance(old, int):
                    if old == eoi: continue
                else: s.facts[('var', ks)] = (old or frozenset()) | {eoi}
            out.append((s, k))
        return out
    def lexerr(self, E, p): return ('s', E.sym(('lexerr', p), ERR))
    def hook(self, E, st, callee, args, dty, d, where):
        df = callee.get('def') or ''; fn = callee.get('fn') or ''; inst = callee.get('inst') or ''; full = df + ' ' + fn + ' ' + inst
        if 'Peekable' in full and ('TokenIter' in str(callee.get('targs')) or 'TokenIter' in full):
            meth = (callee.get('meth') or fn.split('::')[-1])
            if meth in ('next', 'peek', 'next_if', 'next_if_eq', 'peek_mut', 'nth'):
                if meth not in ('next', 'peek'): return None
                loc = E.loc(st, args[0]); pv = E.read(st, *loc)
                if pv is None or pv[0] != 's': return None
                p = pv[1]; out = []
                item = self.item_type(dty, meth)
                for s, k in self.look(E, st, p):
                    if k == 'end': out.append(('ret', s, ('adt', dty, 0, ()))); continue
                    v = ('adt', item, 0, (self.token(E, p),)) if k == 'tok' else ('adt', item, 1, (self.lexerr(E, p),))
                    if meth == 'next': E.write(s, loc[0], loc[1], ('s', E.sym(('after', p), 'pos')))
                    else: v = ('box', v)
                    out.append(('ret', s, ('adt', dty, 1, (v,))))
                return out
            return None
        if E.root_fn == self.meth.get('parse_precedence') and self.table is not None and inst in self.rulefns():
            for a in args[1:]:
                if self.is_span(E, st, a): st.event(('spanarg', E.freeze(st, a)))
            return self.child(E, st, ('rule', inst) + tuple(E.freeze(st, a) for a in args[1:] if not self.is_span(E, st, a)), args, dty)
        if inst in self.cuts:
            return self.child(E, st, ('sub', self.cuts[inst]), args, dty)
        if inst == self.meth.get('parse_precedence'):
            x = E.freeze(st, args[1])
            return self.child(E, st, ('expr',) + (self.adm(x[2]) if x[0] == 'adt' and self.adm else (x,)), args, dty)
        if fn.startswith('id_arena::Arena') and fn.endswith('::alloc') or df.startswith('id_arena::Arena') and df.endswith('::alloc'):
            return [('ret', st, ('s', E.sym(('alloc', E.freeze(st, args[1])), IDT)))]
        if df == 'INDIRECT' and callee.get('ind') is not None:
            ind = E.strip(st, callee['ind'])
            if ind is not None and ind[0] == 's':
                return self.child(E, st, ('call', ind) + tuple(E.freeze(st, a) for a in args[1:]), args, dty)
        if 'ops::arith::Add' in full and 'Span' in full and callee.get('meth', 'add') == 'add' and E.root_fn not in (inst,):
            return [('ret', st, ('s', E.sym(('span+', E.freeze(st, args[0]), E.freeze(st, args[1])), SPAN)))]
        if 'ParserRules' in full and full.rstrip().endswith('::for_token') and inst != E.root_fn:
            return self.for_token(E, st, args, dty)
        if 'ParserRules' in full and full.rstrip().endswith('::prefix_tokens'):
            return [('ret', st, E.mk(('prefix_tokens',), dty))]
        if 'slice' in full and fn.split('::')[-1] in ('sort', 'sort_by_key', 'sort_by', 'sort_unstable', 'dedup', 'sort_unstable_by_key'):
            return [('ret', st, UNIT)]
        if fn.split('::')[-1] == 'join' and 'String' in dty:
            return [('ret', st, ('s', E.sym(('joined', E.freeze(st, E.strip(st, args[0]))), 'alloc::string::String')))]
        if fn.endswith('<impl str>::len') or df.endswith('<impl str>::len'):
            return [('ret', st, E.mk(('strlen', E.freeze(st, args[0])), 'usize'))]
        if ('SliceIndex<str>' in full or 'Index' in full and 'str' in full) and fn.split('::')[-1].rstrip('>') == 'index' and len(args) == 2:
            return self.substr(E, st, args, dty, where)
        if fn.endswith('str>::parse') or fn.endswith('FromStr::from_str') or fn.endswith('FromStr>::from_str'):
            s = E.freeze(st, args[0])
            return [('ret', st, ('s', E.sym(('parsed', s, dty.split('<', 1)[-1].split(',')[0]), dty)))]
        if 'HashMap' in full and fn.endswith('::insert') and E.root_fn == self.rules_new():
            st.event(('insert', E.freeze(st, args[1]), E.freeze(st, args[2])))
            return [('ret', st, E.mk(('map-old', len(st.events())), dty))]
        if E.root_fn == self.rules_new() and ('HashMap' in full or 'hash::map' in full or fn.startswith('core::iter') or 'Iterator' in full):
            return [('ret', st, E.mk(('opaque', fn.split('::')[-1]), dty))]
        return None
    def substr(self, E, st, args, dty, where):
        a, b = E.freeze(st, args[0]), E.freeze(st, args[1])
        if a[0] == 'adt': a, b = b, a
        if b[0] != 'adt' or a[0] != 's': return None
        n = E.mk(('strlen', a), 'usize'); at = self.slice_pos(E, a)
        lo = b[3][0]; hi = b[3][1] if len(b[3]) > 1 else None
        if at is not None and lo == I(1) and hi == lin_add(n, I(-1)):
            k = st.facts.get(('var', self.kindsid(E, at)))
            if isinstance(k, int) and self.kinds[k] in ('String', 'BackslashArg'):
                # such a token starts and ends with a one-byte delimiter (checked on the lexer)
                return [('ret', st, ('box', ('s', E.sym(('inner', a), 'str'))))]
        bad = st.fork()
        return [('ret', st, ('box', ('s', E.sym(('substr', a, b), 'str')))), ('panic', bad, ('index', 'part of a string', where[0]))]
    def rulefns(self): return {f for row in self.table.values() for f, _ in row.values()}
    def is_span(self, E, st, a):
        a = E.strip(st, a) if E.isref(a) else a
        return a is not None and (a[0] == 'adt' and a[1] == SPAN or a[0] == 's' and base(E.symty[a[1]]).lstrip('&') == SPAN)
    def parsed(self, E, st, p, ty):
        for sid, t in enumerate(E.tlist):
            if t[0] == 'parsed' and t[1] == self.slice(E, p) and t[2] == ty: return sid
        return None
    def slice(self, E, p):
        """the text of the token at p"""
        t = [t for n, t in self.T[self.tyname(TOK)]['variants'][0]['f'] if n == 'slice'][0]
        return E.freeze(State(), E.mk(('slice', p), t))
    def slice_pos(self, E, v):
        if v is None or v[0] != 's': return None
        t = E.tlist[v[1]]
        if t[0] == '*': t = E.tlist[t[1]]
        return t[1] if t[0] == 'slice' else None
    def item_type(self, dty, meth):
        t = dty[len('core::option::Option<'):-1]
        return re.sub(r"^&('\S+ )?(mut )?", '', t)
    def child(self, E, st, desc, args, dty):
        loc = E.loc(st, args[0])
        pc, path, cur = self.stream(E, st, loc)
        desc = desc if desc[0] != 'expr' else desc
        key = ('child', desc, pc)
        p2 = E.sym(key, 'pos')
        bad = st.fork(); bad.event(('childerr', p2))
        # the position a failed parse stops at is of no interest
        lx = self.lexpath(E, st, loc)
        self.setlex(E, st, loc, p2)
        st.event(('child', desc, pc))
        return [('ret', st, ('adt', dty, 0, (('s', E.sym(('child-id',) + key[1:], IDT)),))),
                ('ret', bad, ('adt', dty, 1, (('s', E.sym(('childerr', p2), ERR)),)))]
    def lexpath(self, E, st, loc):
        v = E.read(st, *loc)
        i = [j for j, (n, t) in enumerate(self.T[v[1]]['variants'][0]['f']) if base(t).endswith('lexer::Lexer')][0]
        return loc[0], loc[1] + (i,), v[3][i]
    def stream(self, E, st, loc):
        c, pth, lex = self.lexpath(E, st, loc)
        fs = self.T[lex[1]]['variants'][0]['f']
        i = [j for j, (n, t) in enumerate(fs) if 'Peekable<' in t][0]
        return lex[3][i][1], pth + (i,), None
    def setlex(self, E, st, loc, p2):
        c, pth, lex = self.lexpath(E, st, loc)
        fs = self.T[lex[1]]['variants'][0]['f']; new = list(lex[3])
        for j, (n, t) in enumerate(fs):
            if 'Peekable<' in t: new[j] = ('s', p2)
            elif base(t) == TOK: new[j] = self.token(E, ('last', p2))
        v = E.read(st, *loc)
        i = pth[-1]; fv = list(v[3]); fv[i] = lex[:3] + (tuple(new),)
        E.write(st, loc[0], loc[1], v[:3] + (tuple(fv),))
    # ---- the rule table
    def rules_new(self):
        for n in self.F:
            if 'ParserRules' in n and n.endswith('::new'): return n
    def read_table(self):
        """token kind -> {'prefix'|'infix'|'postfix': (function, precedence index)}"""
        E = self.engine(); fn = self.rules_new()
        if fn is None: raise Undecided('no rule table')
        E.root_fn = fn
        st = State()
        outs = E.call_body_rec(st, fn, [], 0)
        outs = [o for o in outs if o[0] == 'ret']
        if len(outs) != 1: raise Undecided('the rule table is not built on a single path (%d)' % len(outs))
        tab = {}; self.table_E = E
        rty = self.tyname(RULE); names = [f[0] for f in self.T[rty]['variants'][0]['f']]
        for e in outs[0][1].events():
            if e[0] != 'insert': continue
            k, r = e[1], e[2]
            if k[0] != 'adt' or r[0] != 'adt': raise Undecided('a rule is not constant')
            row = {}
            for n, v in zip(names, r[3]):
                if v[0] != 'adt': raise Undecided('a rule is not constant')
                if v[2] == 1:
                    t = v[3][0]
                    f, p = t[1]
                    if f[0] != 'fn' or p[0] != 'adt': raise Undecided('a rule is not constant')
                    row[n] = (json.loads(f[1]).get('inst'), p[2])
            tab[self.kinds[k[2]]] = row; tab.setdefault('#', {})[self.kinds[k[2]]] = r
        self.rulevals = tab.pop('#', {})
        if not tab: raise Undecided('the rule table is empty')
        self.table = tab; self.rules_at = fn
        return tab
    def for_token(self, E, st, args, dty):
        tok = E.freeze(st, args[1])
        ks = tok[3][self.fields(TOK).index('kind')]
        kid = None
        if ks[0] == 'adt': kid = ks[2]
        elif ks[0] == 's':
            v = st.facts.get(('var', ks[1]))
            if isinstance(v, int): kid = v
        errs = ('s', E.sym(('noruleerr', ks), ERR))
        if kid is not None and self.table is not None:
            n = self.kinds[kid]
            if n in self.rulevals: return [('ret', st, ('adt', dty, 0, (('box', self.rulevals[n]),)))]
            return [('ret', st, ('adt', dty, 1, (self.norule(E, ks, tok),)))]
        if self.table is None or ks[0] != 's': return None
        # one case per group of tokens with the same rule
        groups = {}
        for n in self.kinds: groups.setdefault(json.dumps(sorted(self.table[n].items())) if n in self.table else None, []).append(n)
        allk = frozenset(range(len(self.kinds))); out = []
        old = st.facts.get(('var', ks[1])) or frozenset()
        for g, ns in groups.items():
            left = frozenset(self.kix[n] for n in ns) - old
            if not left: continue
            s = st.fork(); s.facts[('var', ks[1])] = list(left)[0] if len(left) == 1 else allk - left
            out.append(('ret', s, ('adt', dty, 0, (('box', self.rulevals[ns[0]]),)) if g is not None else ('adt', dty, 1, (self.norule(E, ks, tok),))))
        return out
    def norule(self, E, ks, tok):
        """error of the rule lookup: has the token's span, no source yet"""
        ty = self.tyname(ERR); fs = []
        span = tok[3][self.fields(TOK).index('span')]
        for n, t in self.T[ty]['variants'][0]['f']:
            if n == 'span': fs.append(span)
            elif t.startswith('core::option::Option<'): fs.append(('adt', t, 0, ()))
            else: fs.append(E.mk(('norule', n, ks), t))
        return ('adt', ty, 0, tuple(fs))
    # ---- roots
    def run(self, fn, extra=(), setup=None):
        """interpret parser function `fn` from a symbolic position"""
        E = self.engine(); E.root_fn = fn
        st, me = self.initial(E)
        f = self.F[fn]; args = [me if f['locals'][1].startswith('&') else st.mem[('R', 'parser')]]
        names = []
        for i in range(2, f['argc'] + 1):
            args.append(E.mk(('arg', i), f['locals'][i]))
        if setup: setup(E, st, args)
        E.args = args
        outs = E.call_body_rec(st, fn, args, 0)
        return E, outs

class Undecided(Exception): pass

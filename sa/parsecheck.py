"""Compares every interpreted path of the parser with the reference grammar (C05, C09, C11, C13, C14, C19, C21)."""
import grammar, parser, json
from engine import *
from parser import ParserModel, Undecided, base, TOK, ERR, SYN, PREC, RULE

PROPS = ('C05', 'C11', 'C13', 'C14', 'C19', 'C21')
STATEMENTS = ('loop_statement', 'while_statement', 'for_statement', 'control_flow', 'var_decl', 'fn_decl', 'op_decl', 'class_decl', 'import_decl', 'export_decl')

class Check:
    def __init__(self, P, res, codes, rounds=1, limit=None):
        self.P = P; self.res = res; self.codes = codes; self.limit = limit
        self.M = ParserModel(P, rounds)
        self.edges = {}      # function -> nested parses it starts without having read a token
    def where(self, fn, line=None):
        f = self.P.F[fn]; return (fn, fn, '%s:%s' % (f.get('file', '?'), line or f.get('line', '?')))
    def bad(self, props, key, msg, fn):
        for p in props if isinstance(props, tuple) else (props,):
            if p != 'C19' or self.ok: self.res.bad(p, key, msg, self.where(fn))

    # ------------------------------------------------------------------ the rule table
    def table(self):
        M = self.M; res = self.res
        tab = M.read_table(); fn = M.rules_at
        if M.table_E.unknown: raise Undecided('the rule table uses ' + ', '.join(M.table_E.unknown)[:120])
        asg = M.prec.index('Assignment') if 'Assignment' in M.prec else None
        # comparing precedences must be comparing their order of declaration
        for n, f in self.P.F.items():
            if 'rules::Precedence as core::cmp' in n and not f.get('derived'): raise Undecided('precedences are compared by hand-written code')
        ok = True
        def bad(props, key, msg):
            nonlocal ok; ok = False; self.res.bad(props, key, msg, self.where(fn))
        for k in M.kinds:
            row = tab.get(k)
            res.n('C19', 'rule table rows'); 
            want = [r for r, s in (('prefix', grammar.PREFIX), ('infix', grammar.INFIX), ('postfix', grammar.POSTFIX)) if k in s]
            if row is None:
                if want or k in grammar.SILENT: bad('C19', 'rule ' + k, 'the token %s has no rule: it is rejected where the grammar allows it' % k)
                continue
            got = sorted(row)
            role = lambda r: 'infix' if r == 'postfix' else r
            if sorted(map(role, got)) != sorted(map(role, want)):
                bad('C19', 'rule ' + k, 'the token %s is a %s operator, the grammar makes it %s' % (k, '/'.join(got) or 'no', '/'.join(want) or 'none'))
        if asg is None: raise Undecided('no Assignment precedence')
        M.asg = asg
        pr = {}
        for k, row in tab.items():
            for r in ('infix', 'postfix'):
                if r in row: pr[k] = row[r][1]
        M.pr = pr
        M.adm = lambda x: (tuple(sorted(k for k, v in pr.items() if v >= x)), x <= asg)
        # relative binding of every pair
        for a in pr:
            if a not in grammar.LEVEL: continue
            for b in pr:
                if b not in grammar.LEVEL: continue
                res.n('C19', 'operator pairs compared')
                x = (pr[a] > pr[b]) - (pr[a] < pr[b]); y = (grammar.LEVEL[a] > grammar.LEVEL[b]) - (grammar.LEVEL[a] < grammar.LEVEL[b])
                if x != y and x * y <= 0 and not (x == 0 and y == 0):
                    bad('C19', 'precedence', '%s binds %s %s, the grammar says %s' % (a, ('as tightly as', 'tighter than', 'looser than')[x], b, ('as tightly', 'tighter', 'looser')[y]))
            if pr[a] < asg: bad('C19', 'precedence ' + a, '%s binds looser than assignment and is never reached' % a)
        if self.res.viol.get('C19'): pass
        res.sample('C19', 'rule table: ' + ', '.join('%s=%s' % (k, M.prec[v]) for k, v in list(pr.items())[:12]))
        if ok: res.decide('operator table', 'C19')
        return ok

    # ------------------------------------------------------------------ values
    def same(self, E, st, v, ref, why, path='result'):
        """None if value v denotes the reference ref, else a description"""
        M = self.M
        k = ref[0] if isinstance(ref, tuple) else 'list'
        v0 = v
        if v is not None and v[0] in ('box',) or E.isref(v): v = E.strip(st, v)
        def no(m=None): return (path, m or 'is %s' % E.pv(v)[:160])
        if v is None: return no('is missing')
        if k == 'node':
            if v[0] != 's' or E.tlist[v[1]][0] != 'alloc': return no('is %s instead of a %s node' % (self.desc(E, v), ref[1]))
            n = E.tlist[v[1]][1]
            if n[0] != 'adt': return no()
            vs = self.P.variants(SYN)[n[2]]
            if vs['n'] != ref[1]: return no('is a %s node instead of %s' % (vs['n'], ref[1]))
            return self.fields(E, st, n[3][0], ref[2], why, ref[1])
        if k == 'struct': return self.fields(E, st, v, ref[1], why, path)
        if k == 'childid':
            want = E.sym(('child-id',) + ref[1:], parser.IDT)
            return None if v == ('s', want) else no('is %s instead of %s' % (self.desc(E, v), E.pt(want)[:160]))
        if k == 'value': return None if v == ref[1] else no()
        if k == 'none': return None if v[0] == 'adt' and v[2] == 0 else no('is set, the source has none')
        if k == 'some':
            if v[0] != 'adt' or v[2] != 1: return no('is left out')
            return self.same(E, st, v[3][0], ref[1], why, path)
        if k == 'bool': return None if v == ('b', ref[1]) else no()
        if k == 'str': return None if v == ref else no()
        if k == 'const':
            c = self.P.C.get(ref[1])
            if c is None: return None
            return None if v == E.strip(st, E.cval(c['v'], c.get('ty'))) else no()
        if k == 'enum':
            if v[0] != 'adt': return no()
            vs = self.P.variants(v[1])[v[2]]['n']
            if vs != ref[1]: return no('is %s instead of %s' % (vs, ref[1]))
            for i, x in enumerate(ref[2]):
                m = self.same(E, st, v[3][i], x, why, path)
                if m: return m
            return None
        if k == 'slice':
            return None if E.freeze(st, v) == self.slice(E, ref[1]) else no('is %s instead of the text of %s' % (E.pv(v)[:100], self.pp(E, ref[1])))
        if k == 'inner':
            return None if v[0] == 's' and E.tlist[v[1]] == ('inner', self.slice(E, ref[1])) else no('is %s instead of the text between the delimiters of %s' % (E.pv(v)[:100], self.pp(E, ref[1])))
        if k == 'parsed':
            want = M.parsed(E, st, *ref[1:])
            return None if want is not None and v == E.symfield(want, 0, 0) else no('is %s instead of the number %s spells' % (E.pv(v)[:100], self.pp(E, ref[1])))
        if k == 'tuple':
            if v[0] != 'tup': return no()
            for i, x in enumerate(ref[1]):
                m = self.same(E, st, v[1][i], x, why, '%s.%d' % (path, i))
                if m: return m
            return None
        if k == 'list':
            sv = E.seqof(v)
            if sv is None or any(s[0] != 'e' for s in sv[1]): return no()
            if len(sv[1]) != len(ref): return no('has %d parts, the source has %d' % (len(sv[1]), len(ref)))
            for i, (s, x) in enumerate(zip(sv[1], ref)):
                m = self.same(E, st, s[1], x, why, '%s[%d]' % (path, i))
                if m: return m
            return None
        return no()
    def fields(self, E, st, v, fs, why, path):
        v = E.strip(st, v) if E.isref(v) else v
        if v is None or v[0] != 'adt': return (path, 'is %s' % E.pv(v)[:120])
        names = [f[0] for f in self.P.T[v[1]]['variants'][0]['f']]
        for n, x in fs.items():
            if n not in names: raise Undecided('the syntax tree has no %s.%s' % (path, n))
        for n, x in zip(names, v[3]):
            if n == 'span':
                m = self.span(E, st, x, why)
                if m: return ('%s.span' % path, m, 'C13')
            elif n in fs:
                m = self.same(E, st, x, fs[n], why, '%s.%s' % (path, n))
                if m: return m
        return None
    def slice(self, E, p): return self.M.slice(E, p)
    def desc(self, E, v):
        if v[0] == 's' and E.tlist[v[1]][0] == 'alloc':
            n = E.tlist[v[1]][1]
            if n[0] == 'adt': return 'a %s node' % self.P.variants(SYN)[n[2]]['n']
        return E.pv(v)[:120]
    def pp(self, E, p): return E.pt(p)[:80]
    def span(self, E, st, v, ref):
        """spans are made of spans of tokens that belong to the construct"""
        leaves = []
        def walk(x, n=0):
            if x is None or n > 20: leaves.append(None); return
            if x[0] == 's':
                t = E.tlist[x[1]]
                if t[0] == 'span+': walk(t[1], n + 1); walk(t[2], n + 1); return
                if t[0] == 'span' or t[0] == 'arg': leaves.append(t); return
                if t[0] == '*': walk(('s', t[1]), n + 1); return
            leaves.append(None)
        walk(E.strip(st, v) if E.isref(v) else v)
        for l in leaves:
            if l is None: return 'is %s, which is no position of the source' % E.pv(v)[:100]
            if l[0] == 'arg': continue
            p = l[1]
            if isinstance(p, tuple) and p[0] == 'last':
                if p[1] == E.start and st.facts.get(('tk', E.start)) != 'end': return 'starts or ends before the construct'
                continue
        return None

    # ------------------------------------------------------------------ one root
    def root(self, name, fn, ref, props=PROPS, setup=None, rounds=None, starts=None, tree=False):
        M = self.M; res = self.res; old = M.rounds
        if rounds is not None: M.rounds = rounds
        prog = []
        def on_back(E, head, back, fname, h, u):
            if fname not in M.F or base(fname).startswith('core'): return
            a = self.pos(E, head); b = self.pos(E, back)
            if a is not None and b is not None and not self.progress(E, a, b): prog.append((fname, h))
        try:
            import contextlib
            with (self.limit() if self.limit else contextlib.nullcontext()):
                E0 = M.engine
                def mk():
                    E = E0(); E.on_back = on_back; return E
                M.engine = mk
                def su(E, st, args):
                    if starts is not None:
                        s = frozenset(range(len(M.kinds))) - {M.kix[k] for k in starts}
                        ks = M.kindsid(E, E.start)
                        st.facts[('tk', E.start)] = 'tok'
                        st.facts[('var', ks)] = s if len(starts) > 1 else M.kix[starts[0]]
                    if setup: setup(E, st, args)
                try: E, outs = M.run(fn, setup=su)
                finally: M.engine = E0
                self.judge(name, fn, ref, E, outs, props, prog, tree)
        except (Undecided, Budget) as x:
            res.undecide(name, str(x) or 'too large', *props)
        except Exception as x:
            import traceback
            if self.limit is None: raise
            res.undecide(name, 'analysis failed: ' + traceback.format_exc(limit=-3)[-500:], *props)
        finally: M.rounds = old
    def pos(self, E, st):
        v = st.mem.get(('R', 'parser'))
        try: return self.M.stream(E, st, (('R', 'parser'), ()))[0]
        except Exception: return None
    def progress(self, E, a, b):
        """has at least one token been read between positions a and b?"""
        while b != a:
            t = E.tlist[b]
            if t[0] == 'after': return True
            if t[0] == 'child':
                if t[1] != ('sub', 'expression_sequence') : return True     # reads at least its first token: checked per function below
                b = t[2]; continue
            return True
        return False
    def judge(self, name, fn, ref, E, outs, props, prog, tree):
        res = self.res; M = self.M
        if E.unknown: raise Undecided('calls outside the model: ' + ', '.join(sorted(E.unknown))[:200])
        notes = [n for n in E.notes if n not in ('widened', 'loop-sym-override')]
        if notes: raise Undecided('imprecise: ' + ', '.join(notes))
        seen = set()
        def rep(ps, key, msg):
            k = (key, msg.split(':')[0][:60])
            if k in seen: return
            seen.add(k); self.bad(ps, '%s: %s' % (name, key), '%s: %s' % (name, msg), fn)
        for fnm, h in prog:
            f = self.P.F[fnm]
            self.bad('C14', '%s: no progress' % name, '%s: a round of the loop at line %s reads no token' % (name, f['blocks'][h].get('l')), fnm)
        nloops = sum(E.cutloops.values())
        for o in outs:
            if 'C14' in props: res.n('C14', 'paths of parser functions')
            if 'C19' in props: res.n('C19', 'paths of parser functions')
            if o[0] == 'panic':
                rep('C11', 'panic', 'can panic: %s' % (str(o[2][:4])[:160])); continue
            st = o[1]; v = o[2]
            if v is None or v[0] != 'adt': raise Undecided('a result is not known')
            errs = [p for (k, p), x in ((kk, vv) for kk, vv in st.facts.items() if kk[0] == 'tk') if x == 'err'] if False else [k[1] for k, x in st.facts.items() if k[0] == 'tk' and x == 'err']
            fails = {e[1] for e in st.events() if e[0] == 'childerr'}
            runs = grammar.explore(M, E, st, ref)
            if v[2] == 1: self.rejected(name, fn, E, o, runs, errs, fails, rep); continue
            if errs: rep(('C14', 'C19', 'C13'), 'lexical error dropped', 'succeeds although the text at %s is no token' % self.pp(E, errs[0]))
            if fails: rep(('C14', 'C19', 'C13'), 'error dropped', 'succeeds although a nested parse failed (%s)' % self.pp(E, list(fails)[0]))
            for r, what, val in runs:
                if what in ('lexerr', 'childerr'): continue
                if what == 'deep': rep(('C14', 'C19'), 'accepts', 'accepts an input the grammar would go on reading'); continue
                if what == 'reject':
                    rep(('C14', 'C19'), 'accepts ' + self.kinds_at(E, r, val.p), 'accepts %s where the grammar does not allow it (%s)' % (self.kinds_at(E, r, val.p), self.pp(E, val.p))); continue
                if tree:
                    x = v[3][0]; t = M.T.get(x[1]) if x[0] == 'adt' else None
                    nm = [f[0] for f in t['variants'][0]['f']] if t else []
                    m = self.same(E, st, x[3][nm.index('root')], val[1], r) if 'root' in nm else None
                    if r.unseen is not None: rep(('C14', 'C19'), 'end not checked', 'succeeds without looking whether the input ends at %s' % self.pp(E, r.unseen))
                else:
                    m = self.same(E, st, v[3][0], val, r)
                    end = self.pos(E, st)
                    if r.unseen is not None: rep(('C14', 'C19'), 'unchecked', 'goes on without looking at the token at %s' % self.pp(E, r.unseen))
                    elif end != r.pos: rep(('C14', 'C19'), 'position', 'stops at %s, the grammar at %s' % (self.pp(E, end), self.pp(E, r.pos)))
                if m:
                    ps = (m[2],) if len(m) > 2 else ('C19',)
                    if 'operator' in m[0] and len(m) == 2: ps = ('C05', 'C19')
                    if (m[0].startswith(('LitInt', 'LitFloat', 'LitBool', 'LitString', 'LitNull', 'LitIdent')) or 'the text between the delimiters' in m[1]) and len(m) == 2: ps = ('C21', 'C19')
                    if m[0] == 'result' and 'LitBool' in m[1] + str(val)[:40]: ps = ('C21', 'C19')
                    rep(ps, m[0], '%s %s' % (m[0], m[1]))
                if 'C19' in props: res.n('C19', 'syntax trees compared')
                if 'C05' in props: res.n('C05', 'parsed constructs compared')
                if 'C21' in props: res.n('C21', 'parsed constructs compared')
            for e in st.events():
                if e[0] == 'child' and not self.progress(E, E.start, e[2]):
                    self.edges.setdefault(fn, set()).add(e[1])
            if not tree and 'sequence' not in name:
                end = self.pos(E, st)
                if not self.progress(E, E.start, end): rep('C14', 'reads nothing', 'succeeds without reading a token')
        res.decide(name, *props)
        res.sample('C19', '%s: %d paths, %d loops followed to the bound' % (name, len(outs), nloops))
        res.sample('C14', '%s: %d paths' % (name, len(outs)))
    def kinds_at(self, E, r, p):
        try: s = r.narrow.get(p) or r.kinds(p)
        except grammar.LexErr: return 'text that is no token'
        n = [self.M.kinds[i] for i in sorted(s)]
        return ', '.join(n[:4]) + (' and %d other kinds of token' % (len(n) - 4) if len(n) > 4 else '')
    def rejected(self, name, fn, E, o, runs, errs, fails, rep):
        st = o[1]; err = o[2][3][0]; res = self.res
        g = lambda f: self.M_get(E, st, err, f)
        res.n('C13', 'errors of the parser')
        own = True
        if err[0] == 's':
            t = E.tlist[err[1]]
            if t[0] in ('childerr', 'lexerr'): own = False
        elif err[0] == 'adt':
            sp = g('span')
            if sp is not None and sp[0] == 's' and E.tlist[sp[1]][0] == 'f' and E.tlist[E.tlist[sp[1]][1]][0] in ('childerr', 'lexerr'): own = False
        if (errs or fails) and own:
            rep('C13', 'replaced', 'an error found further in is replaced by another')
        if own:
            src = g('source_code')
            if src is None or src[0] == 'adt' and src[2] == 0 or src[0] != 'adt': rep('C13', 'no source', 'an error is reported without its source')
            m = self.span(E, st, g('span'), None)
            if m: rep('C13', 'no span', 'the span of an error %s' % m)
        code = g('error_code') if own and err[0] == 'adt' else None
        code = E.pv(E.strip(st, code)).strip('"') if code is not None else None
        for r, what, val in runs:
            if what in ('lexerr', 'childerr'): continue
            if what == 'ok':
                if errs and r.pos in errs: continue       # reads one token ahead
                if not own: continue
                if code == 'E1005': continue              # checked by the limits analysis
                x = self.last_kind(E, r, st)
                rep('C19', 'rejects ' + x, 'rejects (%s) what the grammar allows: %s' % (self.codes.get(code, code), x))
            elif what == 'reject' and own and code and code[0] == 'E' and code not in val.codes and not code.startswith(('E1003', 'E1004')):
                rep('C19', 'code', 'rejects with %s instead of %s' % (self.codes.get(code, code), self.codes.get(val.codes[0], val.codes[0])))
    def last_kind(self, E, r, st):
        out = []
        for p in r.touched[-4:]:
            if isinstance(p, tuple): out.append('…')
            else: out.append(self.kinds_at(E, r, p))
        return ' '.join(out)[:120]
    def M_get(self, E, st, v, f):
        v = E.strip(st, v) if E.isref(v) else v
        if v is None: return None
        ty = v[1] if v[0] == 'adt' else E.symty[v[1]]
        t = self.P.T.get(ty)
        if not t: return None
        for i, (n, _) in enumerate(t['variants'][0]['f']):
            if n == f: return E.proj(st, v, i, 0)
        return None

    # ------------------------------------------------------------------ all roots
    def run(self, only=None, tier='quick'):
        M = self.M; res = self.res
        self.ok = True
        try:
            self.ok = self.table()
        except (Undecided, Budget) as x:
            res.undecide('operator table', str(x), *PROPS); return
        props = PROPS if self.ok else tuple(p for p in PROPS if p != 'C19')
        # while the table is wrong the functions are judged by the other rules only
        G = grammar
        roots = []
        if 'parse' in M.meth: roots.append(('parse', M.meth['parse'], G.parse, {'tree': True}))
        more = 2 if tier != 'quick' else 1
        if 'expression_sequence' in M.meth: roots.append(('expression sequence', M.meth['expression_sequence'], G.expression_sequence, {'rounds': 1}))
        for s in STATEMENTS:
            if s not in M.meth: continue
            if s == 'op_decl':
                for i, op in enumerate(G.OVERLOAD):
                    def su(E, st, args, op=op):
                        p = E.sym(('after', E.start), 'pos'); st.facts[('tk', p)] = 'tok'; st.facts[('var', M.kindsid(E, p))] = M.kix[op]
                    roots.append(('op_decl ' + op, M.meth[s], G.op_decl, {'rounds': (1 + more) if i == 0 else 0, 'setup': su}))
                def su2(E, st, args):
                    p = E.sym(('after', E.start), 'pos'); st.facts[('tk', p)] = 'tok'
                    st.facts[('var', M.kindsid(E, p))] = frozenset(M.kix[k] for k in G.OVERLOAD)
                roots.append(('op_decl (no operator)', M.meth[s], G.op_decl, {'rounds': 0, 'setup': su2}))
                continue
            roots.append((s, M.meth[s], getattr(G, s), {'rounds': 1 + more}))
        by = {}
        for k, row in M.table.items():
            for role, (f, p) in row.items(): by.setdefault((f, 'infix' if role == 'postfix' else role), []).append(k)
        for (f, role), ks in sorted(by.items()):
            if f not in self.P.F: res.undecide('rule ' + f, 'no body', *props); continue
            n = f.split('::')[-1]
            if role == 'prefix':
                def ref(r): return G.prefix(r, r.E.args[1])
            else:
                def ref(r): return G.infix(r, ('value', r.E.args[1]), r.E.args[2])
            roots.append(('%s (%s)' % (n, ', '.join(ks[:3]) + (', …' if len(ks) > 3 else '')), f, ref, {'starts': ks, 'rounds': 1 + more}))
        for name, f, ref, kw in roots:
            if only and only not in name: continue
            self.root(name, f, ref, props, **kw)
        if only and only not in 'precedence limits': return
        self.lookup()
        self.pratt(props)
        for n, own in (('fn_decl', None), ('anonymous function', [f for (f, r), ks in by.items() if r == 'prefix' and ks == ['Pipe']])):
            fn = M.meth.get(n) if own is None else own[0] if own else None
            if fn: self.limits(n, fn)
        if not only: self.recursion()
    def limits(self, name, fn):
        """a function has at most 255 parameters: the compiler emits a one-byte count for them"""
        M = self.M; res = self.res; old = M.rounds; M.rounds = 0; name = 'parameters of ' + name; ps = ('C09', 'C08', 'C11')
        E0 = M.engine; pre = []
        def mk():
            E = E0()
            def hook(E, st, callee, args, dty, d, where):
                t = base(dty)
                if t.startswith('alloc::vec::Vec<') and t.split('<', 1)[1].split('>')[0].split(',')[0].endswith('::FnArg') and not args:
                    q = E.sym(('params', E.start), 'seq'); v = ('seq', (('sym', q, t.split('<', 1)[1].split('>')[0].split(',')[0], 0, ()),))
                    pre.append(q); return [('ret', st, v)]
                return None
            E.hooks = [hook] + E.hooks; return E
        M.engine = mk
        try:
            import contextlib
            with (self.limit() if self.limit else contextlib.nullcontext()):
                E, outs = M.run(fn)
            if E.unknown: raise Undecided('calls outside the model: ' + ', '.join(sorted(E.unknown))[:200])
            if not pre: raise Undecided('no list of parameters is built')
            n = ('i', 0, ((E.sym(('len', pre[0]), 'usize'), 1),)); seen = 0
            for o in outs:
                if o[0] == 'panic' or o[2] is None or o[2][0] != 'adt': continue
                st = o[1]; lo, hi = E.bounds(st, n); res.n('C09', 'paths of parameter lists')
                if o[2][2] == 0:
                    seen += 1
                    if hi is None or hi > 255: self.bad('C09', name, '%s: more than 255 parameters are accepted, the count emitted for them is one byte' % name, fn)
                    if hi is not None and hi < 255: self.bad('C09', name + ' low', '%s: %d parameters are rejected' % (name, hi + 1), fn)
                    continue
                err = o[2][3][0]; code = self.M_get(E, st, err, 'error_code') if err[0] == 'adt' else None
                code = E.pv(E.strip(st, code)).strip('"') if code is not None else None
                if code == 'E1005':
                    m = self.span(E, st, self.M_get(E, st, err, 'span'), None); src = self.M_get(E, st, err, 'source_code')
                    if m: self.bad('C13', name, '%s: the span of the error for too many parameters %s' % (name, m), fn)
                    if src is None or src[0] != 'adt' or src[2] == 0: self.bad('C13', name + ' source', '%s: the error for too many parameters does not carry its source' % name, fn)
                if code == 'E1005' and (lo is None or lo < 256): self.bad('C09', name + ' low', '%s: %s parameters are rejected' % (name, lo), fn)
                elif hi is None and lo is not None and lo >= 256 and code and code != 'E1005' and code != 'E1000': self.bad('C09', name, '%s: too many parameters are reported as %s' % (name, self.codes.get(code, code)), fn)
            if not seen: raise Undecided('no accepting path')
            res.decide(name, 'C09')
        except (Undecided, Budget) as x: res.undecide(name, str(x) or 'too large', 'C09')
        except Exception:
            import traceback
            if self.limit is None: raise
            res.undecide(name, 'analysis failed: ' + traceback.format_exc(limit=-3)[-400:], 'C09')
        finally: M.rounds = old; M.engine = E0
    def lookup(self):
        """the rule of a token is the one stored under its kind; a token without one is an error at that token"""
        M = self.M; res = self.res; name = 'rule of a token'
        fn = next((n for n in self.P.F if 'ParserRules' in n and n.endswith('::for_token')), None)
        if fn is None: return
        try:
            import contextlib
            with (self.limit() if self.limit else contextlib.nullcontext()):
                E = M.engine(); E.root_fn = fn; f = self.P.F[fn]
                def hook(E, st, callee, args, dty, d, where):
                    full = callee.get('inst') or callee.get('fn') or ''
                    if 'HashMap' in full and full.split('::<')[0].split('::')[-1] in ('get', 'get_key_value') or 'HashMap' in full and callee.get('meth') == 'get':
                        if not dty.startswith('core::option::Option<&') or len(args) != 2: return None
                        k = E.freeze(st, E.strip(st, args[1])); a = st.fork(); b = st.fork(); a.event(('lookup', k, 0)); b.event(('lookup', k, 1))
                        return [('ret', a, ('adt', dty, 0, ())), ('ret', b, ('adt', dty, 1, (E.mk(('rule of', k), dty[len('core::option::Option<'):-1]),)))]
                    return None
                E.hooks = [hook] + E.hooks; st = State(); st.mem[('R', 'rules')] = E.mk(('init', 'rules'), f['locals'][1].lstrip('&'))
                tok = ('adt', M.tyname(parser.TOK), 0, tuple(E.mk(('init', 'token.' + n), t) for n, t in M.T[M.tyname(parser.TOK)]['variants'][0]['f'])); st.mem[('R', 'tok')] = tok
                outs = E.call_body_rec(st, fn, [('ref', ('R', 'rules'), ()), ('ref', ('R', 'tok'), ())], 0)
                get = lambda n: tok[3][M.fields(parser.TOK).index(n)]; kind = get('kind'); kn = M.kix.get('Reserved')
                if E.unknown: raise Undecided('calls outside the model: ' + ', '.join(sorted(E.unknown))[:200])
                seen = 0
                for o in outs:
                    if o[0] != 'ret': continue
                    st = o[1]; v = o[2]; ev = [e for e in st.events() if e[0] == 'lookup']; res.n('C13', 'outcomes of the rule lookup')
                    if v is None or v[0] != 'adt': raise Undecided('an unknown result')
                    if not ev or any(e[1] != kind for e in ev): raise Undecided('looks up %s' % (E.pv(ev[0][1]) if ev else 'nothing'))
                    if v[2] == 0:
                        seen += 1
                        if ev[-1][2] == 0: self.bad('C11', name, 'a token without a rule is given one', fn)
                        continue
                    if ev[-1][2] == 1: self.bad('C19', name, 'a token that has a rule is rejected', fn); continue
                    err = v[3][0]; code = self.M_get(E, st, err, 'error_code') if err[0] == 'adt' else None; sp = self.M_get(E, st, err, 'span') if err[0] == 'adt' else None
                    if sp is None: raise Undecided('an unknown error')
                    code = E.pv(E.strip(st, code)).strip('"'); sp = E.freeze(st, sp); want = E.freeze(st, get('span'))
                    if want[0] == 's' and sp[0] == 'adt':
                        x = [E.mk(('f', want[1], i), 'usize') for i in (0, 1)]
                        if sp[3] == (('i', 0, ()), ('i', 0, ())): self.bad('C13', name, 'the error for a token without a rule does not carry the position of the token', fn)
                        elif sp != want: res.sample('C13', 'rule lookup reports %s' % E.pv(sp))
                    k = st.facts.get(('var', kind[1])) if kind[0] == 's' else None
                    if k == kn and code == 'E1003' or isinstance(k, int) and k != kn and code == 'E1004' or isinstance(k, frozenset) and kn in k and code == 'E1004':
                        self.bad('C19', name + ' code', 'a token without a rule is reported as %s' % self.codes.get(code, code), fn)
                if not seen: raise Undecided('no rule is ever found')
                res.decide(name, 'C13', 'C11', 'C19')
        except (Undecided, Budget) as x: res.undecide(name, str(x) or 'too large', 'C13')
        except Exception:
            import traceback
            if self.limit is None: raise
            res.undecide(name, 'analysis failed: ' + traceback.format_exc(limit=-3)[-400:], 'C13')
    def recursion(self):
        """no parser function may call itself again before a token has been read"""
        M = self.M; g = {}
        for fn, ds in self.edges.items():
            for d in ds:
                t = M.meth.get(d[1]) if d[0] == 'sub' else M.meth.get('parse_precedence') if d[0] == 'expr' else d[1] if d[0] == 'rule' else None
                if t: g.setdefault(fn, set()).add(t)
        for s in sorted(g):
            seen = set(); work = [s]
            while work:
                for t in g.get(work.pop(), ()):
                    if t not in seen: seen.add(t); work.append(t)
            self.res.n('C14', 'functions checked for recursion without progress')
            if s in seen: self.bad('C14', 'recursion ' + s.split('::')[-1], '%s can call itself again without having read a token: parsing does not end' % s.split('::')[-1], s)
    # ------------------------------------------------------------------ operator precedence parsing
    def pratt(self, props):
        """parse_precedence for every precedence, over the rule table"""
        M = self.M; fn = M.meth.get('parse_precedence')
        if fn is None: self.res.undecide('operator expressions', 'no parse_precedence', *props); return
        G = grammar
        classes = {}
        for k, row in M.table.items(): classes.setdefault(tuple(sorted(row.items())), []).append(k)
        M.classes = [tuple(v) for v in classes.values()]
        def ref(r):
            x = r.E.args[1][2]; can = x <= M.asg
            def row():
                for c in M.classes:
                    if r.at(*c): return M.table[c[0]]
                raise G.Reject(r.pos, ('E1003', 'E1004'))
            w = row()
            if 'prefix' not in w: raise G.Reject(r.pos, G.UNEXPECTED)
            node = r.child(('rule', w['prefix'][0], ('b', can)))
            for _ in range(8):
                w = row(); use = w.get('postfix') or w.get('infix')
                if use is None or x > use[1]: return node
                node = r.child(('rule', use[0], ('s', r.E.sym(('child-id',) + node[1:], parser.IDT)), ('b', can)))
            raise G.TooDeep()
        pty = M.tyname(PREC)
        for x, n in enumerate(M.prec):
            def su(E, st, args, x=x): args[1] = ('adt', pty, x, ())
            self.root('operator expressions at ' + n, fn, ref, props, setup=su, rounds=1, starts=['Identifier'])
            if n in ('Assignment', 'Unary', 'Pipeline'): self.root('first operand at ' + n, fn, ref, props, setup=su, rounds=0)

"""Reference semantics of the compiler, one function per syntax construct, co-executed with the traces extracted from the code.

A Spec object walks one path of the emitted template event by event; the reference function states which event must come next.
Compile-time distinctions (syntax variants, flags, name resolution) are read off the facts of the analysed outcome; a distinction
the code did not make is tried both ways."""
import re
from engine import *
from bytecode import Bad, Undecided

class Stop(Exception): pass
def norm_ctx(evs):
    """type names and implicit variables may be evaluated before or after the construct's own variables are declared"""
    return [e[:3] + (e[3][1:],) if e[0] == 'eval' and e[1].startswith('ident ') and e[3] and e[3][0][0] == '' else e for e in evs]
def under(x):
    """an operand the construct did not push itself"""
    return isinstance(x, tuple) and (x[:1] == ('under',) or any(under(y) for y in x))

class SpecErr(Exception): pass

class V:
    """a value of the analysed program, with field access by name"""
    def __init__(self, S, v): self.S = S; self.v = v
    @property
    def t(self): return self.S.R.txt(self.v)
    def f(self, name):
        x = self.S.R.field(self.v, name)
        if x is None: raise Stop('no field %s' % name)
        return V(self.S, x)
    def var(self):
        """variant name"""
        S = self.S; v = self.v; E = S.E
        if v is not None and v[0] == 'adt':
            vs = E.P.variants(v[1]); return vs[v[2]]['n']
        if v is None or v[0] != 's': raise Stop('variant of an opaque value')
        vs = E.P.variants(E.symty[v[1]])
        if not vs: raise Stop('variant of ' + E.symty[v[1]])
        if len(vs) == 1: return vs[0]['n']
        i = S.pick([i for i in range(len(vs)) if E.decide(S.st, ('c', 'isvar', v[1], i)) is not False],
                   lambda i: E.assume(S.st, ('c', 'isvar', v[1], i), True), S.given(v))
        return vs[i]['n']
    def pay(self, variant, k=0):
        """payload field k of the given variant"""
        S = self.S; v = self.v; E = S.E
        if v[0] == 'adt':
            if isinstance(k, str): k = [n for n, t in E.P.variants(v[1])[v[2]]['f']].index(k)
            return V(S, v[3][k])
        vs = E.P.variants(E.symty[v[1]])
        i = [j for j, x in enumerate(vs) if x['n'] == variant][0]
        if isinstance(k, str):
            k = [j for j, (n, t) in enumerate(vs[i]['f']) if n == k][0]
        return V(S, E.proj(S.st, v, k, i))
    def some(self):
        """the payload of an Option, or None"""
        n = self.var()
        return self.pay('Some') if n == 'Some' else None
    def flag(self):
        return self.S.ask(self.v)
    def strip(self): return V(self.S, self.S.E.strip(self.S.st, self.v))

class Spec:
    def __init__(self, R, path, choices, err_mode=False, sub=None):
        self.R = R; self.E = R.E; self.M = R.M
        self.st = R.st.fork() if sub is None else sub
        self.choices = choices; self.ci = 0; self.forks = None
        self.path = path; self.i = 0; self.pre = ''
        self.ev = norm_ctx(path[3].ev) if path else []
        self.err_mode = err_mode; self.errs = []
        self.reports = []
        self.sc = []             # scopes opened: (kind, entry, names)
        self.fresh = 0; self.rt = None
        self.deps = []; self.skip = set()
        self.loose = False       # nested code may have changed the variables looked at
    # ---- choices
    def pick(self, opts, assume, asked=False):
        if len(opts) == 1: return opts[0]
        if not opts: raise Stop('contradiction')
        if self.ci < len(self.choices): k = self.choices[self.ci]
        else: k = 0; self.choices = self.choices + (0,)
        self.widths = getattr(self, 'widths', []); self.widths = self.widths[:self.ci] + [len(opts)]
        self.kinds = getattr(self, 'kinds', [])[:self.ci] + [asked]
        self.ci += 1
        assume(opts[k]); return opts[k]
    def given(self, x):
        """is this a distinction about the construct itself, not about a round of a loop or what was compiled before"""
        E = self.E; seen = set()
        def sym(sid):
            if sid in seen: return True
            seen.add(sid); t = E.tlist[sid]
            if t[0] == 'init': return not str(t[1]).startswith('c.') or str(t[1]).endswith('^.kind')
            # the properties of the variable a name was resolved to
            if not self.loose and t[0] == 'elem' and is_i(t[2]) and not t[2][1] and len(t[2][2]) == 1 and t[2][2][0][1] == 1 and E.tlist[t[2][2][0][0]][0] == 'match': return True
            if t[0] == 'elem': return is_i(t[2]) and not t[2][2] and (sym(t[1]) if isinstance(t[1], int) else walk(t[1]))
            if t[0] in ('f', 'nodeof', '*', 'node', 'len'): return all(sym(y) if isinstance(y, int) and t[0] == 'f' and j == 0 else walk(y) for j, y in enumerate(t[1:]))
            return False
        def walk(y):
            if not isinstance(y, tuple): return True
            if len(y) == 2 and y[0] == 's': return sym(y[1])
            if y and y[0] == 'i' and len(y) == 3: return all(sym(a) for a, b in y[2])
            if len(y) == 4 and y[:2] == ('c', 'isvar'): return sym(y[2])
            return all(walk(z) for z in y)
        return walk(x)
    def ask(self, cond, given=False):
        E = self.E
        r = E.decide(self.st, cond)
        if r is not None: return r
        return self.pick([True, False], lambda b: E.assume(self.st, cond, b), given or self.given(cond))
    # ---- reporting
    def report(self, props, what):
        self.reports.append((tuple(props) if isinstance(props, (tuple, list)) else (props,), what))
    def err(self, code, prop, go_on=False):
        """the construct must be rejected with this code"""
        if self.err_mode:
            self.errs.append(code)
            if go_on: return
            raise SpecErr(code)
        self.report(prop, 'accepted, must be rejected with ' + code)
        raise Stop('accepted')
    # ---- events
    SOFT = {'assert_type': 'C18', 'close': 'C15'}
    def peek(self):
        while self.i in self.skip: self.i += 1
        return self.ev[self.i] if self.i < len(self.ev) else None
    def ref(self): return ('r', self.pre + str(self.i))
    def emit(self, props, *want, **kw):
        """the next event must be `want`; returns the value it yields"""
        if self.err_mode:
            self.fresh += 1; return ('x', self.fresh)
        while True:
            got = self.peek()
            if got == want:
                r = self.ref(); self.i += 1; return r
            if got is not None and got[0] in self.SOFT and got[0] != want[0]:
                self.report((self.SOFT[got[0]],), 'unexpected %s' % show(got)); self.i += 1; continue
            if got is not None and got[0] == 'eval' and got[1].startswith('ident ') and self.i + 1 < len(self.ev) and self.ev[self.i + 1][0] == 'assert_type' and \
               self.ev[self.i + 1][2] == self.ref() and want[0] != 'assert_type' and not (want[0] == 'eval' and want[1].startswith('ident')):
                self.report(('C18',), 'unexpected type assertion %s' % show(self.ev[self.i + 1])); self.i += 2; continue
            if self.is_closes(got) and want[0] != 'closes':
                self.report(('C15',), 'unexpected %s' % show(got)); self.i += 1; continue
            break
        if got is not None and got[0] == want[0]:
            # same action with another operand: attribute and go on
            self.differ(props, got, want)
            r = self.ref(); self.i += 1; return r
        # right after a branch the instructions executed are those its jump leads to
        if self.i and self.ev[self.i - 1][0] == 'test' and 'C02' not in props: props = tuple(props) + ('C02',)
        self.report(props, 'expected %s, found %s' % (show(want), show(got) if got else self.tail()))
        raise Stop('diverged')
    def tail(self):
        return 'the end (%s)' % self.path[0]
    def differ(self, props, got, want):
        k = got[0]; p = list(props)
        if k in ('bin', 'un') and got[1] != want[1]: p = ['C05', 'C04']
        elif k in ('load', 'store'): p = ['C16', 'C04', 'C07'] if got[1] != want[1] else ['C04']
        elif k in ('loadup', 'storeup'): p = ['C15', 'C04'] if got[1] != want[1] else ['C04']
        elif k == 'assert_type': p = ['C18']
        elif k == 'close': p = ['C15']
        elif k in ('field', 'setfield', 'global', 'setglobal', 'module', 'class', 'setmethod', 'supermethod'): p = ['C04', 'C21', 'C25'] + (['C05'] if 'C05' in props else [])
        elif k == 'eval' and got[1] == want[1] and got[2] == want[2]: p = ['C17']
        elif k == 'closure': p = ['C15', 'C21']
        if under(got) and not under(want): p = p + ['C01']
        self.report(p, 'expected %s, found %s' % (show(want), show(got)))
    def eval(self, v, kind='', name=None, chain=False):
        nm = name if name is not None else v.t
        return self.emit(('C04',), 'eval', nm, kind, self.scopes())
    def ident(self, name, props=('C04',), anywhere=False):
        nm = name if isinstance(name, str) else name.t
        g = self.peek()
        if anywhere and g and g[:3] == ('eval', 'ident ' + nm, ''): return self.emit(props, *g)
        return self.emit(props, 'eval', 'ident ' + nm, '', self.scopes())
    def load_named(self, quoted):
        """loads the variable of that name, as the construct's own scopes and declarations resolve it"""
        g = self.peek()
        if g and g[0] == 'load' and isinstance(g[1], tuple) and g[1][0] == 'new':
            lit = ('str', quoted.strip('"'))
            for k, v in self.st.facts.items():
                if v is True and k[0] == 'c' and k[1] == 'eq' and lit in k[2:4] and any(self.R.txt(x) == g[1][1] for x in k[2:4]): return self.emit(('C04',), *g)
        return self.emit(('C04', 'C16'), 'load', ('var', quoted))
    def scopes(self):
        return tuple((k, 'entry' if e else '', tuple(ns)) for k, e, ns in self.sc)
    def bin(self, op, a, b): return self.emit(('C04', 'C05'), 'bin', op, a, b)
    def un(self, op, a): return self.emit(('C04', 'C05'), 'un', op, a)
    def assert_bool(self, v): return self.emit(('C04',), 'assert_bool', v)
    def test(self, v):
        if self.err_mode: return self.pick([True, False], lambda b: None)
        g = self.peek(); neg = False
        if g and g[0] == 'un' and g[1] == 'Not' and g[2] == v and self.i + 1 < len(self.ev) and self.ev[self.i + 1][:2] == ('test', self.ref()):
            neg = True; self.i += 1; g = self.peek(); v = g[1]
        if g and g[0] == 'test' and g[1] == v:
            self.i += 1; return g[2] != neg
        if g and g[0] == 'test':
            self.report(('C04',), 'the branch depends on %s instead of %s' % (show(g[1]), show(v))); self.i += 1; return g[2] != neg
        return bool(self.emit(('C04',), 'test', v, True))
    def is_null(self, v):
        if self.err_mode: return self.pick([True, False], lambda b: None)
        g = self.peek()
        if g and g[0] == 'bin' and g[1] == 'NotEqual' and self.const_null(g): 
            x = self.emit(('C04',), 'bin', 'NotEqual', v, ('const', 'null')); return not self.test(x)
        x = self.emit(('C04',), 'bin', 'Equal', v, ('const', 'null')); return self.test(x)
    def const_null(self, g): return ('const', 'null') in g[2:4]
    def close(self, names):
        """the captured ones of these variables are closed here"""
        pass
    def is_closes(self, g):
        return bool(g) and g[0] == 'rep' and any(a[1] for a in g[2]) and all(all(e[0] == 'close' for e in a[1]) for a in g[2])
    def closes(self, names, inner=0):
        """every captured variable of the ended scope is closed, and nothing else"""
        if self.err_mode: return
        need = []
        for nm in names:
            if self.captured(nm): need.append(nm)
        got = []; reps = 0
        while True:
            g = self.peek()
            if g and g[0] == 'close': got.append(g[1]); self.i += 1
            elif self.is_closes(g): reps += self.good_rep(g); self.i += 1
            else: break
        for nm in need:
            m = [x for x in got if x[1] == nm]
            if not m: self.report('C15', 'captured variable %s is not closed when its scope ends' % nm)
            else: got.remove(m[0])
        for x in got: self.report('C15', '%s is closed though it is not captured here' % (x,))
        if reps != inner: self.report('C15', 'captured variables declared by nested code are not all closed when their scope ends (%d of %d groups)' % (reps, inner))
    def leaves_scopes(self):
        """control leaves the enclosing scopes here: their captured variables are closed, too"""
        if self.err_mode: return
        at = [j for j in range(self.i, len(self.ev)) if self.is_closes(self.ev[j])]
        if not at: self.report('C15', 'captured variables of the scopes left here stay open')
        for j in at: self.good_rep(self.ev[j]); self.skip.add(j)
    def good_rep(self, g):
        """a group closing exactly the captured elements of a nested declaration list"""
        for facts, ev, _ in g[2]:
            cap = [f for f in facts if f.endswith('.is_captured=True')]
            if not ev:
                if not [f for f in facts if f.endswith('.is_captured=False')]:
                    self.report('C15', 'a captured variable declared by nested code may stay open when its scope ends'); return 0
                continue
            if not cap or any(e[0] != 'close' or e[1][0] not in ('inner', 'elem', 'new') for e in ev) or len(ev) != 1:
                self.report('C15', 'closing of nested variables is not tied to their being captured'); return 0
        return 1
    def captured(self, nm):
        best = None
        for k, val in self.st.facts.items():
            if k[0] == 's':
                t = self.E.tlist[k[1]]
                if t[0] == 'captured-by' and self.R.txt(t[2]) == nm and (best is None or t[1] > best[0]): best = (t[1], val)
        if best: return best[1]
        # flags generalised over a loop
        vt = self.E.T['dice_compiler::scope_stack::ScopeVariable']['variants'][0]['f']
        ci = [i for i, (n, t) in enumerate(vt) if n == 'is_captured']
        if len({x[1] for x in self.R.declared}) == 1 and self.R.declared[0][1] == nm:
            for k, val in self.st.facts.items():
                if k[0] == 's' and self.E.tlist[k[1]][0] == 'lv' and self.E.symty[k[1]] == 'bool':
                    pth = self.E.tlist[k[1]][2]
                    if ci and pth[-1] == ci[0] and len(pth) > 1 and isinstance(pth[-2], tuple) and pth[-2][0] == 'seg': return val
        its = self.items()
        for k, val in self.st.facts.items():
            if k[0] == 's' and self.E.tlist[k[1]][0] == 'lv' and self.E.symty[k[1]] == 'bool':
                pth = self.E.tlist[k[1]][2]
                if ci and pth[-1] == ci[0] and len(pth) > 1 and isinstance(pth[-2], tuple) and pth[-2][0] == 'seg' and pth[-2][1] < len(its):
                    it = its[pth[-2][1]]
                    if it[0] == 'one' and self.R.txt(self.R.field(it[1], 'name')) == nm: return val
        for k, val in self.st.facts.items():
            if k[0] == 's' and self.R.txt(k).endswith('.is_captured') and nm in self.R.txt(k): return val
        return None
    def rep(self, n, body, props=('C04',), carried=None, skip_empty=None, ctx_free=False):
        """a group repeated n times; body(S) describes one round and returns its value"""
        if self.err_mode:
            body(self); return ('many', n, '?')
        g = self.peek()
        if skip_empty is not None and (not g or g[0] != 'rep' or g[1] != n) and self.R.is_empty(self.st, skip_empty.v) is True: return ('many', n, '?')
        if not g or g[0] != 'rep' or self.is_closes(g):
            if g is None or g[0] in ('close',) or True:
                self.report(props, 'expected a group repeated %s times, found %s' % (n, show(g) if g else self.tail())); raise Stop('diverged')
        pre = '%s%d.' % (self.pre, self.i)
        if g[1] != n: self.report(props, 'a group is repeated %s times instead of %s' % (g[1], n))
        raw = self.R.repraw.get((g[1], g[2]))
        for ai, alt in enumerate(g[2]):
            facts, evs, val = alt
            todo = [()]; seen = 0
            while todo:
                ch = todo.pop(); seen += 1
                if seen > 64: break
                st = self.st.fork()
                if raw: st.facts.update(raw[0][ai])
                sub = Spec(self.R, (self.path[0],) + tuple(self.path[1:]), ch, sub=st)
                sub.ev = norm_ctx(evs); sub.i = 0; sub.pre = pre; sub.sc = self.sc; sub.lv = pre; sub.K = raw[1] if raw else None
                try:
                    v = body(sub)
                    while sub.i < len(sub.ev):
                        sub.report(props, 'unexpected %s in a repeated group' % show(sub.ev[sub.i])); sub.i += 1
                    if v is not None and val is not None and v != val:
                        sub.report(props, 'a repeated group yields %s instead of %s' % (show(val), show(v)))
                except Stop as e:
                    if str(e) == 'contradiction': sub.reports = []
                except SpecErr: pass
                self.reports += sub.reports
                w = getattr(sub, 'widths', [])
                c = sub.choices[:sub.ci]
                for k in range(len(ch), len(c)):
                    for o in range(1, w[k]): todo.append(c[:k] + (o,))
        self.i += 1
        return ('many', n, pre)
    # ---- ends
    def done(self, kinds, props, value=None, stack=None):
        if self.err_mode: raise Stop('done')
        while self.peek() is not None:
            g = self.ev[self.i]
            p = (self.SOFT[g[0]],) if g[0] in self.SOFT else ('C15',) if self.is_closes(g) else props
            self.report(p, 'unexpected %s' % show(g)); self.i += 1
        kind, v, stk, tr = self.path
        if kind not in kinds:
            self.report(('C02', 'C04'), 'control %s here instead of %s' % (WORD.get(kind, kind), ' or '.join(WORD.get(k, k) for k in kinds)))
            raise Stop('done')
        if value is not None and v != value: self.report(props, 'the result is %s instead of %s' % (show(v), show(value)))
        if stack is not None:
            got = tuple(stk)[len(self.R.X.norm(tuple(self.R.base))):]
            if len(got) != len(stack): self.report(('C01',), 'leaves %s on the operand stack instead of %s' % (show(got), show(tuple(stack))))
            elif got != tuple(stack):
                p = list(props)
                if any(a[0] == 'const' and b[0] == 'const' for a, b in zip(got, stack)): p.append('C21')
                self.report(p, 'the result is %s instead of %s' % (show(got), show(tuple(stack))))
        raise Stop('done')
    def end(self, *stack): self.done(('end',), ('C04',), None, stack)
    def ret(self, v): self.done(('ret',), ('C04',), v)
    def head(self):
        if self.err_mode: return 0
        g = self.peek()
        if g == ('head',): self.i += 1; return self.i - 1
        self.report(('C02', 'C04'), 'no loop head where the loop starts'); return None
    def back(self, h, stack=None, carried=None):
        if self.err_mode: raise Stop('done')
        kind, v, stk, tr = self.path
        if kind == 'back' and h is not None:
            if v[1] != h: self.report(('C02', 'C04'), 'the loop does not restart at its head')
            if len(v) > 2:
                got = tuple(v[3])[len(self.R.X.norm(tuple(self.R.base))):]
                if carried is None or got != tuple(carried): self.report(('C04',), 'carries %s into the next round' % show(got))
            elif carried is not None: self.report(('C04',), 'does not carry %s into the next round' % show(carried))
        self.done(('back',), ('C04',))
    def exit(self, what):
        if self.err_mode: raise Stop('done')
        kind, v, stk, tr = self.path
        if kind == 'exit' and tuple(v) != (what,):
            self.report(('C02', 'C17'), 'jumps to the %s instead of the %s' % (','.join(map(str, v)), what))
        if self.peek() and self.peek()[0] == 'discard': self.i += 1
        if kind == 'exit':
            got = self.R.loop_level(stk)
            if got is None: self.report('C03', 'leaves or restarts the loop with %s instead of the values the loop itself keeps' % show(tuple(stk)))
            else: self.R.levels.add(got)
        self.done(('exit',), ('C04',))
    # ---- results
    def alt_end(self, *alts):
        """several results are acceptable"""
        if self.err_mode: raise Stop('done')
        stk = self.path[2]; got = tuple(stk)[len(self.R.X.norm(tuple(self.R.base))):] if self.path[0] == 'end' else None
        for a in alts:
            if got == (a,): self.end(a)
        self.end(alts[0])
    def end_true(self, v):
        """the answer is true: the comparison with null just made, or a constant"""
        if self.err_mode: raise Stop('done')
        e = self.ev[self.i - 1] if self.i else None
        nul = ('r', self.pre + str(self.i - 2)) if e and e[0] == 'test' and e[2] is True else None
        stk = self.path[2]; got = tuple(stk)[len(self.R.X.norm(tuple(self.R.base))):] if self.path[0] == 'end' else None
        if nul is not None and got == (nul,) and self.ev[self.i - 2][:2] == ('bin', 'Equal'): self.end(nul)
        self.end(('const', True))
    def chain_exit(self, v):
        """leaves the enclosing access chain with this value"""
        if self.err_mode: raise Stop('done')
        if self.path[0] == 'exit':
            if self.path[1] not in (('chain-exit',), ('patched',)): self.report(('C02', 'C04'), 'the jump out of the null-propagating chain goes to %s' % (self.path[1],))
            self.done(('exit',), ('C04',), None, (v,))
        self.done(('exit', 'end'), ('C04',), None, (v,))
    def discard(self):
        """every value in flight below the top is dropped"""
        if self.err_mode: return
        t = self.R.txt(('s', self.R.T0)) if self.R.T0 is not None else ''
        g = self.peek()
        if g and g[0] == 'discard': self.i += 1
        elif self.R.zero_temps(self.st): pass
        else: self.report(('C03',), 'leaves without dropping the values in flight')
    # ---- syntax
    def node(self, idv):
        """the syntax node an id refers to"""
        return V(self, self.E.mk(('nodeof', self.E.freeze(self.st, idv.v)), self.R.M.SYN))
    def initial(self, path):
        """a field of the initial state of the innermost function being compiled"""
        v = self.R.M.get(self.E, self.st, self.R.init, 'compiler_stack', 'stack', 'last', *path)
        return V(self, v)
    def ctxkind(self): return self.initial(('kind',))
    def scope_field(self, name): return self.initial(('scope_stack', 'stack', 'last', name)).v
    def text_is(self, v, quoted):
        return self.ask(self.E.eqv(self.st, v.v, ('str', quoted.strip('"'))))
    def in_loop(self):
        """is there a loop among the scopes of this function"""
        k = self.initial(('scope_stack', 'stack', 'last', 'kind'))
        if k.var() == 'Loop': return True
        yes = no = False
        E = self.E
        li = [i for i, v in enumerate(E.P.variants('dice_compiler::scope_stack::ScopeKind')) if v['n'] == 'Loop'][0]
        for key, val in self.st.facts.items():
            if key[0] == 'var' and val == li and E.tlist[key[1]][0] == 'f':
                el = E.tlist[E.tlist[key[1]][1]]
                if el[0] == 'elem' and E.symty[E.tlist[key[1]][1]].endswith('ScopeContext') and self.where(E.tlist[key[1]][1]) == 'own': yes = True
            if 'nomatch' in key[:2] and val is True and self.loopsearch(key, li): no = True
        if yes: return True
        if no: return False
        lo, hi = E.bounds(self.st, E.slen(E.seqof(self.initial(('scope_stack', 'stack')).v)[1][0]))
        if hi == 0: return False
        return self.pick([True, False], lambda b: None)
    def loopsearch(self, key, li):
        """a search over the own scopes for one of kind Loop"""
        hit = [False, False]
        def walk(x):
            if isinstance(x, tuple):
                if x and x[0] == 'adt' and str(x[1]).endswith('ScopeKind') and x[2] == li: hit[0] = True
                if len(x) >= 2 and x[0] == 'sym' and isinstance(x[1], int) and 'scope_stack.stack' in self.E.pt(x[1]) and self.where(x[1]) == 'own': hit[1] = True
                if x and x[0] == 'clo' and not x[2] and self.R.closure_names_loop(x[1]): hit[0] = True
                for y in x: walk(y)
        walk(key); return all(hit)
    def capture_mutable(self, name, el):
        """is the captured variable mutable, as recorded with the capture"""
        E = self.E
        for sid in range(len(E.tlist)):
            t = E.tlist[sid]
            if t[0] == 'resolve' and t[1] == name.v and t[2] == I(0):
                idx = E.symfield(sid, 1, 0)
                ups = E.seqof(self.initial(('upvalues',)).v)
                d = V(self, E.mk(('elem', ups[1][0][1], idx), 'dice_compiler::upvalue::UpvalueDescriptor'))
                k = d.var(); return d.pay(k, 'is_mutable').flag()
        return self.pick([True, False], lambda b: None)
    # ---- declarations
    def declares(self, name, variant, mut):
        """the variable declared here has this kind and mutability, and is initialised"""
        if self.err_mode: return
        E = self.E
        for slot, nm, f in self.R.declared:
            if nm != name: continue
            stt = V(self, f.get('state'))
            if stt.v is None: continue
            if stt.var() != variant: self.report(('C06', 'C07'), '%s is declared as a %s' % (name, stt.var())); continue
            if mut is not None:
                m = stt.pay(variant, 'is_mutable')
                if E.decide(self.st, E.eqv(self.st, m.v, mut)) is not True and not self.same_flag(m.v, mut):
                    self.report('C06', 'the variable %s is declared with mutability %s instead of %s' % (name, m.t, self.R.txt(mut)))
            i = stt.pay(variant, 'is_initialized')
            if E.decide(self.st, i.v) is not True and i.v != ('b', True): self.report('C07', 'the variable %s is not usable after its declaration' % name)
    def same_flag(self, a, b):
        da = a[1] if a[0] == 'b' else self.E.decide(self.st, a); db = b[1] if b[0] == 'b' else self.E.decide(self.st, b)
        return da is not None and da == db
    def unique_args(self, args):
        """no two parameters share a name"""
        u = self.R.unique(self.st, args)
        if u is None and self.R.compared(self.st, args): raise Undecided('names are compared with one another in an unknown way')
        if u is None: u = self.pick([True, False], lambda b: None)
        if not u: self.err('FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS', ('C07',), True)
    def own_function(self, name, variant, code, skip=None):
        """the local a declaration initialises: scanned before, of its own kind, and not initialised yet"""
        if skip and self.text_is(name, skip): raise Stop('contradiction')
        how, el = self.lookup(name)
        self.loose = True
        if how == 'local':
            k = el.f('state').var()
            if k != variant: self.err(code, ('C07',), True)
            elif el.f('state').pay(variant, 'is_initialized').flag(): self.err(code, ('C07',), True)
            elif not self.err_mode and self.R.final_flag(el.v, variant) is not True:
                self.report('C07', '%s is not marked as declared' % name.t)
        elif how == 'inner' or how == 'local?':
            if self.err_mode: self.err(code, ('C07',), True)
        else: self.err('INTERNAL_COMPILER_ERROR', ('C07',), True)
        self.loose = False
        return ('var', name.t)
    # ---- blocks
    def items(self):
        """what the construct declares itself before it compiles the first nested expression: pushes and loops of pushes"""
        E = self.E; out = []
        def visits(evs): return any(e[0] == 'visit' and e[2] == self.M.IDT for e in self.R.walk(evs))
        def pushes(evs): return [e for e in self.R.walk(evs) if e[0] == 'push' and self.R.is_var(e[2])]
        for e in self.R.st.events():
            if e[0] == 'visit' and e[2] == self.M.IDT: break
            if e[0] == 'push' and self.R.is_var(e[2]): out.append(('one', e[2]))
            elif e[0] == 'loop':
                alts = E.reps[e[1]]['alts']
                if any(visits(a['ev']) for a in alts): break
                if any(pushes(a['ev']) for a in alts): out.append(('each', self.R.txt(e[2]), [(a['facts'], [p[2] for p in pushes(a['ev'])]) for a in alts], E.reps[e[1]]['K']))
        return out
    def decl_of(self, st, nv):
        """the function or class an expression of a block declares: (kind, name), None, or '?'"""
        E = self.E; vs = [x['n'] for x in E.P.variants(self.M.SYN)]
        for k, kind in (('FnDecl', 'Function'), ('ClassDecl', 'Class'), ('ExportDecl', None)):
            d = E.decide(st, E.isvar(st, nv, vs.index(k)))
            if d is None: return '?'
            if d:
                pay = E.proj(st, nv, 0, vs.index(k))
                if kind: return kind, self.R.txt(self.R.field(self.R.field(pay, 'name'), 'identifier'))
                return self.decl_of(st, self.node(V(self, self.R.field(pay, 'export'))).v)
        return None
    def var_is(self, v, name, kind, mutable, init, who):
        """a declared variable is as prescribed"""
        nm = self.R.txt(self.R.field(v, 'name')); stt = self.R.field(v, 'state')
        if nm != name: return '%s is declared instead of %s' % (nm, name)
        k = V(self, stt); kv = k.var()
        if kv != kind: return '%s %s is declared as a %s' % (who, name, kv)
        if E_true(self, k.pay(kv, 'is_initialized').v) is not init: return '%s %s is %susable at the start of its block' % (who, name, 'not ' if init else '')
        if kv == 'Local' and E_true(self, k.pay(kv, 'is_mutable').v) is not mutable: return '%s %s is %smutable' % (who, name, 'not ' if mutable else '')
        if E_true(self, self.R.field(v, 'is_captured')) is not False: return '%s %s starts out as captured' % (who, name)
        return None
    def parameters(self, args, kv):
        """every parameter is a local, in call order; a function's first slot is its hidden receiver; annotated ones are checked on entry"""
        if self.err_mode: return
        it = self.items(); i = 0
        if kv == 'Function':
            if not it or it[0][0] != 'one' or self.R.txt(self.R.field(it[0][1], 'name')) in (args.t, SELFTXT): self.report(('C16',), 'the first slot of a function is not kept for the receiver its caller pushes')
            else: i = 1; self.receiver = [self.R.txt(self.R.field(it[0][1], 'name'))]
        self.used_items = i
        N = 'len(%s)' % args.t
        none = self.R.is_empty(self.st, args.v)
        if i < len(it) and it[i][0] == 'each' and it[i][1] == N:
            for facts, ps in it[i][2]:
                if len(ps) != 1: self.report(('C16', 'C07'), 'a parameter declares %d variables' % len(ps)); continue
                m = self.var_is(ps[0], args.t + '[k].name', 'Local', False, True, 'the parameter')
                if m: self.report(('C16', 'C06', 'C07'), m)
            self.used_items = i + 1
        elif not none: self.report(('C16', 'C07'), 'the parameters do not take the slots after the receiver, in order')
        # annotations
        if none and not (self.peek() and self.peek()[0] == 'rep' and self.peek()[1] == N): return
        def one(s):
            a = V(s, s.elem(args)); ty = a.f('type_').some()
            if ty is None: return None
            t = s.ident(ty.f('name').f('identifier'), ('C18',))
            s.emit(('C18',), 'assert_type', bool(ty.f('is_nullable').flag()), t, ('new', args.t + '[k].name'))
        self.rep(N, one, props=('C18',), ctx_free=True)
    def hoisted(self, n):
        """functions and classes of a block (also exported ones) are declared before its code, not yet usable"""
        if self.err_mode: return
        it = self.items()[getattr(self, 'used_items', 0):]; self.explicit = list(getattr(self, 'receiver', []))
        xs = n.f('expressions'); N = 'len(%s)' % xs.t
        loops = [x for x in it if x[0] == 'each']; ones = [x for x in it if x[0] == 'one']
        tr = n.f('trailing_expression').some()
        if tr is not None:
            d = self.decl_of(self.st, self.node(tr).v)
            if d == '?': self.report(('C07',), 'the last expression of a block is not looked at for declarations')
            elif d is not None:
                hit = [x for x in ones if self.var_is(x[1], d[1], d[0], None, False, 'the declaration') is None]
                if not hit: self.report(('C07',), 'the declaration of %s that ends a block is not known in the block' % d[1])
                else: ones.remove(hit[0]); self.explicit.append(d[1])
        for x in ones: self.report(('C07', 'C16'), 'a block declares %s' % self.R.txt(self.R.field(x[1], 'name')))
        mine = [x for x in loops if x[1] == N]
        if len(mine) > 1 or len(loops) > len(mine): self.report(('C07', 'C16'), 'a block declares further variables')
        if not mine:
            if not self.R.is_empty(self.st, xs.v): self.report(('C07',), 'the declarations of a block are not known in the block')
            return
        for facts, ps in mine[0][2]:
            st = self.st.fork(); st.facts.update(facts)
            sub = Spec(self.R, self.path, (), sub=st); sub.K = mine[0][3]
            nv = sub.node(V(sub, sub.elem(xs))).v
            d = sub.decl_of(st, nv)
            if d == '?': self.report(('C07',), 'an expression of a block is not looked at for declarations'); continue
            if d is None:
                if ps: self.report(('C07', 'C16'), 'an expression that declares no function or class declares %s' % self.R.txt(self.R.field(ps[0], 'name')))
                continue
            if len(ps) != 1: self.report(('C07',), 'the declaration of %s is %s in its block' % (d[1], 'not known' if not ps else 'entered %d times' % len(ps))); continue
            m = sub.var_is(ps[0], d[1], d[0], None, False, 'the declaration')
            if m: self.report(('C07',), m)
    def before_closing(self):
        """a value read next is read before the variables of the scope are closed: closing moves them out of their slots"""
        if self.err_mode: return
        g = self.peek()
        if self.is_closes(g) or g and g[0] == 'close':
            self.report('C15', 'a captured variable is read from its slot after it has been closed'); raise Stop('diverged')
    def closes_scope(self):
        """every captured variable of the block is closed"""
        if self.err_mode: return
        E = self.E; groups = 0
        def inner(evs, var): return any((e[0] == 'visit' and e[2] == self.M.IDT) or (e[0] == 'push' and self.R.is_var(e[2])) for e in self.R.walk(evs))
        for e in self.R.st.events():
            if e[0] == 'visit' and e[2] == self.M.IDT: groups += 1
            elif e[0] == 'loop' and any(inner(a['ev'], 0) for a in E.reps[e[1]]['alts']): groups += 1
        self.closes(list(getattr(self, 'explicit', [])), groups)
    def starts_with_super_call(self, n):
        """is the first expression of the block a super call?"""
        xs = n.f('expressions'); vs = [x['n'] for x in self.E.P.variants(self.M.SYN)]
        e = self.R.is_empty(self.st, xs.v)
        if e is None: e = self.ask(self.E.eq0(self.E.slen(self.E.seqof(xs.v)[1][0])))
        if not e: nd = self.node(V(self, self.E.elem(self.st, self.E.seqof(xs.v), 0, I(0))))
        else:
            t = n.f('trailing_expression').some()
            if t is None: return False
            nd = self.node(t)
        return self.ask(self.E.isvar(self.st, nd.v, vs.index('SuperCall')))
    def open(self, kind, entry=False): self.sc.append([kind, entry, []])
    def shut(self): self.sc.pop()
    def declare_in(self, name): self.sc[-1][2].append(name)
    def loopvar(self): return ('lv', getattr(self, 'lv', ''), 1)
    def elem(self, xs):
        """the element of the current round"""
        E = self.E; q = E.seqof(xs.v)
        sid = q[1][0][1]
        K = getattr(self, 'K', None)
        if K is None:
            for i in range(len(E.tlist) - 1, -1, -1):
                t = E.tlist[i]
                if t[0] == 'elem' and t[1] == sid: return ('s', i)
            K = I(0)
        elt = E.elemty_of(q)
        return E.mk(('elem', sid, K), elt)
    def first_is_self(self, args):
        """the first parameter, if it is called self"""
        E = self.E; q = E.seqof(args.v)
        n = E.seqlen(q)
        if not self.ask(E.cmp('Gt', n, I(0))): return None
        a = V(self, E.elem(self.st, q, 0, I(0)))
        return a if self.text_is(a.f('name'), '"self"') else None
    def rep_loop(self, n, body, init):
        """a repeated group that carries one value from round to round; yields it after the last round"""
        if self.err_mode: body(self); return ('x',)
        g = self.peek()
        lo = None
        if not g or g[0] != 'rep' or self.is_closes(g): return self.none_repeated(n, init)
        if len(g) > 3 and g[3] != (init,): self.report('C04', 'the repeated group starts from %s' % show(g[3]))
        i0 = self.i
        self.rep(n, body)
        return ('lv', '%s%d.' % (self.pre, i0), 1) if len(g) > 3 else init
    def none_repeated(self, n, init):
        return init
    # ---- functions
    def function(self, n, args, ret, body, fk, name, kind=None):
        """the closure (or constant) of a nested function"""
        if self.err_mode: return ('x', 'fn')
        g = self.peek()
        if g and g[0] == 'closure':
            const = g[1]; caps = g[2]; val = self.ref(); self.i += 1
        else:
            const = caps = None; val = None
            for x in reversed(self.stack_values()):
                if isinstance(x, tuple) and len(x) == 2 and x[0] == 'const' and isinstance(x[1], tuple) and x[1][0] == 'Function': const = x[1][1:]; val = x
            if const is None:
                self.report(('C04', 'C21'), 'no function is created, found %s' % show(g)); raise Stop('diverged')
        if const[0] == '?': self.report(('C04', 'C21'), 'the function constant is not built from compiled code'); raise Stop('diverged')
        bodies, nm, slots, upv = const
        b = self.node(body); isb = b.var() == 'Block'
        want = b.pay('Block').t if isb else 'Block([], Some(%s)' % body.t
        blocks = {'Function': 'Function(%s)' % args.t, 'Method': 'Method(%s)' % args.t}
        ck = kind.pay('Constructor').var() if kind is not None and fk == 'Constructor' else None
        wk = blocks.get(fk) or 'Constructor(%s,%s)' % (args.t, ck)
        if len(bodies) != 1 or bodies[0][0] == 'raw':
            self.report(('C04',), 'the function consists of %s instead of its body' % show(bodies)); raise Stop('diverged')
        t, k, cx, temps, cn = bodies[0]
        if not t.startswith(want) or (t != want and not want.startswith('Block([')): self.report('C04', 'the function body is %s instead of %s' % (t, want))
        k = re.sub(r'&', '', k)
        wks = {wk}
        if fk == 'Constructor': wks.add('Constructor(%s,%s)' % (args.t, kind.pay('Constructor').t))
        if k not in wks: self.report(('C04', 'C16'), 'the function body is compiled as %s instead of %s' % (k, wk))
        r = ret.some() if fk != 'Constructor' else None
        cks = {'Constructor': ['Constructor']}.get(fk) or ['%s(%s)' % (fk, 'Some(%s)' % r.t if r is not None else 'None'), '%s(%s)' % (fk, ret.t)]
        if len(cx) != 1 or cx[0][0] not in cks: self.report(('C08', 'C18'), 'the function body is compiled in the context %s instead of %s' % (show(cx), cks[0]))
        elif cx[0][1] != (('Block', '', ()),): self.report(('C17',), 'the function body starts inside the scopes %s' % show(cx[0][1]))
        if temps != '0': self.report('C03', 'the function body starts with %s temporaries recorded' % temps)
        if name is not None and nm != (name,): self.report('C21', 'the function is named %s instead of %s' % (nm, name))
        if slots != 'grow(maxslots,%s)' % cn: self.report('C16', 'the function records %s slots instead of the number its body uses' % slots)
        wu = 'len(grow(upv,%s))' % cn
        if upv != wu: self.report('C15', 'the function records %s captures instead of the number its body uses' % upv)
        if caps is None:
            if not self.R.is_zero(self.st, ('upv', cn)): self.report('C15', 'a function with captures is created without them')
        else:
            el = 'grow(upv,%s)[k]' % cn
            good = {(('%s is ParentLocal' % el,), ('1', '%s.ParentLocal.slot' % el)), (('%s is Outer' % el,), ('0', '%s.Outer.upvalue_index' % el))}
            bad = {(c, (str(1 - int(k)), x)) for c, (k, x) in good}
            ok = len(caps) == 1 and isinstance(caps[0], tuple) and caps[0][0] == 'each' and caps[0][1] == wu and set(caps[0][2]) == good
            if not ok and len(caps) == 1 and caps[0][0] == 'each' and any(len(x) == 2 and len(x[1]) == 2 and (x[0], (y[1], y[0])) in good | bad or x in bad for x in caps[0][2] for y in [x[1]]): self.report('C10', 'the captures listed for the function are not written as the reader reads them: %s' % show(caps))
            if not ok: self.report('C15', 'the captures listed for the function are %s' % show(caps))
        return val
    def stack_values(self):
        """values of constants the path uses: on the final stack and in events"""
        out = []
        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 'const': out.append(x)
                for y in x: walk(y)
        walk(tuple(self.ev)); walk(tuple(self.path[2])); walk(self.path[1])
        if getattr(self, 'extra_vals', None): walk(self.extra_vals)
        return out
    # ---- name resolution
    def own(self, sid):
        return 'c.compiler_stack.stack^.scope_stack' in self.E.pt(sid)
    def lookup(self, name):
        """('local', variable) | ('capture',) | ('global',)"""
        E = self.E; nv = name.v; R = self.R
        par = None
        for k, val in self.st.facts.items():
            if val is True and isinstance(k, tuple) and k[0] == 'c' and k[1] == 'eq' and nv in k[2:4]:
                o = k[3] if k[2] == nv else k[2]
                if o[0] != 's': continue
                t = E.tlist[o[1]]
                if t[0] == 'f':
                    el = ('s', t[1]); ty = E.deref_ty(E.symty[t[1]])
                    if ty and ty.endswith('ScopeVariable'):
                        if self.where(t[1]) == 'own': return ('local', V(self, el))
                        if self.where(t[1]) == 'grow': return ('inner', V(self, el))
                        par = el
        own_no = self.nomatch(nv, 'own')
        if par is not None and own_no: return ('capture', V(self, par))
        if own_no and self.resolved(nv): return ('capture', None)
        if own_no and (self.no_parent() or self.nomatch(nv, 'parent') or self.unresolved(nv)): return ('global', None)
        if own_no:
            k = self.pick(['capture', 'global'], lambda b: None)
            return (k, None)
        k = self.pick(['local?', 'capture', 'global'], lambda b: None)
        return (k, None)
    def rootsym(self, sid):
        """the initial-state symbol an element ultimately belongs to"""
        E = self.E
        for _ in range(40):
            t = E.tlist[sid]
            if t[0] == 'init': return t[1]
            if t[0] == 'lv': return 'grow'
            if t[0] in ('f', 'elem') and isinstance(t[1], int): sid = t[1]
            elif t[0] == 'grow': return 'grow'
            else: return None
        return None
    def where(self, sid):
        r = self.rootsym(sid)
        if r is None: return None
        if r == 'grow': return 'grow'
        if r.startswith('c.compiler_stack.stack^'): return 'own'
        if r == 'c.compiler_stack.stack': return 'parent'
        return None
    def nomatch(self, nv, which):
        """some fact says that no element of the own (parent's) scopes carries the name"""
        for k, val in self.st.facts.items():
            if val is True and k[0] == 'c' and k[1] == 'nomatch' or (val is True and k[0] == 'nomatch'):
                ids = set(); has = [False]
                def walk(x):
                    if x == nv: has[0] = True
                    if isinstance(x, tuple):
                        if len(x) >= 2 and x[0] in ('sym', 's') and isinstance(x[1], int): ids.add(x[1])
                        for y in x: walk(y)
                walk(k)
                if has[0] and any(self.where(i) == which for i in ids) and self.E.passed_names(k, nv): return True
        return False
    def no_parent(self):
        E = self.E
        for sid, t in enumerate(E.tlist):
            if t == ('init', 'c.compiler_stack.stack'):
                lo, hi = E.bounds(self.st, E.slen(('sym', sid, '', 0, ())))
                return hi == 0
        return False
    def resolved(self, nv):
        for k, v in self.st.facts.items():
            if k[0] == 'var' and self.E.tlist[k[1]][0] == 'resolve' and self.E.tlist[k[1]][1] == nv: return v == 1
        return False
    def unresolved(self, nv):
        for k, v in self.st.facts.items():
            if k[0] == 'var' and self.E.tlist[k[1]][0] == 'resolve' and self.E.tlist[k[1]][1] == nv: return v == 0
        return False

WORD = {'end': 'reaches the end', 'ret': 'returns', 'back': 'goes back to the loop head', 'exit': 'leaves by a jump patched later', 'childret': 'ends in a returning block'}

SELFTXT = '"self"'
def E_true(S, v):
    return v[1] if v is not None and v[0] == 'b' else S.E.decide(S.st, v)
def show(x, n=0):
    if x is None: return 'nothing'
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '…'

def check_path(R, path, fn, *a):
    """co-execute a reference function with one path; all reports"""
    out = []; todo = [()]; n = 0
    while todo:
        ch = todo.pop(); n += 1
        if n > 400: out.append((('C04',), 'too many unresolved distinctions')); break
        S = Spec(R, path, ch)
        try:
            fn(S, *a)
            S.report(('C04',), 'reference ended early')
        except Stop as e:
            if str(e) == 'contradiction': S.reports = []
        out += S.reports
        w = getattr(S, 'widths', []); c = S.choices[:S.ci]
        for k in range(len(ch), len(c)):
            for o in range(1, w[k]): todo.append(c[:k] + (o,))
    return out

def check_err(R, fn, *a):
    """the set of error codes the reference semantics prescribes for this outcome; None among them if it is accepted somewhere"""
    res = set(); todo = [()]; n = 0; leaves = []
    while todo:
        ch = todo.pop(); n += 1
        if n > 400: leaves = []; break
        S = Spec(R, None, ch, err_mode=True); got = None
        try:
            fn(S, *a); got = set(S.errs) or {None}
        except SpecErr as e: got = set(S.errs)
        except Stop as e:
            if str(e) != 'contradiction': got = set(S.errs) or {None}
        res |= got or set()
        w = getattr(S, 'widths', []); c = S.choices[:S.ci]
        leaves.append((tuple(zip(c, getattr(S, 'kinds', []))), got))
        for k in range(len(ch), len(c)):
            for o in range(1, w[k]): todo.append(c[:k] + (o,))
    if res and None in res and res != {None} and not always(leaves, 0): res.add('?')
    return res
def always(leaves, i):
    """whatever the distinctions not made turn out to be, is there an error to report? (None if that cannot happen)"""
    here = [l for l in leaves if len(l[0]) <= i]
    if here: return None if here[0][1] is None else None not in here[0][1]
    by = {}
    for l in leaves: by.setdefault(l[0][i][0], []).append(l)
    got = [x for x in (always(b, i + 1) for b in by.values()) if x is not None]
    if not got: return None
    return all(got) if leaves[0][0][i][1] else any(got)

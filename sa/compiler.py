"""Analysis of dice-compiler: initial compiler state, the contract used for nested visits, and the roots."""
import json, re
from engine import *
import models

NV = 'NodeVisitor'
SYN = 'dice_syntax::ast::SyntaxNode'
IDT = 'id_arena::Id<dice_syntax::ast::SyntaxNode>'

class CompilerModel:
    SYN = SYN; IDT = IDT
    def __init__(self, prog, budget=4000000):
        self.P = prog; self.F = prog.F; self.T = prog.T
        self.budget = budget
        self.visits = {}     # argument type -> fn name
        for n, f in self.F.items():
            if f.get('meth') == 'visit' or n.endswith('>::visit'):
                m = re.search(r'NodeVisitor<(.*)> for dice_compiler::compiler::Compiler>::visit$', n)
                if m: self.visits[m.group(1)] = n
        self.cty = 'dice_compiler::compiler::Compiler'
        self.mkconst = [n for n, f in self.F.items() if self.is_mkconst(f)]
        self.resolvers = [n for n, f in self.F.items() if self.is_resolver(f)]
    def is_mkconst(self, f):
        return (f.get('crate') == 'dice_compiler' and f['argc'] >= 2 and not f.get('closure') and f['locals'][1].endswith('assembler::Assembler')
                and f['locals'][2].endswith('ConstantValue') and f['locals'][0].startswith('core::result::Result<u8,'))
    def is_resolver(self, f):
        """the function that finds a name in the enclosing functions: (stack, name, distance) -> index of a capture"""
        return (f.get('crate') == 'dice_compiler' and f['argc'] == 3 and not f.get('closure') and f['locals'][1].endswith('compiler_stack::CompilerStack')
                and f['locals'][3] == 'usize' and f['locals'][0] == 'core::option::Option<usize>')
    def engine(self):
        E = Engine(self.P, self.budget)
        models.install(E)
        E.hooks = [self.hook]; E.prune = self.nested_export; E.opaque = ('ScopeVariable',)   # their flags change while nested code is compiled
        T = 'c.compiler_stack.stack^.temporary_count'; sc = 'c.compiler_stack.stack^.scope_stack.stack'
        def above(a, b):
            """a function has at least the temporaries in flight that were when one of its open scopes began"""
            if E.tlist[a] != ('init', T): return False
            t = E.tlist[b]
            if t == ('init', sc + '^.temporary_count'): return True
            if t[0] != 'f' or not isinstance(t[1], int): return False
            e = E.tlist[t[1]]; ty = E.symty[t[1]]
            return (e[0] == 'elem' and isinstance(e[1], int) and E.tlist[e[1]] == ('init', sc) and ty.endswith('ScopeContext')
                    and self.T[ty]['variants'][0]['f'][t[3]][0] == 'temporary_count')
        E.above = above
        E.nchild = 0; E.under = {}; E.watch_push = {'ScopeVariable', 'UpvalueDescriptor'}
        return E

    # ---- initial state
    def build(self, E, ty, name, deep=0):
        """a value of workspace struct type, expanded; vectors of contexts/scopes get an explicit last element"""
        t = self.T.get(ty)
        if t and t['kind'] == 'struct' and (t.get('ws') and deep < 12) and ty not in (SYN,) and 'source::Source' not in ty and 'SyntaxTree' not in ty and 'Span' not in ty:
            vs = t['variants'][0]
            return ('adt', ty, 0, tuple(self.build(E, ft, name + '.' + fn, deep + 1) for fn, ft in vs['f']))
        if ty.startswith('alloc::vec::Vec<'):
            el = ty[len('alloc::vec::Vec<'):-1]
            sid = E.sym(('init', name), ty)
            segs = [('sym', sid, el, 0, ())]
            if el.endswith(('CompilerContext', 'ScopeContext')):
                segs.append(('e', self.build(E, el, name + '^', deep + 1)))
            return ('seq', tuple(segs))
        return E.mk(('init', name), ty)
    def initial(self, E):
        st = State()
        cell = ('R', 'compiler')
        st.mem[cell] = self.build(E, self.cty, 'c')
        return st, ('ref', cell, ())
    # ---- navigation
    def fidx(self, ty, name):
        vs = self.T[ty]['variants'][0]['f']
        for i, (n, t) in enumerate(vs):
            if n == name: return i
        return None
    def get(self, E, st, v, *path):
        """follow field names / 'last' through values"""
        for p in path:
            if v is None: return None
            v = E.strip(st, v)
            if p == 'last':
                sv = E.seqof(v)
                v = sv[1][-1][1] if sv and sv[1] and sv[1][-1][0] == 'e' else None
            elif isinstance(p, int): v = E.proj(st, v, p, 0)
            else:
                ty = v[1] if v[0] == 'adt' else E.symty[v[1]] if v[0] == 's' else None
                i = self.fidx(ty, p) if ty in self.T else None
                if i is None: return None
                v = E.proj(st, v, i, 0)
        return v
    def upd(self, E, st, v, path, fn):
        """functional update along field names; 'last' = last explicit element"""
        if not path: return fn(v)
        p = path[0]
        if p == 'last':
            sv = E.seqof(v)
            if not sv[1] or sv[1][-1][0] != 'e': return v
            return ('seq', sv[1][:-1] + (('e', self.upd(E, st, sv[1][-1][1], path[1:], fn)),))
        if v is not None and v[0] == 's':
            x = E.expand(v[1], 0)
            if x is None: return v
            v = x
        if v is None or v[0] != 'adt': E.note('contract-update-failed', str(p)); return v
        i = self.fidx(v[1], p)
        if i is None: E.note('contract-update-failed', str(p)); return v
        fs = list(v[3]); fs[i] = self.upd(E, st, fs[i], path[1:], fn)
        return v[:3] + (tuple(fs),)
    def ctx(self, E, st): return self.get(E, st, st.mem[('R', 'compiler')], 'compiler_stack', 'stack', 'last')

    # ---- contract of a nested visit
    def visit_type(self, callee):
        n = callee.get('inst') or ''
        m = re.search(r'NodeVisitor<(.*)> for dice_compiler::compiler::Compiler>::visit$', n)
        if m: return m.group(1)
        if (callee.get('trait') or '').endswith(NV) and callee.get('meth') == 'visit': return '?'
        return None
    def hook(self, E, st, callee, args, dty, d, where):
        inst = callee.get('inst')
        if inst in self.mkconst and E.cut_const and inst != E.root_fn:
            return self.const_contract(E, st, args, dty)
        if inst in self.resolvers and (inst != E.root_fn or E.root_entered):
            return self.resolve_contract(E, st, args, dty)
        f = callee.get('fn') or ''
        if f.endswith('SyntaxTree::get') or (inst or '').endswith('SyntaxTree::get') or f.endswith('Arena::<T, A>::get') and SYN in str(callee.get('targs')):
            # the syntax node an id refers to
            fz = E.freeze(st, args[1]); nid = getattr(E, 'nid', None)
            node = ('box', ('s', E.node)) if nid is not None and fz == nid else ('box', E.mk(('nodeof', fz), SYN))
            return [('ret', st, ('adt', dty, 1, (node,)) if dty.startswith('core::option::Option<') else node)]
        vt = self.visit_type(callee)
        if vt is None: return None
        if inst == E.root_fn and not E.root_entered: return None
        if vt == IDT or vt.startswith('(') or (vt.endswith('LitIdent') and where[0] not in E.root_chain):
            return self.child(E, st, vt, args, dty)
        return None
    def ctxdesc(self, E, st, comp):
        """the nesting a nested visit happens in: per explicit context its kind and explicit scopes (kind, entry point, names)"""
        out = []
        sv = E.seqof(self.get(E, st, comp, 'compiler_stack', 'stack'))
        for s in sv[1] if sv else ():
            if s[0] != 'e': continue
            scs = []
            q = E.seqof(self.get(E, st, s[1], 'scope_stack', 'stack'))
            for z in q[1] if q else ():
                if z[0] != 'e': continue
                vs = E.seqof(self.get(E, st, z[1], 'variables'))
                scs.append((self.get(E, st, z[1], 'kind'), self.get(E, st, z[1], 'entry_point'), tuple(vs[1]) if vs else (), E.freeze(st, z[1])))
            out.append((E.freeze(st, self.get(E, st, s[1], 'kind')), tuple(scs)))
        return tuple(out)
    def const_contract(self, E, st, args, dty):
        v = E.freeze(st, args[1])
        ok = st.fork()
        idx = ('i', 0, ((E.sym(('cidx', v), 'u8'), 1),))
        err = ('s', E.sym(('consterr',), 'dice_core::error::Error'))
        res = [('ret', ok, ('adt', dty, 0, (idx,)))]
        if E.want_errors: st.event(('consterr',)); res.append(('ret', st, ('adt', dty, 1, (err,))))
        return res
    def resolve_contract(self, E, st, args, dty):
        name = E.freeze(st, args[1]); depth = E.freeze(st, args[2])
        sid = E.sym(('resolve', name, depth), dty)
        no = st.fork(); no.facts[('var', sid)] = 0
        st.facts[('var', sid)] = 1
        idx = E.symfield(sid, 1, 0)
        # the index is one of the captures of the function `distance` levels out
        loc = E.loc(st, args[0]); stack = self.get(E, st, E.read(st, *loc), 'stack'); sv = E.seqof(stack)
        at = lin_add(lin_add(E.seqlen(sv), depth, -1), I(-1))
        j, rel = E.locate(st, sv, at)
        el = E.elem(st, sv, j, rel) if j is not None else None
        if el is not None:
            ups = self.get(E, st, el, 'upvalues')
            q = E.seqof(ups)
            if q: E.assume(st, E.ge0(lin_add(lin_add(E.seqlen(q), idx, -1), I(-1))), True)
        return [('ret', no, ('adt', dty, 0, ())), ('ret', st, ('adt', dty, 1, (idx,)))]
    def child(self, E, st, vt, args, dty):
        st.ctr += 1; n = st.ctr
        node = args[1]
        if vt.startswith('('): fz = E.freeze(st, node)
        else: fz = E.freeze(st, node)
        out = []
        if E.want_errors:
            s2 = st.fork(); s2.event(('childerr', n))
            out.append(('ret', s2, ('adt', dty, 1, (('s', E.sym(('childerr', n), 'dice_core::error::Error')),))))
        root = ('R', 'compiler')
        loc = E.loc(st, args[0])
        comp = E.read(st, *loc)
        P = ('compiler_stack', 'stack', 'last')
        tb = self.get(E, st, comp, *P, 'temporary_count')
        cc = self.get(E, st, comp, *P, 'scope_stack', 'stack', 'last', 'call_context')
        info = ('child', n, vt, fz, tb, self.get(E, st, cc, 'depth') if cc else None, self.ctxdesc(E, st, comp))
        def grow(what, el):
            def f(v):
                sv = E.seqof(v)
                return ('seq', sv[1] + (('sym', E.sym(('grow', what, n), 'alloc::vec::Vec<%s>' % el), el, 0, ()),))
            return f
        comp = self.upd(E, st, comp, P + ('assembler', 'data'), lambda v: ('seq', E.seqof(v)[1] + (info,)))
        comp = self.upd(E, st, comp, P + ('assembler', 'constants'), grow('const', 'dice_bytecode::ConstantValue'))
        comp = self.upd(E, st, comp, P + ('upvalues',), grow('upv', 'dice_compiler::upvalue::UpvalueDescriptor'))
        # scopes: flags of variables; new variables of the innermost scope; exits of the innermost loop
        decl = vt == IDT
        def scopes(v):
            sv = E.seqof(v); segs = list(sv[1]); loopdone = False
            for j in range(len(segs) - 1, -1, -1):
                if segs[j][0] != 'e': continue
                sc = segs[j][1]
                top = j == len(segs) - 1
                sc = self.upd(E, st, sc, ('variables',), lambda q: self.touch_vars(E, st, q, n))
                if top and decl:
                    sc = self.upd(E, st, sc, ('variables',), grow('vars%d' % j, 'dice_compiler::scope_stack::ScopeVariable'))
                    sc = self.upd(E, st, sc, ('slot_count',), lambda q: lin_add(q, ('i', 0, ((E.sym(('grow', 'slots', n), 'usize'), 1),))))
                k = self.get(E, st, sc, 'kind')
                if not loopdone:
                    isloop = self.is_loop(E, st, k)
                    if isloop is not False:
                        sc = self.upd(E, st, sc, ('exit_points',), grow('exit%d' % j, 'usize'))
                    if isloop: loopdone = True
                if top:
                    dep = self.get(E, st, sc, 'call_context', 'depth')
                    if dep is None or lin_const(dep) != 0:
                        sc = self.upd(E, st, sc, ('call_context', 'exit_points'), grow('cexit', 'usize'))
                segs[j] = ('e', sc)
            return ('seq', tuple(segs))
        comp = self.upd(E, st, comp, P + ('scope_stack', 'stack'), scopes)
        comp = self.upd(E, st, comp, P + ('scope_stack', 'slot_count'), lambda q: lin_add(q, ('i', 0, ((E.sym(('grow', 'maxslots', n), 'usize'), 1),))))
        E.write(st, loc[0], loc[1], comp)
        st.event(('visit', n, vt, fz))
        out.insert(0, ('ret', st, ('adt', dty, 0, (UNIT,))))
        return out
    def is_loop(self, E, st, k):
        if k is None: return None
        vs = self.P.variants('dice_compiler::scope_stack::ScopeKind') or []
        li = [i for i, v in enumerate(vs) if v['n'] == 'Loop']
        if not li: return None
        if k[0] == 'adt': return k[2] == li[0]
        return E.decide(st, E.isvar(st, k, li[0]))
    def touch_vars(self, E, st, q, n):
        sv = E.seqof(q); segs = []
        def touch(v, j):
            if v is None or v[0] != 'adt': return v
            i = self.fidx(v[1], 'is_captured')
            fs = list(v[3])
            if i is not None and fs[i] != ('b', True): fs[i] = ('s', E.sym(('captured-by', n, v[3][0], j), 'bool'))
            k = self.fidx(v[1], 'state')
            if k is not None and fs[k] is not None and fs[k][0] == 'adt':
                vs = self.P.variants(fs[k][1])[fs[k][2]]
                if vs['n'] != 'Local':
                    ff = list(fs[k][3])
                    for m, (fn, ft) in enumerate(vs['f']):
                        if fn == 'is_initialized' and ff[m] != ('b', True): ff[m] = ('s', E.sym(('inited-by', n, v[3][0], j), 'bool'))
                    fs[k] = fs[k][:3] + (tuple(ff),)
            return v[:3] + (tuple(fs),)
        for j, s in enumerate(sv[1]):
            if s[0] == 'e': segs.append(('e', touch(s[1], j)))
            elif s[0] == 'sym' and s[4]: segs.append(s[:4] + (tuple((k, touch(v, ('ov', j, k))) for k, v in s[4]),))
            else: segs.append(s)
        return ('seq', tuple(segs))

    def nested_export(self, E, st, inst, args):
        """an export inside an export, which is rejected later on (C08): no accepted program gets here"""
        ex = [i for i, v in enumerate(self.P.variants(SYN)) if v['n'] == 'ExportDecl']
        hit = [k[1] for k, v in st.facts.items() if k[0] == 'var' and v in ex and E.tlist[k[1]][0] == 'nodeof']
        for h in hit:
            f = E.tlist[h][1]
            if any(g != h and ('nodeof(' in E.pv(f) and 'ExportDecl' in E.pv(f)) for g in hit): return True
        return False
    # ---- running a root
    def run_tuple(self, vt, setup=None, want_errors=True):
        """a visitor that takes a syntax node together with a kind"""
        E = self.engine(); st, comp = self.initial(E)
        nt = vt[2:].split(',')[0]; kt = vt.split(', ', 1)[1][:-1]
        E.n = E.mk(('init', 'n'), nt); E.rkind = E.mk(('init', 'kind'), kt)
        st.mem[('R', 'n')] = E.n; E.node = None
        if setup: setup(E, st)
        return self.run_root(self.visits[vt], [comp, ('tup', (('ref', ('R', 'n'), ()), E.rkind))], want_errors=want_errors, E=E, st=st, comp=comp)
    def run_root(self, fn, args, setup=None, want_errors=True, cut_const=True, E=None, st=None, comp=None):
        E = E or self.engine()
        E.root_fn = fn; E.root_entered = True; E.want_errors = want_errors; E.cut_const = cut_const
        E.root_chain = {fn}
        if st is None: st, comp = self.initial(E)
        if setup: args = setup(E, st, comp)
        outs = E.call_body_rec(st, fn, args, 0)
        return E, outs

    def run_node(self, variant, setup=None, want_errors=True):
        """the dispatcher on one syntax node variant"""
        fn = self.visits[IDT]
        E = self.engine()
        st, comp = self.initial(E)
        vs = self.P.variants(SYN); idx = [i for i, v in enumerate(vs) if v['n'] == variant][0]
        E.node = E.sym(('node',), SYN)
        st.facts[('var', E.node)] = idx
        nid = E.nid = ('s', E.sym(('nodeid',), IDT))
        if setup: setup(E, st, comp)
        return self.run_root(fn, [comp, nid], want_errors=want_errors, E=E, st=st, comp=comp)

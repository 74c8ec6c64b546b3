"""Checks of the shared helpers every construct relies on: the constant table and the resolution of captured variables."""
import contextlib, re, traceback
from engine import *
import nodes

SV = 'dice_compiler::scope_stack::ScopeVariable'

def where(M, root, fn):
    f = M.F.get(fn, {}); return (root, fn, '%s:%s' % (f.get('file', '?'), f.get('line', '?')))

def guarded(res, M, name, fn, props, limit, body):
    try:
        with limit(): E, outs = body()
    except Exception:
        res.undecide(name, 'analysis: ' + traceback.format_exc(limit=-2)[-300:], *props); return None
    hard = [k for k in E.notes if k not in ('widened', 'loop-sym-override')]
    if E.unknown or hard: res.undecide(name, 'unmodelled: ' + ', '.join(sorted(map(str, list(E.unknown) + hard)))[:300], *props); return None
    if not outs: res.undecide(name, 'no outcomes', *props); return None
    for (f, line), v in sorted((E.under or {}).items()):
        res.bad('C11', 'underflow %s' % v, 'more may be taken from a length than it has (%s)' % v, (name, f, '%s:%s' % (M.F[f].get('file', '?'), line)))
    return E, outs

def panics(res, w, outs, props):
    out = []
    for o in outs:
        if o[0] == 'panic':
            res.bad('C11', 'panic %s' % (o[2],), 'this helper can panic: %s' % (o[2],), w)
        else: out.append(o)
    return out

# ---------------------------------------------------------------- the constant table
def constants(M, res, codes, limit):
    equality(M, res, codes, limit)
    P = ('C09', 'C21')
    for fn in M.mkconst:
        name = 'constant table'; w = where(M, name, fn); loc = M.F[fn]['locals']
        def setup(E, st, comp):
            E.v = E.mk(('init', 'value'), 'dice_bytecode::ConstantValue')
            st.mem[('R', 'asm')] = M.build(E, 'dice_compiler::assembler::Assembler', 'a')
            return [('ref', ('R', 'asm'), ()), E.v] + [E.mk(('init', 'x%d' % i), t) for i, t in enumerate(loc[3:M.F[fn]['argc'] + 1])]
        r = guarded(res, M, name, fn, P, limit, lambda: M.run_root(fn, None, setup, cut_const=False))
        if r is None: continue
        E, outs = r; res.decide(name, *P)
        for o in panics(res, w, outs, P):
            st = o[1]; res.n('C21', 'outcomes of adding a constant'); res.n('C09', 'outcomes of adding a constant')
            fin = E.seqof(M.get(E, st, st.mem[('R', 'asm')], 'constants'))
            ini = fin[1][0] if fin and fin[1] and fin[1][0][0] == 'sym' else None
            if o[2][0] != 'adt' or ini is None: res.bad('C21', 'opaque', 'the constant table is replaced', w); continue
            n = E.slen(ini)
            if o[2][2] == 1:
                err = o[2][3][0]; code = M.get(E, st, err, 'error_code')
                if code is None or code[0] != 'str' or codes.get(code[1]) != 'TOO_MANY_CONSTANTS': res.bad('C09', 'code', 'a full constant table is reported as %s' % E.pv(code)[:40], w); continue
                big = [b for b in [E.bounds(st, n)] + [E.bounds(st, lin) for lin in matches(E, st, ini)] if b[0] is not None and b[0] >= 256]
                if not big: res.bad('C09', 'premature', 'a constant is rejected though the table has room for it', w)
                continue
            i = o[2][3][0]
            if not is_i(i): res.bad('C21', 'opaque index', 'the constant index is not an index', w); continue
            if any(E.tlist[s][0] == 'trunc' for s, c in i[2]):
                t = [E.tlist[s] for s, c in i[2] if E.tlist[s][0] == 'trunc'][0]
                res.bad('C09', 'index narrowed', 'the index of a constant is cut down to %s without a check that it fits' % t[1], w); continue
            lo, hi = E.bounds(st, i)
            if hi is None or hi > 255 or lo is None or lo < 0: res.bad('C09', 'index range', 'the index of a constant may be %s, which its operand cannot hold' % (hi if hi is not None else 'arbitrary'), w); continue
            ext = fin[1][1:]
            if ini[4]: res.bad('C21', 'overwrites', 'adding a constant overwrites another one', w); continue
            if not ext:
                el = E.elem(st, fin, 0, i)
                if same_value(E, st, E.v, el) is False:
                    res.bad('C21', 'merged', 'a constant is replaced by one that need not be equal to it', w)
                else: res.sample('C21', 'an existing constant is used again only if it is equal')
            elif len(ext) == 1 and ext[0][0] == 'e' and E.strip(st, ext[0][1]) == E.v:
                if lin_add(i, n, -1) != I(0): res.bad('C21', 'index', 'a new constant is stored at another place than its index says', w)
            else: res.bad('C21', 'table', 'adding a constant stores something else', w)

def equality(M, res, codes, limit):
    """constants that compare equal are the same constant"""
    P = ('C21',)
    for ty in ('dice_bytecode::ConstantValue', 'dice_bytecode::FunctionBytecode', 'dice_bytecode::Bytecode'):
        fn = '<%s as core::cmp::PartialEq>::eq' % ty; f = M.F.get(fn)
        if not f or f.get('derived'): continue
        name = 'equality of %s' % ty.split('::')[-1]; w = where(M, name, fn)
        def setup(E, st, comp):
            for x in 'ab': st.mem[('R', x)] = E.mk(('init', x), ty)
            return [('ref', ('R', 'a'), ()), ('ref', ('R', 'b'), ())]
        r = guarded(res, M, name, fn, P, limit, lambda: M.run_root(fn, None, setup))
        if r is None: continue
        E, outs = r; ok = True
        for o in panics(res, w, outs, P):
            st = o[1]
            for s2, b in E.branch(st, o[2]):
                res.n('C21', 'outcomes of comparing constants')
                if not b: continue
                a, c = s2.mem[('R', 'a')], s2.mem[('R', 'b')]
                same = same_value(E, s2, a, c)
                if same is None: ok = False
                if same is False: res.bad('C21', 'equal ' + ty.split('::')[-1], 'two constants that differ are taken for equal: one is emitted in place of the other', w)
        if ok: res.decide(name, *P)
        else: res.undecide(name, 'values compared in an unknown way', *P)
def same_value(E, st, a, b, depth=0):
    if E.decide(st, E.eqv(st, a, b)) is True: return True
    t = E.T.get(a[1] if a[0] == 'adt' else E.symty[a[1]] if a[0] == 's' else None)
    vs = (t or {}).get('variants')
    if not vs or depth > 4: return None if related(E, st, a) and related(E, st, b) else False
    if len(vs) == 1:
        fs = [(ft, E.proj(st, a, i, 0), E.proj(st, b, i, 0)) for i, (n, ft) in enumerate(vs[0]['f'])]
        ids = [k if k is not None or not (related(E, st, x) and related(E, st, y)) else None for ft, x, y in fs if 'uuid::Uuid' in ft and x is not None and y is not None for k in [E.decide(st, E.eqv(st, x, y))]]
        if ids: return True if True in ids else None if None in ids and any(related(E, st, x) for ft, x, y in fs if 'uuid::Uuid' in ft) and False not in ids else False
        return conj(same_value(E, st, x, y, depth + 1) for ft, x, y in fs if x is not None and y is not None) if fs else None
    va = [i for i in range(len(vs)) if E.decide(st, E.isvar(st, a, i)) is True]; vb = [i for i in range(len(vs)) if E.decide(st, E.isvar(st, b, i)) is True]
    if len(va) != 1 or va != vb: return False
    return conj(same_value(E, st, E.proj(st, a, i, va[0]), E.proj(st, b, i, va[0]), depth + 1) for i in range(len(vs[va[0]]['f'])))
def related(E, st, v):
    """something is known about v, or about a value computed from it"""
    goal = {v[1]} if v[0] == 's' else {x for x, c in v[2]} if v[0] == 'i' else set()
    memo = {}
    def has(x, d=0):
        if not isinstance(x, tuple) or d > 14: return False
        if len(x) == 2 and x[0] in ('s', 'sid') and isinstance(x[1], int): return sym(x[1])
        if len(x) == 3 and x[0] == 'i' and isinstance(x[2], tuple): return any(sym(k) for k, c in x[2])
        return any(has(y, d + 1) if isinstance(y, tuple) else isinstance(y, int) and not isinstance(y, bool) and y > 0 and y in goal for y in x)
    def sym(k):
        if k in goal: return True
        if k not in memo: memo[k] = False; memo[k] = has(E.tlist[k])
        return memo[k]
    return any(any(sym(x) for x, c in k[1]) if isinstance(k, tuple) and k[0] == 'rng' else has(k if isinstance(k, tuple) else (k,)) for k in st.facts)
def conj(xs):
    xs = list(xs); return False if False in xs else None if None in xs else True

def matches(E, st, seg):
    """indices found by searching a sequence"""
    for sid, t in enumerate(E.tlist):
        if t[0] == 'match' and t[2] == seg[:4]: yield ('i', 0, ((sid, 1),))

# ---------------------------------------------------------------- captured variables
def captures(M, res, codes, limit):
    P = ('C15', 'C06')
    for fn in M.resolvers:
        for tag in ('this function', 'an enclosing function'):
            name = 'captures of %s' % tag; w = where(M, name, fn)
            def setup(E, st, comp):
                E.nm = E.mk(('init', 'name'), 'alloc::string::String')
                E.dep = I(0) if tag == 'this function' else ('i', 1, ((E.sym(('init', 'depth'), 'usize'), 1),))
                cs = M.get(E, st, st.mem[('R', 'compiler')], 'compiler_stack'); st.mem[('R', 'cs')] = cs
                return [('ref', ('R', 'cs'), ()), E.nm if not M.F[fn]['locals'][2].startswith('&') else ref(st, E.nm), E.dep]
            r = guarded(res, M, name, fn, P, limit, lambda: M.run_root(fn, None, setup))
            if r is None: continue
            E, outs = r; res.decide(name, *P)
            for o in panics(res, w, outs, P):
                res.n('C15', 'outcomes of resolving a captured name'); res.n('C06', 'outcomes of resolving a captured name')
                capture(M, res, E, o, w)

def ref(st, v):
    st.mem[('R', 'nm')] = v; return ('ref', ('R', 'nm'), ())

def chain(E, sid):
    """terms from a symbol up to the root"""
    out = []
    for _ in range(40):
        t = E.tlist[sid]; out.append((sid, t))
        if t[0] in ('f', 'elem', '*') and isinstance(t[1], int): sid = t[1]
        else: break
    return out
def ctx_index(E, sid, base):
    """index (in the list of functions being compiled) of the function a symbol belongs to"""
    c = chain(E, sid)
    if c[-1][0] != base: return None
    return c[-2][1][2] if len(c) > 1 and c[-2][1][0] == 'elem' else None

def capture(M, res, E, o, w):
    st = o[1]
    def bad(p, key, msg): res.bad(p, key, msg, w)
    q = E.seqof(M.get(E, st, st.mem[('R', 'cs')], 'stack'))
    base = q[1][0]; bid = base[1]; n = E.slen(base)
    prel = lin_add(lin_add(n, E.dep, -1), I(-1)); orel = lin_add(n, E.dep, -1)
    # what is known about the parent's variables
    var = None; nom = False
    for k, v in st.facts.items():
        if v is True and isinstance(k, tuple) and k[0] == 'c' and k[1] == 'eq' and E.nm in k[2:4]:
            x = k[3] if k[2] == E.nm else k[2]
            if x[0] == 's' and E.tlist[x[1]][0] == 'f' and (E.deref_ty(E.symty[E.tlist[x[1]][1]]) or '').endswith('ScopeVariable'): var = E.tlist[x[1]][1]
        if v is True and 'nomatch' in k[:2]:
            ids = set(); has = [False]
            def walk(x):
                if x == E.nm: has[0] = True
                if isinstance(x, tuple):
                    if len(x) >= 2 and x[0] in ('sym', 's') and isinstance(x[1], int): ids.add(x[1])
                    for y in x: walk(y)
            walk(k)
            if has[0] and any(ctx_index(E, i, bid) == prel for i in ids) and E.passed_names(k, E.nm): nom = True
    res_out = [(sid, t) for sid, t in enumerate(E.tlist) if t[0] == 'resolve' and st.facts.get(('var', sid)) is not None]
    if o[2][0] != 'adt': bad('C15', 'opaque', 'the answer is not derived from the enclosing functions'); return
    if o[2][2] == 0:
        lo, hi = E.bounds(st, lin_add(E.dep, n, -1))
        if lo is not None and lo >= 0: return         # no enclosing function
        if nom and any(st.facts.get(('var', sid)) == 0 for sid, t in res_out): return
        if var is not None: bad('C15', 'found but not captured', 'a variable of the enclosing function is found and not captured')
        elif not nom: bad('C15', 'not searched', 'a name is given up without looking at the variables of the enclosing function')
        elif any(st.facts.get(('var', sid)) == 1 for sid, t in res_out): bad('C15', 'outer not captured', 'a variable of a function further out is found and not captured')
        else: bad('C15', 'not searched further', 'a name is given up without looking at the functions further out')
        return
    idx = o[2][3][0]
    # what must have been captured
    UD = 'dice_compiler::upvalue::UpvalueDescriptor'; vs = [x['n'] for x in M.P.variants(UD)]
    fidx = lambda v, f: [i for i, (a, t) in enumerate(M.P.variants(UD)[vs.index(v)]['f']) if a == f][0]
    mut = None
    if var is not None:
        if ctx_index(E, var, bid) != prel: bad('C15', 'wrong function', 'the variable is taken from another function than the enclosing one')
        shim = nodes.NodeRun.__new__(nodes.NodeRun); shim.E = E; shim.st = st; shim.M = M
        if not shim.order_of(E.tlist[var]): bad('C15', 'shadowing', 'not the innermost, most recent variable of that name is captured')
        kind = 'ParentLocal'; at = M.get(E, st, ('s', var), 'slot')
        sv = M.get(E, st, ('s', var), 'state'); ks = M.P.variants(E.symty[sv[1]])
        i = [x['n'] for x in ks].index('Local'); loc = E.decide(st, E.isvar(st, sv, i))
        if loc is None:
            mut = '?'
        elif loc: mut = E.proj(st, sv, [j for j, (a, t) in enumerate(ks[i]['f']) if a == 'is_mutable'][0], i)
        else: mut = ('b', False)
        fv = final_var(M, E, st, q, var, prel)
        if fv is None or E.decide(st, M.get(E, st, fv, 'is_captured')) is not True and M.get(E, st, fv, 'is_captured') != ('b', True):
            bad('C15', 'not marked', 'the variable is captured without being marked for closing when its scope ends')
    else:
        got = [(sid, t) for sid, t in res_out if st.facts.get(('var', sid)) == 1]
        if not nom: bad('C15', 'parent skipped', 'a function further out is asked though the enclosing function may declare the name'); 
        if not got: bad('C15', 'invented', 'a capture is recorded for a name that was not found'); return
        sid, t = got[-1]; kind = 'Outer'; at = E.symfield(sid, 1, 0)
        if t[1] != E.nm or lin_add(t[2], E.dep, -1) != I(1): bad('C15', 'wrong function', 'the capture is looked up for another name or function'); return
        pc = E.elem(st, q, 0, prel); ups = E.seqof(M.get(E, st, pc, 'upvalues'))
        d = E.elem(st, ups, 0, at) if ups else None
        if d is None or d[0] != 's': return
        i = st.facts.get(('var', d[1]))
        mut = '?' if not isinstance(i, int) else E.proj(st, d, [j for j, (a, t) in enumerate(M.P.variants(UD)[i]['f']) if a == 'is_mutable'][0], i)
    # where it was recorded
    own = q[1][-1][1] if E.dep == I(0) else E.elem(st, q, 0, orel)
    ups = E.seqof(M.get(E, st, own, 'upvalues'))
    if not ups or ups[1][0][0] != 'sym' or len(ups[1]) > 2: bad('C15', 'list', 'the list of captures is changed otherwise than by adding one'); return
    if len(ups[1]) == 2:
        d = ups[1][1][1] if ups[1][1][0] == 'e' else None
        if not is_i(idx) or lin_add(idx, E.slen(ups[1][0]), -1) != I(0): bad('C15', 'index', 'a new capture is referred to by another index than its place in the list')
        if d is None or d[0] != 'adt': bad('C15', 'entry', 'the new capture is not a capture descriptor'); return
        if vs[d[2]] != kind: bad('C15', 'kind', 'a %s is recorded as %s' % ('variable of the enclosing function' if kind == 'ParentLocal' else 'capture of the enclosing function', vs[d[2]])); return
        a = d[3][fidx(kind, 'slot' if kind == 'ParentLocal' else 'upvalue_index')]; m = d[3][fidx(kind, 'is_mutable')]
        if a != at: bad('C15', 'operand', 'the capture refers to %s instead of %s' % (E.pv(a)[:80], E.pv(at)[:80]))
        if mut == '?' or not same(E, st, m, mut): bad('C06', 'mutability', 'a captured variable is recorded with mutability %s instead of its own' % E.pv(m)[:80])
    else:
        if not is_i(idx): bad('C15', 'index', 'the index of a capture is not an index'); return
        el = E.elem(st, ups, 0, idx)
        want = ('adt', UD, vs.index(kind), tuple(at if i == fidx(kind, 'slot' if kind == 'ParentLocal' else 'upvalue_index') else mut for i in range(2)))
        iv = E.decide(st, E.isvar(st, el, vs.index(kind)))
        if iv is not True: bad('C15', 'merged', 'an existing capture of another kind may be used instead'); return
        a = E.proj(st, el, fidx(kind, 'slot' if kind == 'ParentLocal' else 'upvalue_index'), vs.index(kind))
        lo, hi = E.bounds(st, lin_add(a, at, -1)) if is_i(a) and is_i(at) else (None, None)
        if (lo, hi) != (0, 0) and a != at: bad('C15', 'merged', 'an existing capture of another variable may be used instead')
        m = E.proj(st, el, fidx(kind, 'is_mutable'), vs.index(kind))
    # nothing else changes
    allowed = [prel] + ([orel] if E.dep != I(0) else [])
    for k, v in base[4]:
        if k not in allowed: bad('C15', 'elsewhere', 'resolving a name changes a function that is not involved')
    pc = [v for k, v in base[4] if k == prel]
    if pc and kind == 'ParentLocal' and pc[0][0] == 'adt':
        e0 = E.mk(('elem', bid, prel), M.P.T[pc[0][1]] and pc[0][1])
        for f in ('kind', 'assembler', 'temporary_count'):
            if M.get(E, st, pc[0], f) != M.get(E, st, e0, f): bad('C15', 'changes %s' % f, 'resolving a name changes the %s of the enclosing function' % f)

def same(E, st, a, b):
    if a == b: return True
    x = a[1] if a[0] == 'b' else E.decide(st, a); y = b[1] if b[0] == 'b' else E.decide(st, b)
    return x is not None and x == y

def final_var(M, E, st, q, var, prel):
    """the variable as the final state has it"""
    c = chain(E, var)
    idx = [t[2] for s, t in c if t[0] == 'elem']
    if len(idx) != 3: return None
    ctx = E.elem(st, q, 0, prel)
    ss = E.seqof(M.get(E, st, ctx, 'scope_stack', 'stack'))
    if not ss: return None
    vs = E.seqof(M.get(E, st, E.elem(st, ss, 0, idx[1]), 'variables'))
    return E.elem(st, vs, 0, idx[0]) if vs else None

# ---------------------------------------------------------------- a whole program
def program(M, res, codes, limit):
    """the entry point: a program's root expression compiled in a fresh context; modules then deliver their exports"""
    import bytecode
    PR = ('C01', 'C03', 'C04', 'C08', 'C11', 'C13', 'C15', 'C16', 'C17', 'C21', 'C25', 'C26'); name = 'program'
    fns = [n for n, f in M.F.items() if f.get('crate') == 'dice_compiler' and f.get('pub') and f['argc'] == 1 and f['locals'][1].endswith('source::Source')
           and f['locals'][0].startswith('core::result::Result<dice_bytecode::Bytecode,')]
    if not fns: res.undecide(name, 'no entry point', *PR); return
    for fn in fns:
        w = where(M, name, fn)
        def hook(E, st, callee, args, dty, d, wh):
            inst = callee.get('inst') or ''
            if 'parser::Parser' in inst and dty.startswith('core::result::Result<dice_syntax::ast::SyntaxTree,'):
                s2 = st.fork()
                return [('ret', st, ('adt', dty, 0, (E.mk(('init', 'tree'), 'dice_syntax::ast::SyntaxTree'),))),
                        ('ret', s2, ('adt', dty, 1, (('s', E.sym(('parseerr',), 'dice_core::error::Error')),)))]
            if 'parser::Parser' in inst and 'parser::Parser' in dty: return [('ret', st, E.mk(('init', 'parser'), dty))]
            return None
        def body():
            E = M.engine(); st, comp = M.initial(E); E.hooks = [hook] + E.hooks; E.nid = None; E.node = None
            E.src = E.mk(('init', 'src'), 'dice_core::source::Source')
            return M.run_root(fn, [E.src], E=E, st=st, comp=comp)
        r = guarded(res, M, name, fn, PR, limit, body)
        if r is None: continue
        E, outs = r; res.decide(name, *PR)
        names = {v['d']: v['n'] for v in M.P.variants(bytecode.INSTR)}
        kinds = M.P.variants('dice_core::source::SourceKind')
        for o in panics(res, w, outs, PR):
            one_program(M, res, E, o, w, names, kinds)

def module_source(E, st, kinds):
    """is the source a module, as far as the outcome's facts say"""
    for sid, ty in enumerate(E.symty):
        if E.tlist[sid][0] != 'discr' and ty and ty.lstrip('&').endswith('source::SourceKind'):
            for i, v in enumerate(kinds):
                d = E.decide(st, ('c', 'isvar', sid, i))
                if d: return v['n'] == 'Module'
            mi = [i for i, v in enumerate(kinds) if v['n'] == 'Module'][0]
            if E.decide(st, ('c', 'isvar', sid, mi)) is False: return False
    return None

def one_program(M, res, E, o, w, names, kinds):
    st = o[1]
    def bad(ps, key, msg):
        for p in ps if isinstance(ps, tuple) else (ps,): res.bad(p, key, msg, w)
    for p in ('C01', 'C03', 'C04', 'C08', 'C15', 'C16', 'C21', 'C25', 'C26'): res.n(p, 'outcomes of compiling a program')
    if o[2][0] != 'adt': return
    if o[2][2] == 1:
        err = o[2][3][0]; res.n('C13', 'errors of a program')
        if err is not None and err[0] == 's': 
            if E.tlist[err[1]][0] in ('childerr', 'consterr'): bad('C13', 'no source', 'an error found while compiling is reported without the source it is about')
            return
        s = M.get(E, st, err, 'source_code')
        if s is None or s[0] != 'adt' or s[2] == 0: bad('C13', 'no source', 'an error found while compiling is reported without the source it is about')
        code = M.get(E, st, err, 'error_code'); sp = M.get(E, st, err, 'span')
        for v, what in ((code, 'error_code'), (sp, 'span')):
            if v is not None and v[0] == 's' and E.tlist[v[1]][0] == 'f' and E.tlist[E.tlist[v[1]][1]][0] == 'childerr': continue
            if code is not None and code[0] == 'str': continue
            bad('C13', 'changed ' + what, 'the %s of an error found while compiling is replaced' % what)
        return
    bc = o[2][3][0]
    inner = E.strip(st, bc[3][0]) if bc[0] == 'adt' else None
    if inner is None or inner[0] != 'adt': return
    g = lambda f: M.get(E, st, inner, f)
    data = E.seqof(E.strip(st, g('data')))
    segs = list(data[1]); kids = [s for s in segs if s[0] == 'child']
    mod = None
    if len(kids) != 1 or segs[0][0] != 'child': bad(('C04', 'C01', 'C26'), 'body', 'the code of a program is not that of its root expression'); return
    kid = kids[0]; n = kid[1]
    if not E.pv(kid[3]).endswith('.root') and 'root' not in E.pv(kid[3]): bad('C04', 'root', 'something else than the root of the syntax tree is compiled: %s' % E.pv(kid[3])[:80])
    if lin_const(kid[4]) != 0: bad('C03', 'temps', 'a program starts with temporaries recorded')
    cx = kid[6]
    if len(cx) != 1 or len(cx[0][1]) != 1: bad('C17', 'scopes', 'a program does not start in one fresh scope'); return
    kv = cx[0][0]; vs = M.P.variants(kv[1]) if kv[0] == 'adt' else None
    kind = vs[kv[2]]['n'] if vs else '?'
    mod = module_source(E, st, kinds)
    if kind not in ('Script', 'Module') or mod is not None and mod != (kind == 'Module'): bad(('C08', 'C25'), 'kind', 'a %s is compiled as a %s' % ('module' if mod else 'script', kind))
    sk = cx[0][1][0][0]
    if sk is not None and sk[0] == 'adt' and M.P.variants(sk[1])[sk[2]]['n'] == 'Loop': bad(('C08', 'C02'), 'loop', 'a program starts inside a loop')
    vars_ = [s for s in cx[0][1][0][2]]
    rest = segs[1:]
    ops = [lin_const(s[1]) if s[0] == 'e' and is_i(s[1]) else None for s in rest]
    if kind == 'Module':
        exp = [s[1] for s in vars_ if s[0] == 'e']
        if len(exp) != len(vars_) or len(exp) != 1: bad(('C16', 'C07', 'C25'), 'locals', 'a module starts with other variables than its exports'); return
        nm = M.get(E, st, exp[0], 'name'); slot = M.get(E, st, exp[0], 'slot')
        if nm != ('str', M.P.C['dice_core::protocol::module::EXPORT']['v']['str'] if 'dice_core::protocol::module::EXPORT' in M.P.C else '#export'): bad(('C16', 'C04', 'C25'), 'export name', 'the exports of a module are kept in %s' % E.pv(nm)[:40])
        if lin_const(slot) != 0: bad(('C16', 'C25'), 'export slot', 'the exports of a module are not in its first slot')
        s = M.get(E, st, exp[0], 'state')
        if E.pv(s) != 'Local(False, True)': bad(('C06', 'C07', 'C25'), 'export state', 'the exports of a module are declared as %s' % E.pv(s)[:60])
        if [names.get(x) for x in ops[:2]] != ['Pop', 'LoadLocal'] or len(rest) != 3: bad(('C01', 'C04', 'C25'), 'module end', 'a module does not end by dropping its value and loading its exports')
        else:
            v = rest[2][1]; t = E.tlist[v[2][0][0]] if is_i(v) and len(v[2]) == 1 else None
            if t is not None and t[0] == 'trunc': v = t[2]; t = E.tlist[v[2][0][0]] if len(v[2]) == 1 else None
            good = lin_const(v) == 0 or t is not None and t[0] == 'f' and (E.symty[t[1]] or '').endswith('ScopeVariable') and named(E, st, t[1], '#export')
            if not good: bad(('C16', 'C04', 'C25'), 'module result', 'a module delivers slot %s instead of its exports' % E.pv(v)[:60])
        n0 = 1
    else:
        if vars_: bad(('C16', 'C07'), 'locals', 'a script starts with variables of its own')
        if rest: bad(('C01', 'C04', 'C26'), 'script end', 'the code of a script does not end with that of its root expression')
        n0 = 0
    sc = g('slot_count')
    if E.pv(sc) not in ('grow(maxslots,%d)%s' % (n, '+1' if n0 else ''),): bad('C16', 'slots', 'a program records %s slots instead of the number its code uses' % E.pv(sc)[:60])
    uc = g('upvalue_count')
    if E.pv(uc) != 'len(grow(upv,%d))' % n: bad('C15', 'captures', 'a program records %s captures instead of the number its code uses' % E.pv(uc)[:60])
    c = E.seqof(E.strip(st, g('constants')))
    if c is None or [E.pt(s[1]) if s[0] == 'sym' else s[0] for s in c[1]] != ['grow(const,%d)' % n]: bad('C21', 'constants', 'a program is delivered without the constants its code refers to')

def named(E, st, sid, name):
    for k, v in st.facts.items():
        if v is True and k[0] == 'c' and k[1] == 'eq' and ('str', name) in k[2:4]:
            for x in k[2:4]:
                if x[0] == 's' and E.tlist[x[1]][0] == 'f' and E.tlist[x[1]][1] == sid: return True
    return False

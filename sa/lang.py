"""The reference semantics: what the bytecode of each syntax construct must do. One function per construct, named after it."""
from engine import *
from spec import *

OPS = dict(Multiply='Multiply', Divide='Divide', Remainder='Remainder', Add='Add', Subtract='Subtract', GreaterThan='GreaterThan',
           LessThan='LessThan', GreaterThanEquals='GreaterThanOrEqual', LessThanEquals='LessThanOrEqual', Equals='Equal', NotEquals='NotEqual',
           RangeInclusive='RangeInclusive', RangeExclusive='RangeExclusive')
ASSIGN = dict(MulAssignment='Multiply', DivAssignment='Divide', AddAssignment='Add', SubAssignment='Subtract')
OPNAME = dict(Multiply='#mul', Divide='#div', Remainder='#rem', Add='#add', Subtract='#sub', GreaterThan='#gt', LessThan='#lt', GreaterThanEquals='#gte',
              LessThanEquals='#lte', Equals='#eq', NotEquals='#neq', RangeInclusive='#range_inclusive', RangeExclusive='#range_exclusive')
SELF, SUPER, NEW, ANY, EXPORT = '"self"', '"super"', '"new"', '"Any"', '"#export"'
NULL, UNIT = ('const', 'null'), ('const', 'unit')
def sym(t): return ('Symbol', t)

# ---- literals
def LitNull(S, n): S.end(NULL)
def LitUnit(S, n): S.end(UNIT)
def LitBool(S, n): S.end(('const', bool(n.f('value').flag())))
def LitInt(S, n):
    v = n.f('value')
    for k in (0, 1):
        if S.ask(S.E.cmp('Eq', v.v, I(k))): S.alt_end(('const', ('int', k)), ('const', ('Int', str(k))), ('const', ('Int', v.t)))
    S.end(('const', ('Int', v.t)))
def LitFloat(S, n):
    v = n.f('value')
    for k in (0.0, 1.0):
        if S.ask(S.E.cmp('Eq', v.v, ('fl', k))): S.alt_end(('const', ('float', k)), ('const', ('Float', v.t)))
    S.end(('const', ('Float', v.t)))
def LitString(S, n): S.end(('const', ('String', n.f('value').t)))
def LitList(S, n):
    xs = n.f('items')
    a = S.rep('len(%s)' % xs.t, lambda s: s.eval(None, name=xs.t + '[k]'))
    S.end(S.emit(('C04',), 'array', (a,)))
def LitObject(S, n):
    xs = n.f('items'); o = S.emit(('C04',), 'object')
    def one(s):
        v = s.eval(None, name=xs.t + '[k].1')
        s.emit(('C04', 'C21'), 'setfield', o, sym(xs.t + '[k].0'), v)
    S.rep('len(%s)' % xs.t, one)
    S.end(o)
def LitAnonymousFn(S, n):
    S.unique_args(n.f('args'))
    S.end(S.function(n, n.f('args'), n.f('return_'), n.f('body'), 'Function', None))
def LitIdent(S, n): S.end(variable(S, n.f('identifier')))
def variable(S, name):
    how, el = S.lookup(name)
    if how == 'local':
        if not initialised(S, el): S.err('VARIABLE_NOT_INITIALIZED', ('C07',))
        return S.emit(('C07', 'C04'), 'load', ('var', name.t))
    if how == 'capture': return S.emit(('C15', 'C07'), 'loadup', ('cap', name.t))
    if how == 'global': return S.emit(('C07', 'C04'), 'global', sym(name.t))
    return S.emit(('C07',), 'load', ('var', name.t))
def initialised(S, el):
    st = el.f('state'); k = st.var()
    return st.pay(k, 'is_initialized').flag()
def mutable(S, el):
    st = el.f('state')
    return st.var() == 'Local' and st.pay('Local', 'is_mutable').flag()

# ---- operators
def Prefix(S, n):
    op = n.f('operator').var(); v = S.eval(n.f('expression'))
    S.end(S.un({'Negate': 'Negate', 'Not': 'Not'}[op], v))
def Binary(S, n):
    op = n.f('operator').var(); l = n.f('lhs_expression'); r = n.f('rhs_expression')
    if op in ('LogicalAnd', 'LogicalOr'):
        a = S.eval(l); S.assert_bool(a)
        if S.test(a) != (op == 'LogicalAnd'): S.end(a)
        b = S.eval(r); S.assert_bool(b); S.end(b)
    if op == 'Coalesce':
        a = S.eval(l)
        if not S.is_null(a): S.end(a)
        S.end(S.eval(r))
    if op == 'Pipeline':
        f = S.eval(r); a = S.eval(l)
        S.end(S.emit(('C04',), 'call', f, (a,)))
    a = S.eval(l); b = S.eval(r)
    S.end(S.bin(OPS[op], a, b))
def Is(S, n):
    ty = n.f('type_'); v = S.eval(n.f('value'))
    if ty.f('is_nullable').flag():
        if S.is_null(v): S.end_true(v)
    t = S.ident(ty.f('name').f('identifier'), ('C18', 'C04'))
    S.end(S.bin('Is', v, t))

# ---- access and calls
def FieldAccess(S, n):
    v = S.eval(n.f('expression')); S.end(S.emit(('C04', 'C21'), 'field', v, sym(n.f('field').t)))
def Index(S, n):
    v = S.eval(n.f('expression')); i = S.eval(n.f('index_expression')); S.end(S.emit(('C04',), 'index', v, i))
def FnCall(S, n):
    f = S.eval(n.f('target')); xs = n.f('args')
    a = S.rep('len(%s)' % xs.t, lambda s: s.eval(None, name=xs.t + '[k]'))
    S.end(S.emit(('C04',), 'call', f, (a,)))
def SuperCall(S, n):
    if S.ctxkind().var() not in ('Method', 'Constructor'): S.err('INVALID_SUPER_CALL', ('C08',))
    me = S.emit(('C04', 'C16'), 'load', ('var', SELF)); xs = n.f('args')
    a = S.rep('len(%s)' % xs.t, lambda s: s.eval(None, name=xs.t + '[k]'))
    b = S.ident(SUPER); S.end(S.emit(('C04',), 'callsuper', b, me, (a,)))
def SuperAccess(S, n):
    if S.ctxkind().var() not in ('Method', 'Constructor'): S.err('INVALID_SUPER_CALL', ('C08',))
    c = n.f('super_class').some()
    b = S.ident(c if c is not None else SUPER); me = S.ident(SELF)
    S.end(S.emit(('C04', 'C21'), 'supermethod', b, me, sym(n.f('field').t)))
def NullPropagate(S, n):
    v = S.eval(n.f('expression'))
    if S.is_null(v): S.chain_exit(v)
    S.end(v)
def ErrorPropagate(S, n):
    k = S.ctxkind().var()
    if k not in ('Function', 'Method'): S.err('INVALID_ERROR_PROPAGATE_USAGE', ('C08',))
    v = S.eval(n.f('expression'))
    ok = S.emit(('C04',), 'field', v, sym('"is_ok"'))
    if S.test(ok): S.end(S.emit(('C04',), 'field', v, sym('"result"')))
    leave(S, v)
def leave(S, v):
    S.leaves_scopes()
    S.discard()
    checked_return(S, v)
def checked_return(S, v, anywhere=False):
    """the value returned satisfies the return type annotation"""
    k = S.ctxkind(); kv = k.var()
    if kv in ('Function', 'Method'):
        r = k.pay(kv, 'return_type').some()
        if r is not None:
            t = S.ident(r.f('name').f('identifier'), ('C18',), anywhere)
            S.emit(('C18',), 'assert_type', bool(r.f('is_nullable').flag()), t, v)
    S.ret(v)
def Return(S, n):
    k = S.ctxkind().var(); r = n.f('result').some()
    if k in ('Function', 'Method'): v = S.eval(r) if r is not None else UNIT
    elif k == 'Constructor':
        if r is not None: S.err('NEW_RETURN_CANNOT_HAVE_EXPRESSION', ('C08',))
        v = S.emit(('C04', 'C16'), 'load', ('var', SELF))
    else: S.err('INVALID_RETURN_USAGE', ('C08',))
    leave(S, v)

# ---- assignment
def Assignment(S, n):
    lhs = S.node(n.f('lhs_expression')); k = lhs.var(); op = n.f('operator').var(); r = n.f('rhs_expression')
    if k == 'LitIdent':
        name = lhs.pay(k).f('identifier'); how, el = S.lookup(name)
        if how == 'global': S.err('VARIABLE_NOT_DECLARED', ('C07',))
        if how == 'local':
            if not mutable(S, el): S.err('CANNOT_REASSIGN_IMMUTABLE_VARIABLE', ('C06',))
            ld, sto, at = 'load', 'store', ('var', name.t)
        else:
            if not S.capture_mutable(name, el): S.err('CANNOT_REASSIGN_IMMUTABLE_VARIABLE', ('C06',))
            ld, sto, at = 'loadup', 'storeup', ('cap', name.t)
        if op == 'Assignment': v = S.eval(r)
        else:
            a = S.emit(('C04',), ld, at); b = S.eval(r); v = S.bin(ASSIGN[op], a, b)
        S.emit(('C04', 'C16'), sto, at, v); S.alt_end(UNIT, v)
    if k == 'FieldAccess':
        fa = lhs.pay(k); o = S.eval(fa.f('expression')); f = sym(fa.f('field').t)
        if op == 'Assignment': v = S.eval(r)
        else:
            a = S.emit(('C04', 'C21'), 'field', o, f); b = S.eval(r); v = S.bin(ASSIGN[op], a, b)
        S.emit(('C04', 'C21'), 'setfield', o, f, v); S.alt_end(UNIT, v)
    if k == 'Index':
        ix = lhs.pay(k); o = S.eval(ix.f('expression')); i = S.eval(ix.f('index_expression'))
        if op == 'Assignment': v = S.eval(r)
        else:
            a = S.emit(('C04',), 'index', o, i); b = S.eval(r); v = S.bin(ASSIGN[op], a, b)
        S.emit(('C04',), 'setindex', o, i, v); S.alt_end(UNIT, v)
    S.err('INVALID_ASSIGNMENT_TARGET', ('C06',))

# ---- declarations
def VarDecl(S, n):
    v = S.eval(n.f('expr')); k = n.f('kind')
    if k.var() == 'Singular':
        name = k.pay('Singular'); S.declares(name.t, 'Local', n.f('is_mutable').v)
        at = ('new', name.t); S.emit(('C04', 'C16'), 'store', at, v)
        ty = n.f('type_').some()
        if ty is not None:
            t = S.ident(ty.f('name').f('identifier'), ('C18',))
            S.emit(('C18',), 'assert_type', bool(ty.f('is_nullable').flag()), t, at)
    else:
        names = k.pay('Destructured')
        S.declares(names.t + '[k]', 'Local', n.f('is_mutable').v)
        def one(s):
            x = s.emit(('C04', 'C21'), 'field', v, sym(names.t + '[k]'))
            s.emit(('C04', 'C16'), 'store', ('new', names.t + '[k]'), x)
        S.rep('len(%s)' % names.t, one)
    S.end(v)
def ImportDecl(S, n):
    m = S.emit(('C04', 'C21'), 'module', sym(n.f('relative_path').t)); xs = n.f('item_imports')
    S.declares(xs.t + '[k]', 'Local', ('b', False))
    def one(s):
        x = s.emit(('C04', 'C21'), 'field', m, sym(xs.t + '[k]')); s.emit(('C04', 'C16'), 'store', ('new', xs.t + '[k]'), x)
    S.rep('len(%s)' % xs.t, one)
    mi = n.f('module_import').some()
    if mi is not None:
        S.declares(mi.t, 'Local', ('b', False))
        S.emit(('C04', 'C16'), 'store', ('new', mi.t), m)
    S.end(m)
def ExportDecl(S, n):
    if S.ctxkind().var() != 'Module': S.err('INVALID_EXPORT_USAGE', ('C08',))
    depth = S.scope_field('depth'); lo, hi = S.E.bounds(S.st, depth)
    # a depth that was looked at has to be told from the top level
    if S.ask(S.E.cmp('Gt', depth, I(1)), bool(lo) or hi is not None): S.err('INVALID_EXPORT_USAGE', ('C08',))
    x = S.node(n.f('export')); k = x.var(); name = None
    if k == 'VarDecl':
        kk = x.pay(k).f('kind')
        if kk.var() == 'Singular': name = kk.pay('Singular')
    elif k in ('FnDecl', 'ClassDecl'): name = x.pay(k).f('name').f('identifier')
    elif k == 'LitIdent': name = x.pay(k).f('identifier')
    if name is None: S.err('INVALID_EXPORT_USAGE', ('C08',))
    m = S.emit(('C04', 'C16'), 'load', ('var', EXPORT)); v = S.eval(n.f('export'))
    S.emit(('C04', 'C21'), 'setfield', m, sym(name.t), v)
    S.end(v)
def FnDecl(S, n): S.end(S.eval(n, 'Function'))
def OpDecl(S, n): S.end(S.eval(n, 'Global'))
def FnDeclKind(S, n, kind):
    kv = kind.var()
    S.unique_args(n.f('args'))
    if kv == 'Constructor' and n.f('return_').some() is not None: S.err('NEW_METHOD_CANNOT_HAVE_RETURN_TYPE', ('C08',))
    name = n.f('name').f('identifier')
    fk = {'Function': 'Function', 'StaticMethod': 'Function', 'Method': 'Method', 'Constructor': 'Constructor'}[kv]
    if kv != 'Function': S.end(S.function(n, n.f('args'), n.f('return_'), n.f('body'), fk, name.t, kind))
    at = S.own_function(name, 'Function', 'FUNCTION_ALREADY_DECLARED')
    f = S.function(n, n.f('args'), n.f('return_'), n.f('body'), fk, name.t, kind)
    S.emit(('C04', 'C16'), 'store', at, f); S.end(f)
def OpDeclKind(S, n, kind):
    kv = kind.var(); S.unique_args(n.f('args'))
    name = '"%s"' % OPNAME[n.f('operator').var()]
    f = S.function(n, n.f('args'), n.f('return_'), n.f('body'), 'Function' if kv == 'Global' else 'Method', name)
    if kv == 'Method': S.end(f)
    S.emit(('C05', 'C21'), 'setglobal', sym(name), f); S.end(UNIT)
def ClassDecl(S, n):
    name = n.f('name').f('identifier')
    S.open('Block')
    b = n.f('base').some()
    base = S.eval(b) if b is not None else S.ident(ANY)
    S.declare_in(SUPER); S.declares(SUPER, 'Local', None)
    S.emit(('C04', 'C16'), 'store', ('new', SUPER), base)
    at = S.own_function(name, 'Class', 'CLASS_ALREADY_DECLARED', skip=SUPER)
    c = S.emit(('C04', 'C21'), 'class', base, sym(name.t))
    S.emit(('C04', 'C16'), 'store', at, c)
    xs = n.f('associated_items')
    def one(s):
        cls = s.loopvar()
        it = s.node(V(s, s.elem(xs))); k = it.var()
        if k not in ('FnDecl', 'OpDecl'): raise Stop('contradiction')
        d = it.pay(k); me = s.first_is_self(d.f('args'))
        if me is not None and me.f('type_').some() is not None: s.err('METHOD_RECEIVER_CANNOT_HAVE_TYPE', ('C08', 'C18'))
        if k == 'OpDecl':
            if me is None: s.err('OPERATOR_MUST_HAVE_RECEIVER', ('C08',))
            f = s.eval(d, 'Method'); s.emit(('C04', 'C05'), 'setmethod', cls, sym('"%s"' % OPNAME[d.f('operator').var()]), f)
        else:
            nm = d.f('name').f('identifier'); new = s.text_is(nm, NEW)
            if me is None:
                if new: s.err('NEW_METHOD_MUST_HAVE_RECEIVER', ('C08',))
                f = s.eval(d, 'StaticMethod'); s.emit(('C04', 'C21'), 'setfield', cls, sym(nm.t), f)
            else:
                kind = ('Constructor(%s)' % ('Derived' if b is not None else 'Base')) if new else 'Method'
                f = s.eval(d, kind); s.emit(('C04', 'C21'), 'setmethod', cls, sym(nm.t), f)
        return (s.emit(('C04', 'C16'), 'load', at),)
    r = S.rep_loop('len(%s)' % xs.t, one, c)
    S.closes([SUPER], 1 if b is not None else 0)
    S.shut()
    S.end(r)

# ---- blocks and control flow
def Block(S, n): S.end(S.eval(n, 'Block'))
def IfExpression(S, n):
    c = S.eval(n.f('condition'))
    if S.test(c): S.end(S.eval(n.f('primary')))
    e = n.f('secondary').some()
    if e is None: S.end(UNIT)
    S.end(S.eval(e))
def block_of(S, v):
    b = S.node(v)
    if b.var() != 'Block': S.err('INTERNAL_COMPILER_ERROR', ('C08',))
    return b.pay('Block')
def WhileLoop(S, n):
    body = block_of(S, n.f('body'))
    h = S.head(); S.open('Loop', True)
    c = S.eval(n.f('condition'))
    if S.test(c):
        S.eval(body, 'Loop'); S.back(h)
    S.end(UNIT)
def Loop(S, n):
    body = block_of(S, n.f('body'))
    h = S.head(); S.open('Loop', True)
    S.eval(body, 'Loop'); S.back(h)
def ForLoop(S, n):
    src = S.node(n.f('source')); var = n.f('variable'); rng = None
    S.declares(var.t, 'Local', ('b', False))
    if src.var() == 'Binary':
        op = src.pay('Binary').f('operator').var()
        if op in ('RangeInclusive', 'RangeExclusive'): rng = op
    at = ('new', var.t)
    if rng:
        b = src.pay('Binary')
        hi = S.eval(b.f('rhs_expression')); lo = S.eval(b.f('lhs_expression'))
        h = S.head()
        S.emit(('C04', 'C16'), 'store', at, lo)
        c = S.bin('LessThan' if rng == 'RangeExclusive' else 'LessThanOrEqual', lo, hi)
        if not S.test(c): S.end(UNIT)
        S.open('Loop', None); S.declare_in(var.t)
        S.eval(n.f('body'))
        x = S.emit(('C04', 'C16'), 'load', at); nx = S.bin('Add', x, ('const', ('int', 1)))
        S.closes([var.t], 1); S.back(h, carried=(hi, nx))
    s = S.eval(n.f('source'))
    it = S.emit(('C04',), 'field', s, sym('"iter"')); it = S.emit(('C04',), 'call', it, ())
    nx = S.emit(('C04',), 'field', it, sym('"next"'))
    h = S.head()
    r = S.emit(('C04',), 'call', nx, ()); d = S.emit(('C04',), 'field', r, sym('"is_done"'))
    if S.test(d): S.end(UNIT)
    x = S.emit(('C04',), 'field', r, sym('"value"')); S.emit(('C04', 'C16'), 'store', at, x)
    S.open('Loop', True); S.declare_in(var.t)
    S.eval(n.f('body')); S.closes([var.t], 1); S.back(h)
def Break(S, n):
    if not S.in_loop(): S.err('INVALID_BREAK_USAGE', ('C08',))
    S.leaves_scopes(); S.exit('loop-exit')
def Continue(S, n):
    if not S.in_loop(): S.err('INVALID_CONTINUE_USAGE', ('C08',))
    S.leaves_scopes(); S.exit('loop-start')
def sequence(S, n):
    """the expressions in order, each value but the last discarded"""
    xs = n.f('expressions'); t = n.f('trailing_expression').some()
    S.rep('len(%s)' % xs.t, lambda s: s.eval(None, name=xs.t + '[k]') and None, skip_empty=xs)
    return S.eval(t) if t is not None else UNIT
def BlockKind(S, n, kind):
    loop = kind.var() == 'Loop'
    S.open('Block'); S.hoisted(n)
    v = sequence(S, n)
    S.closes_scope(); S.shut()
    S.end() if loop else S.end(v)
def FunctionBlockKind(S, n, kind):
    kv = kind.var(); args = kind.pay(kv, 0).strip()
    if kv == 'Constructor' and kind.pay(kv, 1).var() == 'Derived' and not S.starts_with_super_call(n): S.err('NEW_MUST_CALL_SUPER_FROM_SUBCLASS', ('C08',))
    S.open('Block')
    S.parameters(args, kv)
    S.hoisted(n)
    v = sequence(S, n)
    if kv == 'Constructor':
        S.before_closing(); me = S.load_named(SELF); S.closes_scope(); S.shut(); S.ret(me)
    S.closes_scope(); S.shut()
    checked_return(S, v, True)

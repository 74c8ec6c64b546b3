"""The grammar of the language as a reference for the parser analysis: which tokens each construct reads and which
syntax tree it denotes.  A reference function is run against the facts of one interpreted path."""
from engine import *

LEVEL = {}
for lvl, toks in ((2, 'Pipeline'), (3, 'Coalesce ErrorCoalesce'), (4, 'RangeExclusive RangeInclusive'), (5, 'Pipe'), (6, 'LazyAnd'),
                  (7, 'Equal NotEqual Greater GreaterEqual Less LessEqual Is'), (8, 'Plus Minus'), (9, 'Star Slash Remainder'),
                  (11, 'QuestionMark ErrorPropagate'), (12, 'LeftSquare Dot LeftParen BackslashArg')):
    for t in toks.split(): LEVEL[t] = lvl
ASSIGNMENT, UNARY = 1, 10
POSTFIX = ('QuestionMark', 'ErrorPropagate')
INFIX = tuple(t for t in LEVEL if t not in POSTFIX)
PREFIX = 'Integer Float String Null False True Identifier If Object LeftSquare Super LeftParen LeftCurly Pipe Minus Not'.split()
# tokens that end an expression or start a statement: known to the parser, but no part of an operator expression
SILENT = ('RightSquare RightParen RightCurly Comma Colon Assign MulAssign DivAssign AddAssign SubAssign While Loop For Let Function Operator '
          'Class Import Export Return Break Continue EndOfInput').split()
BINARY = {'Pipeline': 'Pipeline', 'Coalesce': 'Coalesce', 'RangeExclusive': 'RangeExclusive', 'RangeInclusive': 'RangeInclusive', 'LazyAnd': 'LogicalAnd',
          'Pipe': 'LogicalOr', 'Equal': 'Equals', 'NotEqual': 'NotEquals', 'Greater': 'GreaterThan', 'GreaterEqual': 'GreaterThanEquals', 'Less': 'LessThan',
          'LessEqual': 'LessThanEquals', 'Plus': 'Add', 'Minus': 'Subtract', 'Star': 'Multiply', 'Slash': 'Divide', 'Remainder': 'Remainder'}
OVERLOAD = {k: v for k, v in BINARY.items() if k in ('Star', 'Slash', 'Remainder', 'Plus', 'Minus', 'Greater', 'GreaterEqual', 'Less', 'LessEqual',
                                                     'Equal', 'NotEqual', 'RangeExclusive', 'RangeInclusive')}
ASSIGN = {'Assign': 'Assignment', 'MulAssign': 'MulAssignment', 'DivAssign': 'DivAssignment', 'AddAssign': 'AddAssignment', 'SubAssign': 'SubAssignment'}
UNARYOP = {'Minus': 'Negate', 'Not': 'Not'}
STATEMENT = {'Loop': 'loop_statement', 'While': 'while_statement', 'For': 'for_statement', 'Let': 'var_decl', 'Function': 'fn_decl', 'Operator': 'op_decl',
             'Class': 'class_decl', 'Import': 'import_decl', 'Export': 'export_decl', 'Return': 'control_flow', 'Break': 'control_flow', 'Continue': 'control_flow'}

def admitted(level): return tuple(sorted(t for t, l in LEVEL.items() if l >= level))

class Reject(Exception):
    def __init__(self, p, codes): self.p = p; self.codes = codes
class LexErr(Exception):
    def __init__(self, p): self.p = p
class ChildErr(Exception):
    def __init__(self, p): self.p = p
class Infeasible(Exception): pass
class TooDeep(Exception): pass
UNEXPECTED = ('E1000',)

class Ref:
    """one run of the reference along the facts of a path; undecided choices are enumerated by `explore`"""
    def __init__(self, M, E, st, dec):
        self.M, self.E, self.st = M, E, st
        self.dec = dec; self.i = 0; self.alts = []
        self.narrow = {}; self.pos = E.start; self.first = E.start; self.touched = []; self.unseen = None
        self.childerrs = {e[1] for e in st.events() if e[0] == 'childerr'}
        self.ifkey = None
    def choose(self, what):
        if self.i < len(self.dec): v = self.dec[self.i]
        else:
            v = True; self.dec = self.dec + [True]; self.alts.append(self.dec[:self.i] + [False])
        self.i += 1
        if self.i > 60: raise TooDeep()
        return v
    # ---- tokens
    def kinds(self, p):
        if p in self.narrow: return self.narrow[p]
        allk = frozenset(range(len(self.M.kinds))); eoi = self.M.kix['EndOfInput']
        tk = self.st.facts.get(('tk', p))
        if tk == 'err': raise LexErr(p)
        if tk is None:
            # a token the implementation did not look at
            q = self.E.tlist[p]
            self.unseen = p
            s = allk
        elif tk == 'end': s = frozenset({eoi})
        else: s = allk - {eoi}
        v = self.st.facts.get(('var', self.M.kindsid(self.E, p)))
        if tk != 'end':
            if isinstance(v, int): s = s & {v}
            elif isinstance(v, frozenset): s = s - v
        if not s: raise Infeasible()
        self.narrow[p] = s
        return s
    def at(self, *names):
        want = frozenset(self.M.kix[n] for n in names if n in self.M.kix)
        s = self.kinds(self.pos)
        if s <= want: return True
        if not (s & want): return False
        r = self.choose(('at', self.pos, names))
        self.narrow[self.pos] = s & want if r else s - want
        return r
    def kind(self, names):
        """the kind at the current position, one of `names`, or None"""
        for n in names:
            if self.at(n): return n
        return None
    def next(self):
        s = self.kinds(self.pos); p = self.pos; self.touched.append(p)
        if not (s <= {self.M.kix['EndOfInput']}): self.pos = self.E.sym(('after', p), 'pos')
        return p
    def consume(self, *names):
        if not self.at(*names): raise Reject(self.pos, UNEXPECTED)
        return self.next()
    def ident(self):
        p = self.consume('Identifier'); return ('slice', p)
    def lookahead_end(self):
        """reading past the end again yields the end"""
    # ---- nested parses
    def child(self, desc):
        key = ('child', desc, self.pos); p2 = self.E.sym(key, 'pos')
        if p2 in self.childerrs: raise ChildErr(p2)
        n = ('childid', desc, self.pos); self.touched.append(('in', p2)); self.pos = p2
        return n
    def expr(self, level=ASSIGNMENT): return self.child(('expr', admitted(level), level <= ASSIGNMENT))
    def sub(self, name):
        if name in self.M.meth: return self.child(('sub', name))
        return globals()[name](self)
    def block(self):
        self.consume('LeftCurly'); b = self.sub('expression_sequence'); self.consume('RightCurly'); return b
    # ---- values
    def node(self, variant, **f): return ('node', variant, f)
    def ident_node(self, s): return ('struct', {'identifier': s})
    def list(self, elem, close):
        out = []
        while not self.at(close):
            out.append(elem())
            if self.at('Comma'): self.next()
            elif not self.at(close): raise Reject(self.pos, UNEXPECTED)
            if len(out) > 12: raise TooDeep()
        self.consume(close)
        return out
    def flag(self, v):
        """a boolean the function was given"""
        r = self.E.decide(self.st, v)
        if r is None: r = self.choose(('flag', v))
        return r
    def annotation(self, delim):
        self.consume(delim); n = self.ident(); nullable = False
        if self.at('QuestionMark'): self.next(); nullable = True
        return ('struct', {'name': self.ident_node(n), 'is_nullable': ('bool', nullable)})
    def params(self, open_, close):
        self.consume(open_)
        def one():
            n = self.ident(); t = ('none',)
            if self.at('Colon'): t = ('some', self.annotation('Colon'))
            return ('struct', {'name': n, 'type_': t})
        return self.list(one, close)
    def names(self):
        self.consume('LeftCurly'); return self.list(self.ident, 'RightCurly')
    def returns(self):
        return ('some', self.annotation('Arrow')) if self.at('Arrow') else ('none',)

def parse(r):
    root = r.sub('expression_sequence'); r.consume('EndOfInput')
    return ('tree', root)
def expression_sequence(r):
    items = []
    while not r.at('EndOfInput', 'RightCurly'):
        k = r.kind(list(STATEMENT))
        items.append(r.sub(STATEMENT[k]) if k else r.expr())
        if len(items) > 12: raise TooDeep()
    if items: return r.node('Block', expressions=items[:-1], trailing_expression=('some', items[-1]))
    return r.node('Block', expressions=[], trailing_expression=('none',))
def if_expression(r):
    r.consume('If'); c = r.expr(); b = r.block(); s = ('none',)
    if r.at('Else'):
        r.next()
        if r.at('If'): s = ('some', r.sub('if_expression'))
        elif r.at('LeftCurly'): s = ('some', r.block())
        else: raise Reject(r.pos, UNEXPECTED)
    return r.node('IfExpression', condition=c, primary=b, secondary=s)
def loop_statement(r):
    r.consume('Loop'); return r.node('Loop', body=r.block())
def while_statement(r):
    r.consume('While'); c = r.expr(); return r.node('WhileLoop', condition=c, body=r.block())
def for_statement(r):
    r.consume('For'); v = r.ident(); r.consume('In'); s = r.expr(); return r.node('ForLoop', variable=v, source=s, body=r.block())
def control_flow(r):
    if r.at('Break'): r.next(); return r.node('Break')
    if r.at('Continue'): r.next(); return r.node('Continue')
    r.consume('Return')
    return r.node('Return', result=('none',) if r.at('RightCurly') else ('some', r.expr()))
def import_decl(r):
    r.consume('Import'); m = ('none',); items = []
    if r.at('Star'):
        r.next(); r.consume('As'); m = ('some', r.ident())
        if r.at('Comma'): r.next()
    if r.at('LeftCurly'): items = r.names()
    if m == ('none',) and not items: raise Reject(r.pos, ('E2505',))
    r.consume('From'); p = r.consume('String')
    return r.node('ImportDecl', module_import=m, item_imports=items, relative_path=('inner', p))
def export_decl(r):
    r.consume('Export')
    k = r.kind(('Let', 'Function', 'Class', 'Identifier'))
    if k is None: raise Reject(r.pos, UNEXPECTED)
    if k == 'Identifier': n = r.node('LitIdent', identifier=r.ident())
    else: n = r.sub(STATEMENT[k])
    return r.node('ExportDecl', export=n)
def var_decl(r):
    r.consume('Let'); mut = False
    if r.at('Mut'): r.next(); mut = True
    if r.at('Identifier'): k = ('enum', 'Singular', [r.ident()])
    elif r.at('LeftCurly'): k = ('enum', 'Destructured', [r.names()])
    else: raise Reject(r.pos, UNEXPECTED)
    r.consume('Assign'); e = r.expr()
    return r.node('VarDecl', kind=k, is_mutable=('bool', mut), expr=e, type_=('none',))
def fn_decl(r):
    r.consume('Function'); n = r.ident(); a = r.params('LeftParen', 'RightParen'); t = r.returns(); b = r.block()
    return r.node('FnDecl', name=r.ident_node(n), args=a, body=b, return_=t)
def op_decl(r):
    r.consume('Operator'); k = r.kind(tuple(OVERLOAD))
    if k is None: raise Reject(r.pos, UNEXPECTED)
    r.next(); a = r.params('LeftParen', 'RightParen'); t = r.returns(); b = r.block()
    return r.node('OpDecl', operator=('enum', OVERLOAD[k], []), args=a, body=b, return_=t)
def class_decl(r):
    r.consume('Class'); n = r.ident(); base = ('none',)
    if r.at('Colon'): r.next(); base = ('some', r.expr())
    r.consume('LeftCurly'); items = []
    while not r.at('RightCurly'):
        if r.at('Function'): items.append(r.sub('fn_decl'))
        elif r.at('Operator'): items.append(r.sub('op_decl'))
        else: raise Reject(r.pos, UNEXPECTED)
        if len(items) > 12: raise TooDeep()
    r.consume('RightCurly')
    return r.node('ClassDecl', name=r.ident_node(n), associated_items=items, base=base)
def assignment(r, lhs, can_assign):
    """an assignment operator may follow a place where the context allows one"""
    k = r.kind(tuple(ASSIGN))
    if k is None or not r.flag(can_assign): return lhs
    r.next(); e = r.expr()
    return r.node('Assignment', operator=('enum', ASSIGN[k], []), lhs_expression=lhs, rhs_expression=e)
def prefix(r, can_assign):
    """expressions by their first token"""
    if r.at('Identifier'): n = r.ident(); return assignment(r, r.node('LitIdent', identifier=n), can_assign)
    if r.at('Integer'): p = r.next(); return number(r, 'LitInt', p, ('E1007',))
    if r.at('Float'): p = r.next(); return number(r, 'LitFloat', p, ('E1008',))
    if r.at('String'): p = r.next(); return r.node('LitString', value=('inner', p))
    if r.at('True'): r.next(); return r.node('LitBool', value=('bool', True))
    if r.at('False'): r.next(); return r.node('LitBool', value=('bool', False))
    if r.at('Null'): r.next(); return r.node('LitNull')
    if r.at('If'): return if_expression(r)
    if r.at('LeftCurly'): return r.block()
    if r.at('LeftParen'):
        r.next()
        if r.at('RightParen'): r.next(); return r.node('LitUnit')
        e = r.expr(); r.consume('RightParen'); return e
    if r.at('LeftSquare'): r.next(); return r.node('LitList', items=r.list(r.expr, 'RightSquare'))
    if r.at('Object'):
        r.next(); r.consume('LeftCurly')
        def item():
            if r.at('String'): k = ('inner', r.next())
            else: k = ('slice', r.consume('Integer', 'Identifier'))
            r.consume('Colon'); return ('tuple', [k, r.expr()])
        return r.node('LitObject', items=r.list(item, 'RightCurly'))
    if r.at('Pipe'):
        a = r.params('Pipe', 'Pipe'); b = r.expr(); return r.node('LitAnonymousFn', args=a, body=b, return_=('none',))
    if r.at('Minus', 'Not'):
        k = r.kind(('Minus', 'Not')); r.next(); e = r.expr(UNARY); return r.node('Prefix', operator=('enum', UNARYOP[k], []), expression=e)
    if r.at('Super'):
        r.next()
        if r.at('LeftParen'): r.next(); return r.node('SuperCall', args=r.list(r.expr, 'RightParen'))
        c = ('none',)
        if r.at('LeftSquare'): r.next(); c = ('some', r.ident()); r.consume('RightSquare')
        r.consume('Dot'); f = r.ident()
        return r.node('SuperAccess', field=f, super_class=c)
    raise Reject(r.pos, UNEXPECTED)
def number(r, variant, p, code):
    """the text of the literal read as a number; text that is none is an error"""
    ty = 'i64' if variant == 'LitInt' else 'f64'
    v = r.M.parsed(r.E, r.st, p, ty)
    if v is not None:
        ok = r.E.decide(r.st, ('c', 'isvar', v, 0))
        if ok is None: ok = r.choose('number')
        if not ok: raise Reject(p, code)
    return r.node(variant, value=('parsed', p, ty))
def infix(r, lhs, can_assign):
    k = r.kind(tuple(BINARY))
    if k:
        r.next()
        if k == 'Pipe': r.consume('Pipe')
        e = r.expr(LEVEL[k] + 1)
        return r.node('Binary', operator=('enum', BINARY[k], []), lhs_expression=lhs, rhs_expression=e)
    if r.at('Is'): return r.node('Is', value=lhs, type_=r.annotation('Is'))
    if r.at('Dot'):
        r.next(); f = r.ident(); return assignment(r, r.node('FieldAccess', expression=lhs, field=f), can_assign)
    if r.at('LeftSquare'):
        r.next(); i = r.expr(); r.consume('RightSquare'); return assignment(r, r.node('Index', expression=lhs, index_expression=i), can_assign)
    if r.at('BackslashArg'):
        p = r.next(); return r.node('FnCall', target=lhs, args=[r.node('LitString', value=('inner', p))])
    if r.at('LeftParen'): r.next(); return r.node('FnCall', target=lhs, args=r.list(r.expr, 'RightParen'))
    if r.at('QuestionMark'): r.next(); return r.node('NullPropagate', expression=lhs)
    if r.at('ErrorPropagate'): r.next(); return r.node('ErrorPropagate', expression=lhs)
    if r.at('ErrorCoalesce'):
        r.next(); e = r.ident(); b = r.block()
        res = r.node('LitIdent', identifier=('str', '#result'))
        val = r.node('FieldAccess', expression=res, field=('const', 'dice_core::protocol::error::RESULT'))
        ok = r.node('FieldAccess', expression=res, field=('const', 'dice_core::protocol::error::IS_OK'))
        var = r.node('VarDecl', kind=('enum', 'Singular', [('str', '#result')]), is_mutable=('bool', False), expr=lhs,
                     type_=('some', ('struct', {'name': r.ident_node(('str', 'Result')), 'is_nullable': ('bool', False)})))
        err = r.node('VarDecl', kind=('enum', 'Singular', [e]), is_mutable=('bool', False), expr=val, type_=('none',))
        other = r.node('Block', expressions=[err], trailing_expression=('some', b))
        pick = r.node('IfExpression', condition=ok, primary=val, secondary=('some', other))
        return r.node('Block', expressions=[var], trailing_expression=('some', pick))
    raise Reject(r.pos, UNEXPECTED)

def explore(M, E, st, fn):
    """all runs of reference function fn(r) consistent with the path -> [(ref, 'ok'|'reject'|'lexerr'|'childerr', value)]"""
    out = []; work = [[]]; n = 0
    while work and n < 400:
        dec = work.pop(); n += 1
        r = Ref(M, E, st, dec)
        try: out.append((r, 'ok', fn(r)))
        except Reject as x: out.append((r, 'reject', x))
        except LexErr as x: out.append((r, 'lexerr', x))
        except ChildErr as x: out.append((r, 'childerr', x))
        except Infeasible: pass
        except TooDeep: out.append((r, 'deep', None))
        work.extend(r.alts)
    return out

"""Decoding of emitted bytecode templates and abstract execution on a symbolic operand stack.

A template is the abstract byte sequence the analysed function appends to the assembler: constant opcode bytes, symbolic
operand bytes, two-byte jump operands, nested-visit segments ('child') and repeated segments ('rep').
The machine below follows its control flow; it never runs the compiler or any bytecode."""
from engine import *

INSTR = 'dice_bytecode::instruction::Instruction'
# operand widths, in bytes ('j' = jump offset)
ONE = '''PushConst Dup LoadModule LoadGlobal LoadLocal LoadField LoadMethod LoadUpvalue StoreGlobal StoreLocal StoreField
StoreMethod StoreUpvalue AssignLocal AssignField AssignUpvalue CloseUpvalue Call CallSuper CreateArray InheritClass
AssertTypeForLocal AssertTypeOrNullForLocal'''.split()
LAYOUT = {n: (1,) for n in ONE}
for n in ('Jump', 'JumpIfFalse', 'JumpIfTrue'): LAYOUT[n] = ('j',)
LAYOUT['LoadFieldToLocal'] = (1, 1)
LAYOUT['CreateClosure'] = (1, 'u')
BIN = '''Multiply Divide Remainder Add Subtract GreaterThan GreaterThanOrEqual LessThan LessThanOrEqual Equal NotEqual Is
RangeInclusive RangeExclusive'''.split()
UN = ['Negate', 'Not']
PUSHES = {'PushNull': 'null', 'PushUnit': 'unit', 'PushFalse': False, 'PushTrue': True, 'PushI0': ('int', 0), 'PushI1': ('int', 1),
          'PushF0': ('float', 0.0), 'PushF1': ('float', 1.0)}
CONSTOP = set('PushConst LoadModule LoadGlobal LoadField LoadMethod StoreGlobal StoreField StoreMethod AssignField InheritClass LoadFieldToLocal CreateClosure'.split())
SLOTOP = set('LoadLocal StoreLocal AssignLocal CloseUpvalue AssertTypeForLocal AssertTypeOrNullForLocal LoadFieldToLocal'.split())
UPOP = set('LoadUpvalue StoreUpvalue AssignUpvalue'.split())
COUNTOP = set('Call CallSuper CreateArray'.split())
RETS = {'Return', 'AssertTypeAndReturn', 'AssertTypeOrNullAndReturn'}

class Undecided(Exception):
    """the code does this in a way the analysis does not follow"""
class Bad(Exception):
    def __init__(self, prop, what): Exception.__init__(self, what); self.prop = prop; self.what = what

class Decoder:
    def __init__(self, E):
        self.E = E
        vs = E.P.variants(INSTR) or []
        self.names = {v['d']: v['n'] for v in vs}
    def untrunc(self, v, ty):
        """the value before a narrowing cast; (value, narrowed?)"""
        ty = None
        while v is not None and v[0] == 'i':
            for sid, c in v[2]:
                t = self.E.tlist[sid]
                if t[0] == 'trunc':
                    v = lin_add(lin_add(v, ('i', 0, ((sid, c),)), -1), lin_scale(t[2], c)); ty = t[1]; break
            else: break
        return v, ty
    def decode(self, segs, start, path=()):
        """items: {'pos','end','op','args'} | {'pos','child'} | {'pos','rep'} | {'pos','raw'}"""
        E = self.E; out = []; pos = start; i = 0
        segs = list(segs)
        while i < len(segs):
            s = segs[i]
            L = E.slen(s)
            if s[0] == 'child':
                out.append({'k': 'child', 'pos': pos, 'end': lin_add(pos, L), 'child': s}); pos = lin_add(pos, L); i += 1; continue
            if s[0] == 'rep':
                r = E.reps.get(s[1])
                alts = [(a['facts'], a['cells'].get(s[2], ()), a['ev']) for a in r['alts']]; N = s[3]
                while True:
                    # rounds over what an earlier loop chose: together, rounds over what that loop went through
                    t = E.tlist[N[2][0][0]] if N is not None and N[1] == 0 and len(N[2]) == 1 and N[2][0][1] == 1 else None
                    if t is None or t[0] != 'replen' or t[3] is None or t[1] not in E.reps: break
                    made = [(a['facts'], a['cells'].get(t[2], ()), a['ev']) for a in E.reps[t[1]]['alts']]
                    if not made or any(e or len(c) > 1 or (c and c[0][0] != 'e') for f, c, e in made): break
                    alts = [x for f, c, e in made for x in ([({**f, **g}, d, v) for g, d, v in alts] if c else [(f, (), [])])]; N = t[3]
                out.append({'k': 'rep', 'pos': pos, 'end': lin_add(pos, L), 'lid': s[1], 'N': N, 'path': s[2], 'alts': alts, 'K': r['K']})
                pos = lin_add(pos, L); i += 1; continue
            if s[0] != 'e' or lin_const(s[1]) is None:
                raise Bad('C10', 'a byte that is no known instruction is emitted where an instruction is expected: ' + E.pseg(s)[:80])
            op = self.names.get(lin_const(s[1]))
            if op is None: raise Bad('C10', 'opcode byte %s is no instruction' % lin_const(s[1]))
            it = {'k': 'op', 'pos': pos, 'op': op, 'args': []}; pos = lin_add(pos, I(1)); i += 1
            for w in LAYOUT.get(op, ()):
                if w == 1:
                    if i >= len(segs) or segs[i][0] != 'e': raise Bad('C10', '%s is not followed by its one-byte operand' % op)
                    it['args'].append(segs[i][1]); i += 1; pos = lin_add(pos, I(1))
                elif w == 'j':
                    if i >= len(segs) or segs[i][0] != 'w2': raise Bad('C10', '%s is not followed by a two-byte offset' % op)
                    it['args'].append(segs[i][1]); it['endian'] = segs[i][2]; it['opnd'] = pos; i += 1; pos = lin_add(pos, I(2))
                elif w == 'u':
                    # capture list: two bytes per captured variable of the function constant
                    caps = []; n = I(0)
                    cnt = it['cap_count'] = self.fn_captures(it['args'][0])
                    if cnt is None: raise Bad('C10', 'the operand of CreateClosure does not name a function constant')
                    need = lin_scale(cnt, 2)
                    while n != need:
                        if i >= len(segs): raise Bad('C15', 'the capture list of a closure is shorter than two bytes per capture')
                        L = E.slen(segs[i])
                        if segs[i][0] not in ('e', 'rep'): raise Bad('C15', 'the capture list of a closure does not have two bytes per capture')
                        caps.append(segs[i]); n = lin_add(n, L); i += 1
                        if lin_const(lin_add(need, n, -1)) is not None and lin_const(lin_add(need, n, -1)) < 0:
                            raise Bad('C15', 'the capture list of a closure is longer than two bytes per capture')
                    it['caps'] = caps; pos = lin_add(pos, n)
            it['end'] = pos
            out.append(it)
        return out, pos
    def const_of(self, v):
        """the constant an operand byte indexes (from make_constant's contract)"""
        E = self.E
        if v[0] == 'i' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            t = E.tlist[v[2][0][0]]
            if t[0] == 'cidx': return t[1]
        return None
    def fn_parts(self, c):
        """(slot_count, upvalue_count, constants, data) of a frozen function constant"""
        E = self.E
        def find(x, d=0):
            if isinstance(x, tuple) and d < 12:
                if x and x[0] == 'adt' and str(x[1]).endswith('BytecodeInner'):
                    return {n: x[3][i] for i, (n, t) in enumerate(E.T[x[1]]['variants'][0]['f'])}
                for y in x:
                    r = find(y, d + 1)
                    if r: return r
            return None
        return find(c)
    def fn_captures(self, v):
        c = self.const_of(v)
        if c is None: return None
        p = self.fn_parts(c)
        return p.get('upvalue_count') if p else None

ENDIAN = 'be'     # as the reader does (codec.py)

# ---------------------------------------------------------------- symbolic machine
class Trace:
    """events of one path; values are references to the event that produced them"""
    def __init__(self, pre='', ev=()):
        self.pre = pre; self.ev = list(ev)
    def fork(self): return Trace(self.pre, self.ev)
    def e(self, *a):
        self.ev.append(tuple(a)); return ('r', self.pre + str(len(self.ev) - 1))

def strip_lifetimes(s):
    import re
    return re.sub(r"<'[^>]*>|'\w+ ", '', s)

class Exec:
    """abstract execution of one template"""
    def __init__(self, E, D, st, base, ctx):
        self.E = E; self.D = D; self.st = st; self.base = base
        self.obs = []      # (property, key, detail)
        self.ctx = ctx     # callbacks: slot naming, child effects, unresolved jumps
        self.profile = {}  # position -> stack profile
        self.soft = []     # violations after which the run goes on
        self.ninst = 0
    def ob(self, prop, key, detail=''):
        if (prop, key, detail) not in self.obs: self.obs.append((prop, key, detail))
    # -- stack helpers
    def count(self, stack):
        t = I(0)
        for x in stack: t = lin_add(t, x[1]) if x[0] in ('base', 'many') else lin_add(t, I(1))
        return t
    def prof(self, stack):
        o = []; acc = I(0)
        for x in stack: acc = lin_add(acc, x[1] if x[0] in ('base', 'many') else I(1))
        return acc
    def norm(self, stack):
        out = []
        for x in stack:
            if x[0] in ('base', 'many'):
                lo, hi = self.E.bounds(self.st, x[1])
                if lo == 0 and hi == 0: continue
            out.append(x)
        return tuple(out)
    def pop(self, stack, what):
        """(value, rest)"""
        stack = self.norm(stack)
        if not stack: raise Bad('C01', '%s pops from an empty operand stack' % what)
        x = stack[-1]
        if x[0] in ('base', 'many'):
            v = ('under', self.E.pv(x[1])) if x[0] == 'base' else ('ofmany', x[2])
            return v, stack[:-1] + ((x[0], lin_add(x[1], I(1), -1)) + x[2:],)
        return x, stack[:-1]
    def peek(self, stack, n, what):
        stack = self.norm(stack); k = n
        for x in reversed(stack):
            if x[0] in ('base', 'many'):
                if x[0] == 'base': raise Bad('C01', '%s reads a value this construct did not push' % what)
                c = lin_const(x[1])
                if c is None or k < c: return ('ofmany', x[2])
                k -= c
            elif k == 0: return x
            else: k -= 1
        raise Bad('C01', '%s reads below the operand stack' % what)

    # -- running
    def run(self, items, end, stack, tr, at=0):
        """all paths: list of (kind, value, stack, trace)"""
        index = {}
        for i, it in enumerate(items): index.setdefault(it['pos'], i)
        self.cur_items = items
        out = []; work = [(at, self.norm(stack), tr, {})]
        guard = 0
        while work:
            i, stk, t, heads = work.pop()
            guard += 1
            if guard > 20000: raise Budget('bytecode paths')
            while True:
                if i >= len(items):
                    self.check_prof(end, stk); out.append(('end', None, stk, t)); break
                it = items[i]
                pos = it['pos']
                self.check_prof(pos, stk)
                if pos in heads:
                    n0, s0 = heads[pos]
                    if s0 != stk: out.append(('back', ('head', n0, 'carried', tuple(stk)), stk, t))
                    else: out.append(('back', ('head', n0), stk, t))
                    break
                if it.get('head'):
                    heads = dict(heads); heads[pos] = (len(t.ev), stk)
                    t.ev.append(('head',))
                if it['k'] == 'child':
                    stk, fall = self.child(it, stk, t)
                    if not fall: out.append(('childret', None, stk, t)); break
                    i += 1; continue
                if it['k'] == 'rep':
                    stk = self.rep(it, stk, t); i += 1; continue
                self.ninst += 1
                r = self.op(it, stk, t)
                if r[0] == 'next': stk = r[1]; i += 1; continue
                if r[0] == 'ret': out.append(('ret', r[1], r[2], t)); break
                # jumps: list of (taken-trace, stack, target or None)
                nxt = []
                for tt, s2, target in r[1]:
                    if target == 'fall': nxt.append((i + 1, s2, tt, heads)); continue
                    if isinstance(target, tuple) and target and target[0] == 'unresolved':
                        out.append(('exit', target[1:], s2, tt)); continue
                    if target == end: self.check_prof(end, s2); out.append(('end', None, s2, tt)); continue
                    j = index.get(target)
                    if j is None: raise Bad('C02', '%s does not land on an instruction: target %s' % (it['op'], self.E.pv(target)[:160]))
                    nxt.append((j, s2, tt, heads))
                if not nxt: break
                work.extend(nxt[1:])
                i, stk, t, heads = nxt[0]
        return out
    def check_prof(self, pos, stk):
        p = self.prof(stk)
        q = self.profile.setdefault(pos, p)
        if p != q:
            self.soft.append(Bad('C01', 'paths reach one point with different stack depths: %s and %s' % (self.E.pv(p)[:80], self.E.pv(q)[:80])))
    def child(self, it, stk, t):
        s = it['child']; n, vt, fz, tb, cd = s[1:6]; cx = self.ctx.ctx_name(s[6], it)
        E = self.E
        name, kind = self.ctx.child_name(vt, fz)
        depth = self.count(stk)
        self.ctx.visit_site(self, s, name, kind, depth, stk)
        eff = self.ctx.effect(vt, kind)
        self.child_at = getattr(self, 'child_at', {}); self.child_at[n] = (it['pos'], self.prof(stk))
        if eff == 'ret':
            t.e('evalret', name, kind, cx); return stk, False
        v = t.e('eval', name, kind, cx)
        if eff == 1: return stk + (v,), True
        return stk, True
    def rep(self, it, stk, t):
        E = self.E; me = len(t.ev); pre = '%s%d.' % (t.pre, me)
        K = it['K']; N = it['N']
        if N is None: N = ('i', 0, ((E.sym(('repN', it['lid']), 'usize'), 1),))
        def once(stack, mk):
            res = []
            for facts, segs, ev in it['alts']:
                its, e2 = self.D.decode(segs, I(0))
                sub = Exec(E, self.D, self.st, self.base, self.ctx); sub.soft = self.soft
                sub.obs = self.obs
                for kind, v, s2, tr in sub.run(its, e2, stack, Trace(pre)):
                    if kind != 'end': raise Bad('C04', 'control leaves a repeated group of instructions (%s)' % kind)
                    res.append((facts, s2, tr))
                self.ninst += sub.ninst
            return res
        mark = len(self.ctx.sites)
        res = once(stk, None)
        def delta(a, b):
            a = self.norm(a); b = self.norm(b)
            if a == b: return 0
            if len(b) == len(a) + 1 and b[:len(a)] == a: return 1
            if lin_add(self.count(b), self.count(a), -1) == I(-1): return -1
            if len(a) == len(b) and all(x == y or (x[0] not in ('base', 'many') and y[0] not in ('base', 'many')) for x, y in zip(a, b)): return 'loop'
            return None
        ds = {delta(stk, r[1]) for r in res}
        if ds == {0, 'loop'}: ds = {'loop'}
        if len(ds) > 1 or None in ds: raise Bad('C01', 'a repeated group of instructions does not change the stack alike in every round')
        d = ds.pop() if ds else 0
        if d == 1:
            del self.ctx.sites[mark:]
            res = once(stk + (('many', K, pre),), None)
            for f, s2, tr in res:
                if s2[:-1] != stk + (('many', K, pre),): raise Bad('C01', 'a repeated group of instructions disturbs the values below its results')
            new = stk + (('many', N, pre),)
        elif d == -1:
            if self.drops_top(it):
                s2 = self.drop(stk, N)
                t.e('discard', self.ctx.txt(N)); return s2
            # one value below the top is dropped per round
            if len(stk) < 2: raise Bad('C01', 'repeated discards pop below the operand stack')
            new = None
            r = res[0][1]
            if stk[-1] != self.norm(r)[-1]: raise Bad('C03', 'discarding temporaries does not keep the value on top')
            rest = list(stk[:-1]); left = N
            while rest:
                x = rest.pop(); c = x[1] if x[0] in ('base', 'many') else I(1)
                nl = lin_add(left, c, -1)
                if nl == I(0): left = nl; break
                if lin_const(nl) is not None and lin_const(nl) > 0: left = nl; continue
                if x[0] in ('base', 'many'):
                    # partial
                    lo, hi = E.bounds(self.st, nl)
                    if lin_const(nl) is not None and lin_const(nl) < 0: rest.append((x[0], lin_scale(nl, -1)) + x[2:]); left = I(0); break
                left = nl
                if not nl[2]: break
            if left != I(0): raise Bad('C03', 'discards %s values, %s in flight' % (E.pv(N)[:60], E.pv(self.count(stk[:-1]))[:60]))
            t.e('discard', self.ctx.txt(N))
            return self.norm(tuple(rest) + (stk[-1],))
        else: new = stk
        if d == 'loop':
            # stack items that change from round to round: ('lv', round's event prefix, position)
            n = len(self.norm(stk))
            ch = set()
            while True:
                stin = tuple(('lv', pre, j) if j in ch else x for j, x in enumerate(self.norm(stk)))
                res = once(stin, None); more = set()
                for f, s2, tr in res:
                    for j in range(n):
                        if s2[j] != stin[j] and j not in ch: more.add(j)
                if not more: break
                ch |= more
            new = tuple(('lv', pre, j) if j in ch else x for j, x in enumerate(self.norm(stk)))
            alts = [((self.ctx.rep_facts(f, K), tuple(tr.ev), tuple(self.norm(s2)[j] for j in sorted(ch))), f) for f, s2, tr in res]
            extra = (tuple(self.norm(stk)[j] for j in sorted(ch)),)
        else:
            alts = [((self.ctx.rep_facts(facts, K), tuple(tr.ev), s2[-1] if d == 1 else None), facts) for facts, s2, tr in res]
            if all(not a[0][1] for a in alts) and d == 0: return new
            extra = ()
        alts.sort(key=lambda a: repr(a[0]))
        key = (self.ctx.txt(N), tuple(a[0] for a in alts))
        self.ctx.repraw[key] = ([a[1] for a in alts], K)
        t.e('rep', *key, *extra)
        return new

    def drops_top(self, it):
        """do all rounds of a group drop the value on top, and not one below it"""
        m1, m2 = ('r', 'm1'), ('r', 'm2'); res = set()
        for facts, segs, ev in it['alts']:
            its, e2 = self.D.decode(segs, I(0))
            sub = Exec(self.E, self.D, self.st, self.base, self.ctx); sub.soft = self.soft
            for kind, v, s2, tr in sub.run(its, e2, (m1, m2), Trace('?')): res.add(s2)
        return res == {(m1,)}
    def drop(self, stk, N):
        """the stack without its N topmost values"""
        E = self.E; rest = list(self.norm(stk)); left = N
        while left != I(0):
            if not rest: raise Bad('C01', 'discards more values than are on the operand stack')
            x = rest.pop(); c = x[1] if x[0] in ('base', 'many') else I(1)
            if x[0] == 'base': rest.append(('base', lin_add(c, left, -1))); break
            left = lin_add(left, c, -1)
            if lin_const(left) is not None and lin_const(left) < 0: raise Bad('C03', 'discards part of a group of values')
        return self.norm(tuple(rest))
    def op(self, it, stk, t):
        E = self.E; o = it['op']; a = it['args']; C = self.ctx
        for x in a:
            if x is not None and o not in ('Jump', 'JumpIfFalse', 'JumpIfTrue'):
                v, ty = self.D.untrunc(x, 'u8')
                if ty: self.ob('C09', o, v)
        if o in PUSHES: return 'next', stk + (('const', PUSHES[o]),)
        if o == 'PushConst': return 'next', stk + (('const', self.const(a[0], o)),)
        if o == 'Pop':
            v, s = self.pop(stk, o); return 'next', s
        if o == 'Dup':
            n = lin_const(a[0])
            if n is None: raise Bad('C01', 'Dup with an unknown distance')
            return 'next', stk + (self.peek(stk, n, o),)
        if o == 'Swap':
            x, s = self.pop(stk, o); y, s = self.pop(s, o)
            return 'next', s + (x, y)
        if o in BIN:
            y, s = self.pop(stk, o); x, s = self.pop(s, o)
            return 'next', s + (t.e('bin', o, x, y),)
        if o in UN:
            x, s = self.pop(stk, o); return 'next', s + (t.e('un', o, x),)
        if o == 'AssertBool':
            x = self.peek(stk, 0, o); t.e('assert_bool', x); return 'next', stk
        if o == 'LoadLocal': return 'next', stk + (t.e('load', self.slot(a[0])),)
        if o == 'StoreLocal':
            x, s = self.pop(stk, o); t.e('store', self.slot(a[0]), x); return 'next', s + (x,)
        if o == 'AssignLocal':
            x, s = self.pop(stk, o); t.e('store', self.slot(a[0]), x); return 'next', s + (('const', 'unit'),)
        if o == 'LoadUpvalue': return 'next', stk + (t.e('loadup', self.up(a[0])),)
        if o == 'StoreUpvalue':
            x, s = self.pop(stk, o); t.e('storeup', self.up(a[0]), x); return 'next', s + (x,)
        if o == 'AssignUpvalue':
            x, s = self.pop(stk, o); t.e('storeup', self.up(a[0]), x); return 'next', s + (('const', 'unit'),)
        if o == 'CloseUpvalue': t.e('close', self.slot(a[0])); return 'next', stk
        if o == 'LoadGlobal': return 'next', stk + (t.e('global', self.const(a[0], o)),)
        if o == 'StoreGlobal':
            x, s = self.pop(stk, o); t.e('setglobal', self.const(a[0], o), x); return 'next', s
        if o == 'LoadModule': return 'next', stk + (t.e('module', self.const(a[0], o)),)
        if o == 'LoadField':
            x, s = self.pop(stk, o); return 'next', s + (t.e('field', x, self.const(a[0], o)),)
        if o == 'LoadFieldToLocal':
            if self.D.const_of(a[0]) is None and self.D.const_of(a[1]) is not None: raise Bad(('C10', 'C21'), 'the operands of %s are written in the other order' % o)
            x, s = self.pop(stk, o); v = t.e('field', x, self.const(a[0], o)); t.e('store', self.slot(a[1]), v)
            return 'next', s + (v,)
        if o in ('StoreField', 'AssignField'):
            v, s = self.pop(stk, o); ob, s = self.pop(s, o); t.e('setfield', ob, self.const(a[0], o), v)
            return 'next', s + ((v if o == 'StoreField' else ('const', 'unit')),)
        if o == 'LoadIndex':
            i, s = self.pop(stk, o); x, s = self.pop(s, o); return 'next', s + (t.e('index', x, i),)
        if o in ('StoreIndex', 'AssignIndex'):
            v, s = self.pop(stk, o); i, s = self.pop(s, o); x, s = self.pop(s, o); t.e('setindex', x, i, v)
            return 'next', s + ((v if o == 'StoreIndex' else ('const', 'unit')),)
        if o == 'LoadMethod':
            r, s = self.pop(stk, o); c, s = self.pop(s, o); return 'next', s + (t.e('supermethod', c, r, self.const(a[0], o)),)
        if o == 'StoreMethod':
            v, s = self.pop(stk, o); c, s = self.pop(s, o); t.e('setmethod', c, self.const(a[0], o), v); return 'next', s
        if o == 'InheritClass':
            b, s = self.pop(stk, o); return 'next', s + (t.e('class', b, self.const(a[0], o)),)
        if o == 'CreateObject': return 'next', stk + (t.e('object'),)
        if o in ('CreateArray', 'Call', 'CallSuper'):
            n = self.D.untrunc(a[0], 'u8')[0]
            s = stk; sup = None
            if o == 'CallSuper': sup, s = self.pop(s, o)
            args, s = self.popn(s, n, o)
            if o == 'CreateArray': return 'next', s + (t.e('array', args),)
            f, s = self.pop(s, o)
            if o == 'CallSuper': return 'next', s + (t.e('callsuper', sup, f, args),)
            return 'next', s + (t.e('call', f, args),)
        if o == 'CreateClosure': return 'next', stk + (t.e('closure', C.fn_name(self.D.const_of(a[0])), C.captures(self, it)),)
        if o in ('AssertTypeForLocal', 'AssertTypeOrNullForLocal'):
            ty, s = self.pop(stk, o); t.e('assert_type', o == 'AssertTypeOrNullForLocal', ty, self.slot(a[0])); return 'next', s
        if o in RETS:
            s = stk
            if o != 'Return':
                ty, s = self.pop(s, o); v = self.peek(s, 0, o); t.e('assert_type', o == 'AssertTypeOrNullAndReturn', ty, v)
            v, s = self.pop(s, o)
            s = self.norm(s)
            if s: raise Bad('C03', 'a return leaves %s value(s) of the function on the operand stack' % E.pv(self.count(s))[:100])
            return 'ret', v, s
        if o in ('Jump', 'JumpIfFalse', 'JumpIfTrue'):
            if it['endian'] != ENDIAN: raise Bad('C10', 'a jump offset is written in %s byte order' % it['endian'])
            off, ty = self.D.untrunc(a[0], 'i16')
            if ty: self.ob('C09', 'jump', 'forward' if it['opnd'] in C.sets else 'backward')
            target = C.target(self, it, off)
            if o == 'Jump': return 'jump', [(t, stk, target)]
            v, s = self.pop(stk, o)
            t2 = t.fork()
            t.e('test', v, o == 'JumpIfTrue'); t2.e('test', v, o != 'JumpIfTrue')
            return 'jump', [(t, s, target), (t2, s, 'fall')]
        raise Bad('C10', 'no stack effect known for ' + o)
    def popn(self, stk, n, what):
        """pop n (symbolic) values: the top bundle or explicit ones"""
        c = lin_const(n); out = []
        while True:
            if n == I(0): break
            stk = self.norm(stk)
            if not stk: raise Bad('C01', '%s takes more operands than were pushed' % what)
            x = stk[-1]
            if x[0] == 'many':
                n2 = lin_add(n, x[1], -1)
                if lin_const(n2) is not None and lin_const(n2) < 0:
                    raise Bad('C01', '%s takes %s operands of %s pushed' % (what, self.E.pv(n)[:60], self.E.pv(x[1])[:60]))
                out.append(x); stk = stk[:-1]; n = n2
            elif x[0] == 'base': raise Bad('C01', '%s takes %s operand(s) this construct did not push' % (what, self.E.pv(n)[:60]))
            else:
                if lin_const(n) is None: raise Bad('C01', '%s takes %s operands, not the number pushed' % (what, self.E.pv(n)[:80]))
                out.append(x); stk = stk[:-1]; n = lin_add(n, I(1), -1)
        return tuple((('many', self.ctx.txt(x[1]), x[2]) if x[0] == 'many' else x) for x in reversed(out)), stk
    def const(self, v, o):
        c = self.D.const_of(v)
        if c is None: raise Bad('C21', 'the operand of %s is not an index returned for a constant: %s' % (o, self.E.pv(v)[:100]))
        return self.ctx.const_name(c)
    def slot(self, v):
        return self.ctx.slot_name(self, self.D.untrunc(v, 'u8')[0])
    def up(self, v):
        return self.ctx.up_name(self, self.D.untrunc(v, 'u8')[0])

def mark_heads(E, D, items, target):
    """mark items that are targets of backward jumps"""
    index = {it['pos']: i for i, it in enumerate(items)}
    for i, it in enumerate(items):
        if it.get('op') in ('Jump', 'JumpIfFalse', 'JumpIfTrue'):
            off = D.untrunc(it['args'][0], 'i16')[0]
            j = index.get(lin_add(it['end'], off))
            if j is not None and j <= i: items[j]['head'] = True

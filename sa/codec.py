"""C10: opcode conversion, operand readers, disassembler and assembler agree with each other."""
import traceback
import models, bytecode
from engine import *

IN = bytecode.INSTR
CUR = 'dice_bytecode::cursor::BytecodeCursor'
MNEMONIC = {}
for _n in ('PushNull PushUnit PushFalse PushTrue PushConst Pop Dup Swap CreateArray CreateObject CreateClosure InheritClass LoadModule LoadGlobal StoreGlobal LoadLocal StoreLocal AssignLocal '
           'LoadField StoreField AssignField LoadIndex StoreIndex AssignIndex LoadUpvalue StoreUpvalue AssignUpvalue CloseUpvalue LoadFieldToLocal StoreMethod LoadMethod Not Is RangeInclusive '
           'RangeExclusive Jump JumpIfFalse JumpIfTrue Call CallSuper Return AssertBool AssertTypeForLocal AssertTypeOrNullForLocal AssertTypeAndReturn AssertTypeOrNullAndReturn').split():
    MNEMONIC[''.join('_' + ch if ch.isupper() else ch for ch in _n).strip('_').upper()] = _n
MNEMONIC.update(PUSH_I0='PushI0', PUSH_I1='PushI1', PUSH_F0='PushF0', PUSH_F1='PushF1', NEG='Negate', MUL='Multiply', DIV='Divide', REM='Remainder', ADD='Add', SUB='Subtract', GT='GreaterThan',
                GTE='GreaterThanOrEqual', LT='LessThan', LTE='LessThanOrEqual', EQ='Equal', NEQ='NotEqual')
class Undecided(Exception): pass

def mod64(E, v):
    """v without casts that keep the value modulo 2^64"""
    r = I(v[1])
    for s, k in v[2]:
        t = E.tlist[s]
        r = lin_add(r, mod64(E, t[2]) if t[0] == 'trunc' and t[1] in ('u64', 'i64', 'usize', 'isize') else ('i', 0, ((s, 1),)), k)
    return r

class Codec:
    def __init__(self, P, res, lim):
        self.P = P; self.res = res; self.lim = lim; self.vs = P.variants(IN) or []
        self.endian = None; self.opcode = {}; self.layout = {}
    def where(self, root, fn):
        f = self.P.F.get(fn, {}); return (root, fn, '%s:%s' % (f.get('file', '?'), f.get('line', '?')))
    def engine(self):
        E = Engine(self.P, 3000000); models.install(E); E.hooks = [self.prim]; return E
    # num_traits' default methods go through the 64-bit conversion the derive macro wrote
    def prim(self, E, st, c, args, dty, d, w):
        fn = c.get('fn') or ''; meth = fn.split('::')[-1]
        if 'num_traits' in fn and 'FromPrimitive' in fn and meth.startswith('from_') and c.get('inst') not in self.P.F:
            for n in self.P.F:
                if 'FromPrimitive for ' + IN in n and n.endswith('::from_u64'): return E.call_body_rec(st, n, list(args), d)
        if 'num_traits' in fn and 'ToPrimitive' in fn and meth.startswith('to_') and c.get('inst') not in self.P.F:
            for n in self.P.F:
                if 'ToPrimitive for ' + IN in n and n.endswith('::to_u64'):
                    out = []
                    for o in E.call_body_rec(st, n, list(args), d):
                        if o[0] != 'ret' or o[2] is None or o[2][0] != 'adt' or o[2][2] == 0: out.append(o); continue
                        v = o[2][3][0]; r = INT_RANGE.get(meth[3:]); k = lin_const(v) if is_i(v) else None
                        if r is None or k is None: raise Undecided('a conversion of an unknown number')
                        out.append(('ret', o[1], ('adt', dty, 1, (v,)) if r[0] <= k <= r[1] else ('adt', dty, 0, ())))
                    return out
        if meth == 'from' and fn.startswith('core::convert::From') or meth == 'into' and fn.startswith('core::convert::Into'):
            if dty in INT_RANGE and args and is_i(args[0]): return [('ret', st, args[0])]
        return None
    def guard(self, name, fn, body, *props):
        try:
            with self.lim(): return body()
        except Exception:
            self.res.undecide(name, 'analysis: ' + traceback.format_exc(limit=-2)[-300:], *(props or ('C10',))); return None
    def clean(self, name, E, outs):
        notes = [n for n in E.notes if n not in ('widened', 'loop-sym-override')]
        if E.unknown or notes or not outs:
            self.res.undecide(name, 'unmodelled: ' + ', '.join(sorted(map(str, list(E.unknown) + notes)))[:200], 'C10'); return False
        return True
    # ---------------------------------------------------------------- opcodes
    def opcodes(self):
        to = next((n for n in self.P.F if n == '<%s as core::convert::Into<u8>>::into' % IN), None) or next((n for n in self.P.F if 'as core::convert::From<%s>>::from' % IN in n and n.startswith('<u8')), None)
        fr = next((n for n in self.P.F if n == '<%s as core::convert::From<u8>>::from' % IN), None)
        if not to or not fr or not self.vs: self.res.undecide('opcodes', 'no conversions between instructions and bytes', 'C10'); return
        w = self.where('opcodes', to); codes = {}
        def one(fn, arg):
            E = self.engine(); outs = E.call_body_rec(State(), fn, [arg], 0)
            if E.unknown: raise Undecided('calls outside the model: ' + ', '.join(E.unknown))
            if len(outs) != 1: raise Undecided('several outcomes of one conversion')
            return E, outs[0]
        def body():
            for i, v in enumerate(self.vs):
                E, o = one(to, ('adt', IN, i, ()))
                self.res.n('C10', 'opcodes')
                if o[0] == 'panic': self.res.bad('C10', 'encode ' + v['n'], 'the instruction %s has no opcode byte' % v['n'], w); self.res.bad('C11', 'encode ' + v['n'], 'emitting %s panics' % v['n'], w); continue
                k = lin_const(o[2]) if o[2] is not None and is_i(o[2]) else None
                if k is None: raise Undecided('the opcode of %s is not constant' % v['n'])
                if not 0 <= k <= 255: self.res.bad('C10', 'encode ' + v['n'], 'the opcode of %s does not fit a byte' % v['n'], w); continue
                if k in codes: self.res.bad('C10', 'shared ' + v['n'], '%s and %s have the same opcode %d' % (codes[k], v['n'], k), w)
                codes[k] = v['n']; self.opcode[v['n']] = k
                E, o = one(fr, I(k)); w2 = self.where('opcodes', fr)
                if o[0] == 'panic': self.res.bad('C10', 'decode ' + v['n'], 'the opcode %d of %s is not recognised when decoding' % (k, v['n']), w2); continue
                x = o[2]
                if x is None or x[0] != 'adt': raise Undecided('the instruction of byte %d is not constant' % k)
                if x[2] != i: self.res.bad('C10', 'decode ' + v['n'], 'the opcode %d of %s decodes to %s' % (k, v['n'], self.vs[x[2]]['n']), w2)
            self.res.decide('opcodes', 'C10', 'C11')
        self.guard('opcodes', to, body, 'C10', 'C11')
    # ---------------------------------------------------------------- the reader
    def cursor_hook(self, E, st, c, args, dty, d, w):
        fn = c.get('fn') or ''; inst = c.get('inst') or ''; meth = c.get('meth') or fn.split('::')[-1]; full = fn + ' ' + inst + ' ' + (c.get('def') or '')
        if 'io::cursor::Cursor' in full or 'bytes::buf' in full:
            loc = E.loc(st, args[0]) if args and E.isref(args[0]) else None
            cur = E.strip(st, args[0]) if args else None
            if meth == 'new' : return [('ret', st, ('adt', '~cur', 0, (I(0), E.freeze(st, args[0]))))]
            if cur is None or cur[0] != 'adt' or cur[1] != '~cur': return None
            pos = cur[3][0]
            if meth == 'position': return [('ret', st, pos)]
            if meth == 'set_position': E.write(st, loc[0], loc[1], ('adt', '~cur', 0, (args[1], cur[3][1]))); return [('ret', st, UNIT)]
            if meth == 'has_remaining':
                return [('ret', s, ('b', b)) for s, b in E.branch(st, E.cmp('Ge', E.mk(('remaining', pos), 'usize'), I(1)))]
            if meth == 'remaining': return [('ret', st, E.mk(('remaining', pos), 'usize'))]
            if meth.startswith('get_') or meth in ('advance',):
                m = meth[4:].split('_'); n = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8}.get(m[0])
                if n is None: return None
                e = 'le' if len(m) > 1 and m[1] in ('le', 'ne') else 'be'
                st.event(('read', pos, n, e)); E.write(st, loc[0], loc[1], ('adt', '~cur', 0, (lin_add(pos, I(n)), cur[3][1])))
                return [('ret', st, E.mk(('bytes', pos, n, e), dty))]
            if meth in ('chunk', 'get_ref', 'into_inner', 'get_mut', 'copy_to_slice', 'copy_to_bytes', 'read', 'read_exact', 'by_ref'): raise Undecided('reads the bytes by ' + meth)
        if meth == 'from' and IN in inst and 'From<u8>' in inst or meth == 'into' and IN in inst: return [('ret', st, ('s', E.sym(('instr', E.freeze(st, args[0])), IN)))]
        if meth in ('from_be_bytes', 'from_le_bytes', 'from_ne_bytes'):
            s = E.seqof(E.strip(st, args[0]))
            if s and len(s[1]) == 2 and all(x[0] == 'e' and is_i(x[1]) and len(x[1][2]) == 1 and x[1][1] == 0 and E.tlist[x[1][2][0][0]][0] == 'bytes' for x in s[1]):
                t = [E.tlist[x[1][2][0][0]] for x in s[1]]
                if t[0][2] == t[1][2] == 1 and lin_const(lin_add(t[1][1], t[0][1], -1)) == 1: return [('ret', st, E.mk(('bytes', t[0][1], 2, 'be' if 'be' in meth else 'le'), dty))]
            raise Undecided('builds a number from bytes')
        if meth in ('wrapping_add', 'wrapping_add_signed', 'saturating_add_signed', 'checked_add_signed') and fn.startswith('core::num') and len(args) == 2 and all(x is not None and is_i(x) for x in args):
            a, b = args
            if meth == 'checked_add_signed': return [('ret', st, ('adt', dty, 1, (lin_add(a, b),)))]
            return [('ret', st, lin_add(a, b))]
        return None
    def cursor_state(self, E, fn):
        f = self.P.F[fn]; ty = E.deref_ty(f['locals'][1]); st = State(); v = []; pos = ('i', 0, ((E.sym(('p0',), 'u64'), 1),))
        for nm, ft in self.P.T[ty]['variants'][0]['f']:
            v.append(('adt', '~cur', 0, (pos, ('s', E.sym(('data',), '&[u8]')))) if 'Cursor<' in ft else E.mk(('init', nm), ft))
        st.mem[('R', 'cur')] = ('adt', ty, 0, tuple(v)); E.cty = ty
        return st, pos
    def isbytes(self, E, v):
        return is_i(v) and all(E.tlist[s][0] == 'bytes' for s, c in v[2])
    def bits(self, E, v, pos, env):
        """the value of an expression over the next two bytes, modulo 2^16; None if it is built in another way"""
        if not is_i(v): return None
        n = v[1]
        for s, c in v[2]:
            t = E.tlist[s]
            if t[0] == 'bytes':
                k = lin_const(lin_add(t[1], pos, -1))
                if k is None or k < 0 or k + t[2] > 2: return None
                x = int.from_bytes(bytes(env[k:k + t[2]]), 'big' if t[3] == 'be' else 'little', signed=E.symty[s][0] == 'i')
            elif t[0] == 'trunc' and t[1] in ('u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64'):
                x = self.bits(E, t[2], pos, env)
                if x is None: return None
                w = int(t[1][1:]); x &= (1 << min(w, 16)) - 1
                if t[1][0] == 'i' and w < 16 and x >> (w - 1): x -= 1 << w
            elif t[0] == 'op' and t[1] in ('BitAnd', 'BitOr', 'BitXor', 'Shl'):
                a = self.bits(E, t[2], pos, env); b = self.bits(E, t[3], pos, env)
                if a is None or b is None: return None
                x = a & b if t[1] == 'BitAnd' else a | b if t[1] == 'BitOr' else a ^ b if t[1] == 'BitXor' else a << (b & 63)
            else: return None
            n += c * x
        return n & 0xffff
    def table(self, E, v, pos):
        r = {'be': True, 'le': True}
        for n in range(65536):
            env = (n >> 8, n & 255); x = self.bits(E, v, pos, env)
            if x is None: return None
            if x != n: r['be'] = False
            if x != (env[1] << 8 | env[0]): r['le'] = False
            if not r['be'] and not r['le']: break
        return r
    def curpos(self, E, st):
        for x in st.mem[('R', 'cur')][3]:
            if x[0] == 'adt' and x[1] == '~cur': return x[3][0]
    def reader(self):
        fns = {n.split('::')[-1]: n for n in self.P.F if n.startswith(CUR + '::') and '#' not in n and '{' not in n}
        for name in ('read_instruction', 'read_u8', 'read_offset', 'offset_position', 'set_position', 'position'):
            fn = fns.get(name)
            if not fn: continue
            root = 'reader ' + name; w = self.where(root, fn)
            def body():
                E = self.engine(); E.hooks.insert(0, self.cursor_hook); st, pos = self.cursor_state(E, fn)
                f = self.P.F[fn]
                args = [('ref', ('R', 'cur'), ())] + [E.mk(('arg', i), f['locals'][i]) for i in range(2, f['argc'] + 1)]
                return E, E.call_body_rec(st, fn, args, 0), pos, args
            r = self.guard(root, fn, body)
            if r is None: continue
            E, outs, pos, args = r
            if not self.clean(root, E, outs): continue
            self.res.decide(root, 'C10')
            for o in outs:
                self.res.n('C10', 'paths of the reader')
                if o[0] == 'panic': self.res.undecide(root, 'can panic: %s' % str(o[2])[:100], 'C10'); continue
                st = o[1]; v = o[2]; now = self.curpos(E, st)
                b1 = E.terms.get(('bytes', pos, 1, 'be'))
                if name == 'read_instruction':
                    if v is None or v[0] != 'adt': self.res.undecide(root, 'an unknown result', 'C10'); break
                    rem = E.terms.get(('remaining', pos)); lo, hi = E.bounds(st, ('i', 0, ((rem, 1),))) if rem is not None else (None, None)
                    if rem is None: self.res.undecide(root, 'the end is found in an unknown way', 'C10'); break
                    if v[2] == 0 and hi != 0: self.res.bad('C10', 'end', 'the reader ends although there is a further instruction', w)
                    if v[2] == 1 and not lo: self.res.bad('C10', 'end', 'the reader reads on past the end', w)
                    if v[2] == 0:
                        if now != pos: self.res.bad('C10', 'position', 'the reader moves although there is no further instruction', w)
                        continue
                    if lin_const(lin_add(now, pos, -1)) != 1: self.res.bad('C10', 'opcode width', 'an opcode is read as %s bytes' % E.pv(lin_add(now, pos, -1))[:30], w)
                    x = E.freeze(st, v[3][0]); lf = fns.get('last_instruction_offset')
                    for o2 in E.call_body_rec(st.fork(), lf, [('ref', ('R', 'cur'), ())], 0) if lf else ():
                        y = o2[2]
                        if o2[0] == 'ret' and y is not None and is_i(y) and y != pos and all(E.tlist[s][0] in ('p0', 'init') for s, _ in y[2]): self.res.bad('C10', 'last position', 'the position kept for the last instruction is not the one it was read at', self.where(root, lf))
                    if x[0] == 's' and E.tlist[x[1]][0] == 'instr' and b1 is not None and E.tlist[x[1]][1] != ('i', 0, ((b1, 1),)): self.res.bad('C10', 'opcode', 'the instruction read is not that of the next byte', w)
                    continue
                if name == 'read_u8':
                    if lin_const(lin_add(now, pos, -1)) == 1 and not self.isbytes(E, v): self.res.undecide(root, 'the operand is %s' % E.pv(v)[:80], 'C10'); break
                    if lin_const(lin_add(now, pos, -1)) != 1 or b1 is None or v != ('i', 0, ((b1, 1),)): self.res.bad('C10', 'operand width', 'reading a one-byte operand does not yield the next byte and move past it', w)
                if name == 'read_offset':
                    ok = [e for e in ('be', 'le') if E.terms.get(('bytes', pos, 2, e)) is not None and v == ('i', 0, ((E.terms[('bytes', pos, 2, e)], 1),))]
                    if not ok and lin_const(lin_add(now, pos, -1)) == 2:
                        tab = self.table(E, v, pos)
                        if tab is not None:
                            good = [e for e in ('be', 'le') if tab[e]]
                            if good: self.endian = good[0]
                            else: self.res.bad('C10', 'offset value', 'the jump offset read is not the number its two bytes form: for some bytes %s differs' % E.pv(v)[:60], w)
                            continue
                    if not ok and not self.isbytes(E, v): self.res.undecide(root, 'the offset is %s' % E.pv(v)[:80], 'C10'); break
                    if lin_const(lin_add(now, pos, -1)) != 2 or not ok: self.res.bad('C10', 'offset width', 'reading a jump offset does not yield the next two bytes and move past them', w)
                    else: self.endian = ok[0]
                if name == 'position' and v != pos: self.res.bad('C10', 'position', 'the position reported is not that of the reader', w)
                if name == 'set_position' and now != args[1]: self.res.bad('C10', 'position', 'the reader is moved to another place than asked for', w)
                if name == 'offset_position':
                    want = lin_add(pos, args[1])
                    d = lin_add(mod64(E, now), want, -1)
                    if d == I(0): continue
                    if lin_const(d) is not None or all(E.tlist[s][0] in ('p0', 'arg', 'trunc') for s, _ in d[2]): [self.res.bad(p, 'offset base', 'a jump is not taken relative to the position after its offset: off by %s' % E.pv(d)[:60], w) for p in ('C10', 'C02')]
                    else: self.res.undecide(root, 'the new position is %s' % E.pv(now)[:80], 'C10')
        return fns
    # ---------------------------------------------------------------- the disassembler
    def disassembler(self, fns):
        fn = next((n for n in self.P.F if n == '<dice_bytecode::Bytecode as core::fmt::Display>::fmt'), None)
        if not fn: self.res.undecide('disassembler', 'there is none', 'C10'); return
        w = self.where('disassembler', fn); offs = []
        names = {fns.get(x): x for x in fns}
        def at(E, p): return I(0) if p == (0, 0) else E.mk(('offset', p), 'u64')
        def hook(E, st, c, args, dty, d, wh):
            cf = c.get('fn') or ''; inst = c.get('inst') or ''; meth = c.get('meth') or cf.split('::')[-1]
            if inst == fn and args: st.event(('nested', E.freeze(st, args[0]))); return [('ret', st, ('adt', dty, 0, (UNIT,)))]
            if inst in names:
                m = names[inst]
                if m == 'read_instruction':
                    n = st.aux.get('ri', 0)
                    st.aux['ipos'] = (n, st.aux.get('rd', 0))
                    if n >= 1:
                        b = st.fork(); st.event(('next',))
                        if n > 1: return [('ret', st, ('adt', dty, 0, ()))]
                        b.aux['ri'] = n + 1
                        return [('ret', st, ('adt', dty, 0, ())), ('ret', b, ('adt', dty, 1, (('s', E.sym(('op', 1), IN)),)))]
                    b = st.fork(); st.aux['ri'] = n + 1
                    return [('ret', st, ('adt', dty, 1, (('s', E.sym(('op',), IN)),))), ('ret', b, ('adt', dty, 0, ()))]
                if m in ('read_u8', 'read_offset'):
                    n = st.aux.get('rd', 0); st.aux['rd'] = n + 1; st.event(('read', 1 if m == 'read_u8' else 'j')); return [('ret', st, E.mk(('rd', n), dty))]
                if m == 'position': return [('ret', st, at(E, (st.aux.get('ri', 0), st.aux.get('rd', 0))))]
                if m == 'last_instruction_offset': return [('ret', st, at(E, st.aux.get('ipos', (0, 0))))]
                if m in ('remaining',): return [('ret', st, E.fresh(st, m, dty))]
                if m == 'new': return [('ret', st, ('s', E.sym(('cursor',), dty)))]
                raise Undecided('moves the reader by ' + m)
            if inst == 'dice_bytecode::Bytecode::cursor': return [('ret', st, ('s', E.sym(('cursor',), dty)))]
            if inst.startswith('dice_bytecode::Bytecode::') and meth == 'upvalue_count': return [('ret', st, E.mk(('captures', E.freeze(st, args[0])), dty))]
            if cf.startswith('core::ops::index::Index') and args and len(args) == 2:
                return [('ret', st, E.mk(('at', E.freeze(st, args[0]), E.freeze(st, args[1])), dty))]
            it = E.strip(st, args[0]) if args else None
            if it is not None and it[0] == 'adt' and 'ops::range::Range' in it[1] and meth in ('into_iter', 'next') and len(it[3]) >= 2:
                lo, hi = it[3][0], it[3][1]
                if meth == 'into_iter': return [('ret', st, it)]
                loc = E.loc(st, args[0]); k = st.aux.get('rg', 0); incl = 'Inclusive' in it[1]; b = st.fork()
                b.event(('rounds', k, E.freeze(b, lin_add(hi, I(1)) if incl else hi), E.freeze(b, lo)))
                out = [('ret', b, ('adt', dty, 0, ()))]
                if k < 2:
                    st.aux['rg'] = k + 1
                    E.write(st, loc[0], loc[1], ('adt', it[1], it[2], (lin_add(lo, I(1)),) + it[3][1:])); out.append(('ret', st, ('adt', dty, 1, (lo,))))
                return out
            if it is not None and meth in ('iter', 'into_iter') and 'slice' in cf + inst or meth == 'next' and 'slice::iter' in inst: 
                if meth == 'next':
                    st.event(('next',))
                    if st.aux.get('cs') or '&' not in dty: return [('ret', st, ('adt', dty, 0, ()))]
                    b = st.fork(); b.aux['cs'] = 1
                    return [('ret', st, ('adt', dty, 0, ())), ('ret', b, ('adt', dty, 1, (E.mk(('constant',), dty[dty.index('&'):dty.rindex('>')]),)))]
                return [('ret', st, E.fresh(st, 'iter', dty))]
            if 'fmt::rt::Argument' in cf and meth.startswith('new_') and args and E.isref(args[0]) and not st.aux.get('cs'):
                x = E.freeze(st, E.strip(st, args[0]))
                if st.aux.get('ri') and is_i(x) and st.aux.get('shown') != st.aux['ri']:
                    st.aux['shown'] = st.aux['ri']; k = [E.tlist[s] for s, c in x[2]]; want = at(E, st.aux['ipos'])
                    if all(y[0] == 'offset' for y in k): offs.append((x == want, st.aux['ri']))
                    if st.aux['ri'] > 1: return []
                st.event(('show', E.freeze(st, E.strip(st, args[0]))))
            if meth in ('write_str', 'pad') and len(args) == 2: st.event(('show', E.freeze(st, E.strip(st, args[1]))))
            if 'core::fmt' in cf or cf.startswith('alloc::fmt') or meth in ('write_fmt', 'write_str', 'fmt', 'must_use'):
                if dty.startswith('core::result::Result<()'): return [('ret', st, ('adt', dty, 0, (UNIT,)))]
                return [('ret', st, E.fresh(st, 'text', dty))]
            return None
        def body():
            E = self.engine(); E.hooks.insert(0, hook); E.generic_rounds = 3; E.mergelimit = 10**9
            f = self.P.F[fn]; st = State()
            return E, E.call_body_rec(st, fn, [E.mk(('arg', i), f['locals'][i]) for i in range(1, f['argc'] + 1)], 0)
        r = self.guard('disassembler', fn, body)
        if r is None: return
        E, outs = r
        if not self.clean('disassembler', E, outs): return
        op = E.terms.get(('op',)); seen = {}
        self.res.n('C10', 'listed positions', len(offs))
        if any(not x for x, n in offs): self.res.bad('C10', 'positions', 'the position listed with an instruction is not the one it is read at', w)
        if op is None: self.res.undecide('disassembler', 'reads no instruction', 'C10'); return
        for o in outs:
            if o[0] == 'panic': continue
            st = o[1]; ev = list(st.events())
            for e in ev:
                if e[0] == 'nested' and E.pv(e[1]).replace('*', '') == 'arg(1)': self.res.bad('C10', 'nested', 'the program lists itself in place of its functions, without end', w)
            if st.aux.get('ri') != 1: continue
            cut = next((i for i, e in enumerate(ev) if e == ('next',)), None)
            if cut is None: continue
            x = st.facts.get(('var', op)); vs = [x] if isinstance(x, int) else [i for i in range(len(self.vs)) if i not in (x or ())]
            reads = tuple(e for e in ev[:cut] if e[0] in ('read', 'rounds')); self.shown(E, st, ev[:cut], [self.vs[i]['n'] for i in vs], w)
            for i in vs: seen.setdefault(self.vs[i]['n'], []).append((st, reads))
        for n in [v['n'] for v in self.vs]:
            if n not in seen: self.res.bad('C10', 'missing ' + n, 'the disassembler cannot go past %s' % n, w); continue
            lays = set()
            for st, reads in seen[n]:
                ks = [e for e in reads if e[0] == 'rounds']; rd = [e[1] for e in reads if e[0] == 'read']
                if not ks:
                    c = next((('i', 0, ((x, 1),)) for t, x in list(E.terms.items()) if type(t) is tuple and t[0] == 'captures'), None) if n == 'CreateClosure' else None
                    lo, hi = E.bounds(st, c) if c is not None else (None, None)
                    if lo is not None and lo == hi: lays.add(('u', 1, lo, len(rd) - 1, True, 0)); continue
                    lays.add(tuple(rd)); continue
                hi = ks[0][2]; lo = ks[0][3]; k = ks[0][1]
                caps = [E.tlist[s] for s, c in (hi[2] if hi and is_i(hi) else ()) if type(E.tlist[s]) is tuple and E.tlist[s][0] == 'captures']
                own = [t for t in E.terms if type(t) is tuple and t[0] == 'captures' and E.pv(t[1]) == 'arg(1)']
                if own and (not caps or caps[0] in own):
                    self.res.bad('C10', 'captures ' + n, 'the disassembler reads as many pairs after %s as the enclosing program captures, not as the function it creates' % n, w); lays.add(None); continue
                cap = bool(caps)
                if not cap: raise Undecided('a loop over an unknown count')
                pre = [e[1] for e in reads[:reads.index(ks[0])] if e[0] == 'read']; exact = lin_const(lin_add(hi, ('i', 0, hi[2]), -1)) == 0 and hi[2][0][1] == 1
                lays.add(('u', 1, k, len(pre) - 1, exact, lin_const(lin_add(lo, I(k), -1))))
            self.res.n('C10', 'instructions disassembled')
            if None in lays: self.layout[n] = None; continue
            if any(l and l[0] == 'u' for l in lays):
                good = all(l[3] == 2 * l[2] and l[4] and l[5] == 0 if l and l[0] == 'u' else l == (1,) for l in lays)
                if not good: self.res.bad('C10', 'operands ' + n, 'the disassembler does not read an index and two bytes per captured variable after %s' % n, w)
                self.layout[n] = (1, 'u') if good else None
            elif len(lays) > 1: self.res.undecide('disassembler of ' + n, 'operands read differ between paths', 'C10'); continue
            else: self.layout[n] = lays.pop()
        self.res.decide('disassembler', 'C10')
        for n, l in sorted(self.layout.items()):
            want = bytecode.LAYOUT.get(n, ())
            if l is not None and l != want:
                self.res.bad('C10', 'operands ' + n, 'after %s the disassembler reads %s, the compiler writes %s' % (n, self.words(l), self.words(want)), w)
    def shown(self, E, st, ev, names, w):
        """every operand read is listed, in the order read"""
        nrd = sum(1 for e in ev if e[0] == 'read'); got = []
        for e in ev:
            if e[0] != 'show' or not is_i(e[1]): continue
            t = mod64(E, e[1])[2]; k = [E.tlist[s] for s, c in t]
            if len(k) == 1 and k[0][0] == 'rd': got.append(k[0][1])
        if any(e[0] == 'rounds' for e in ev) or 'CreateClosure' in names:
            # kinds are listed as words: what is read is shown or tells apart what is shown
            used = set(); done = set()
            def walk(x):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] in ('s', 'var') and isinstance(x[1], int): sym(x[1])
                    elif x and x[0] in ('i', 'rng') and isinstance(x[-1], tuple): [sym(y[0]) for y in x[-1] if isinstance(y, tuple) and y and isinstance(y[0], int)]
                    for y in x: walk(y)
            def sym(s):
                if s in done: return
                done.add(s); k = E.tlist[s]
                if k[0] == 'rd': used.add(k[1])
                else: walk(k)
            for e in ev:
                if e[0] == 'show': walk(e[1])
            for k in st.facts: walk(k)
            if len(used) < nrd:
                for n in names[:1]: self.res.bad('C10', 'listing ' + n, 'the listing of %s leaves out an operand it reads' % n, w)
            return
        first = next((i for i, e in enumerate(ev) if e[0] == 'read'), len(ev))
        other = any(e[0] == 'show' and not is_i(e[1]) and e[1][0] != 'str' and E.freeze(st, e[1]) != ('s', E.terms.get(('op',))) for e in ev[first:])
        if got != list(range(nrd)) and (len(got) > nrd or got != sorted(set(got)) or not other):
            for n in names[:1]: self.res.bad('C10', 'listing ' + n, 'the listing of %s does not show the operands read, each once and in order' % n, w)
    def mnemonics(self):
        fn = next((n for n in self.P.F if n == '<%s as core::fmt::Display>::fmt' % IN), None)
        if not fn: return
        w = self.where('mnemonics', fn); got = {}; nums = {}
        def body():
            for i, v in enumerate(self.vs):
                E = self.engine(); E.hooks.insert(0, self.text_hook); E.generic_rounds = 3; st = State()
                st.mem[('R', 'i')] = ('adt', IN, i, ())
                outs = E.call_body_rec(st, fn, [('ref', ('R', 'i'), ()), E.mk(('f',), self.P.F[fn]['locals'][2])], 0)
                if E.unknown: raise Undecided('unmodelled: ' + ', '.join(sorted(map(str, E.unknown)))[:200])
                ts = set()
                for o in outs:
                    if o[0] == 'ret':
                        for e in o[1].events():
                            if e[0] == 'show' and is_i(e[1]) and lin_const(e[1]) is not None: nums.setdefault(v['n'], lin_const(e[1]))
                        ts.add(tuple(e[1] for e in o[1].events() if e[0] == 'show' and e[1][0] == 'str'))
                if len(ts) != 1 or len(list(ts)[0]) != 1: raise Undecided('the name of %s is not one constant' % v['n'])
                got[v['n']] = list(ts)[0][0]
            self.res.decide('mnemonics', 'C10'); by = {}
            for n, t in got.items():
                self.res.n('C10', 'names of instructions'); x = str(t[1]) if len(t) > 1 else str(t)
                if x in by: self.res.bad('C10', 'name ' + n, '%s and %s are listed under one name, %s' % (by[x], n, x), w)
                by[x] = n
            for n, k in nums.items():
                if n in self.opcode and k != self.opcode[n]: self.res.bad('C10', 'number ' + n, '%s is listed with the opcode %d, its opcode is %d' % (n, k, self.opcode[n]), w)
            for n, t in got.items():
                x = str(t[1]); own = MNEMONIC.get(x)
                if own is not None and own != n: self.res.bad('C10', 'name ' + n, '%s is listed as %s' % (n, x), w)
        self.guard('mnemonics', fn, body)
    def spellings(self):
        """an operator or token is displayed as the source spells it"""
        from lexer import SPELL
        from grammar import OVERLOAD
        for ty, ref in (('OverloadedOperator', {v: SPELL[k] for k, v in OVERLOAD.items()}), ('TokenKind', SPELL)):
            fn = next((n for n in self.P.F if n.startswith('<dice_syntax::') and n.endswith('::%s as core::fmt::Display>::fmt' % ty)), None)
            if not fn: continue
            full = fn[1:].split(' as ')[0]; vs = self.P.variants(full) or []; root = 'displayed ' + ty; w = self.where(root, fn)
            def body():
                for i, v in enumerate(vs):
                    if v['n'] not in ref: continue
                    E = self.engine(); E.hooks.insert(0, self.text_hook); E.generic_rounds = 3; st = State()
                    st.mem[('R', 'i')] = ('adt', full, i, ())
                    outs = E.call_body_rec(st, fn, [('ref', ('R', 'i'), ()), E.mk(('f',), self.P.F[fn]['locals'][2])], 0)
                    ts = set()
                    for o in outs:
                        if o[0] == 'ret': ts.add(tuple(e[1] for e in o[1].events() if e[0] == 'show'))
                    ts = list(ts)
                    if E.unknown or len(ts) != 1 or len(ts[0]) != 1 or ts[0][0][0] != 'str': raise Undecided('the text of %s is not one constant' % v['n'])
                    self.res.n('C05', 'displayed spellings'); x = str(ts[0][0][1])
                    if x != ref[v['n']] and x in ref.values():
                        self.res.bad('C05', 'displayed %s::%s' % (ty, v['n']), '%s::%s is displayed as %s, the spelling of another one' % (ty, v['n'], x), w)
                self.res.decide(root, 'C05')
            self.guard(root, fn, body, 'C05')
    def text_hook(self, E, st, c, args, dty, d, wh):
        cf = c.get('fn') or ''; meth = c.get('meth') or cf.split('::')[-1]
        if 'fmt::rt::Argument' in cf and meth.startswith('new_') and args and E.isref(args[0]): st.event(('show', E.freeze(st, E.strip(st, args[0]))))
        if meth in ('write_str', 'pad') and len(args) == 2: st.event(('show', E.freeze(st, E.strip(st, args[1]))))
        if 'core::fmt::Arguments' in cf:
            if meth == 'from_str' and args: st.event(('show', E.freeze(st, E.strip(st, args[0]))))
            elif meth != 'new' or '::<2, 1>' not in (c.get('inst') or ''): st.event(('show', ('template',)))
        if 'core::fmt' in cf or cf.startswith('alloc::fmt') or meth in ('write_fmt', 'write_str', 'must_use', 'pad'):
            if dty.startswith('core::result::Result<()'): return [('ret', st, ('adt', dty, 0, (UNIT,)))]
            return [('ret', st, E.fresh(st, 'text', dty))]
        return None
    # ---------------------------------------------------------------- what a program reports about itself
    def accessors(self):
        INNER = 'dice_bytecode::BytecodeInner'; B = 'dice_bytecode::Bytecode'
        if INNER not in self.P.T: self.res.undecide('accessors', 'no BytecodeInner', 'C10'); return
        fields = self.P.T[INNER]['variants'][0]['f']
        def build(E, st):
            return E.mk(('bc',), B), {nm: None for nm, t in fields}
        for name in ('slot_count', 'upvalue_count', 'constants', 'cursor'):
            fn = B + '::' + name
            if fn not in self.P.F: continue
            root = 'accessor ' + name; w = self.where(root, fn)
            def body():
                E = self.engine(); E.hooks.insert(0, self.cursor_hook); st = State()
                inner = ('adt', INNER, 0, tuple(E.mk(('init', nm), t) for nm, t in fields))
                bt = self.P.T[B]['variants'][0]['f']
                st.mem[('R', 'inner')] = inner
                st.mem[('R', 'bc')] = ('adt', B, 0, (inner,) if len(bt) == 1 else ())
                outs = E.call_body_rec(st, fn, [('ref', ('R', 'bc'), ())], 0)
                return E, outs, {nm: inner[3][i] for i, (nm, t) in enumerate(fields)}
            r = self.guard(root, fn, body)
            if r is None: continue
            E, outs, want = r
            if not self.clean(root, E, outs): continue
            self.res.decide(root, 'C10')
            for o in outs:
                if o[0] != 'ret': continue
                self.res.n('C10', 'accessors'); v = E.freeze(o[1], o[2])
                f = {'cursor': 'data'}.get(name, name)
                if name == 'cursor':
                    cur = [x for x in v[3] if x[0] == 'adt' and x[1] == '~cur'] if v[0] == 'adt' else []
                    if not cur: self.res.undecide(root, 'an unknown reader', 'C10'); continue
                    if cur[0][3][0] != I(0): self.res.bad('C10', root, 'reading does not begin at the first byte', w)
                    v = cur[0][3][1]
                v = self.same(E, v); x = self.same(E, want[f])
                if v == x: continue
                if v in [self.same(E, y) for y in want.values()] or v[0] in ('i', 'seq') and all(E.tlist[s][0] == 'init' for s, _ in (v[2] if v[0] == 'i' else ())): self.res.bad('C10', root, '%s does not report the %s stored' % (name, f), w)
                else: self.res.undecide(root, 'yields %s' % E.pv(o[2])[:80], 'C10')
        fn = B + '::new'
        if fn in self.P.F:
            root = 'accessor new'; f = self.P.F[fn]; w = self.where(root, fn); names = f.get('names') or {}
            def body():
                E = self.engine(); st = State(); args = [E.mk(('arg', i), f['locals'][i]) for i in range(1, f['argc'] + 1)]
                return E, E.call_body_rec(st, fn, args, 0), args
            r = self.guard(root, fn, body)
            if r and self.clean(root, r[0], r[1]):
                E, outs, args = r; parts = None
                for o in outs:
                    parts = bytecode.Decoder(E).fn_parts(E.freeze(o[1], o[2])) if o[0] == 'ret' else None
                    if parts is None: self.res.undecide(root, 'an unknown program', 'C10'); break
                    counts = [a for i, a in enumerate(args) if f['locals'][i + 1] == 'usize']
                    if len(counts) == 2 and (parts.get('slot_count') not in counts or parts.get('upvalue_count') not in counts or parts['slot_count'] == parts['upvalue_count']):
                        self.res.bad('C10', root, 'a program does not keep the slot and capture counts it is given', w)
                else: self.res.decide(root, 'C10')
    def same(self, E, v):
        v = E.strip(State(), v) if v[0] in ('ref', 'box') else v
        while v[0] in ('box',): v = v[1]
        while v[0] == 's' and E.tlist[v[1]][0] == '*' : v = ('s', E.tlist[v[1]][1]) if not isinstance(E.tlist[v[1]][1], tuple) else E.tlist[v[1]][1]
        s = E.seqof(v)
        if s and len(s[1]) == 1 and s[1][0][0] == 'sym':
            x = s[1][0][1]
            while E.tlist[x][0] in ('f', '*') and isinstance(E.tlist[x][1], int): x = E.tlist[x][1]
            return ('seqsym', x)
        return v
    def run(self, codes):
        self.opcodes(); fns = self.reader()
        if self.endian: bytecode.ENDIAN = self.endian
        self.guard('disassembler', None, lambda: self.disassembler(fns)); self.mnemonics(); self.accessors(); self.spellings()
    def words(self, l):
        return ', '.join('a two-byte offset' if x == 'j' else 'two bytes per captured variable' if x == 'u' else 'a byte' for x in l) or 'no operand'

def check(P, res, codes, lim):
    Codec(P, res, lim).run(codes)

"""Transfer functions for the standard library calls the analysed crates make."""
import json, re
from engine import INT_RANGE, I, UNIT, lin_add, lin_const, lin_scale, is_i

def ends(*suf):
    def p(c):
        d = c.get('def') or ''; f = c.get('fn') or ''
        return any(d.endswith(s) or f.endswith(s) for s in suf)
    return p
def has(*sub):
    def p(c):
        d = c.get('def') or ''
        return any(s in d for s in sub)
    return p

MODELS = []
def model(*names, pred=None):
    def w(f):
        MODELS.append((pred or ends(*names), f)); return f
    return w

def ret(st, v): return [('ret', st, v)]
def some(ty, v): return ('adt', ty, 1, (v,))
def none(ty): return ('adt', ty, 0, ())

def vtarget(E, st, v):
    """(cell, path, seqview) of a (reference to a) Vec/slice/array/VecDeque, through several references"""
    loc = None; n = 0
    while E.isref(v) and n < 12:
        loc = E.loc(st, v); v = E.read(st, *loc); n += 1
    if v is not None and v[0] == 'slice':
        return loc, slice_view(E, st, v)
    if v is not None and v[0] == 'adt' and v[3] and v[3][0] is not None and v[3][0][0] == 'seq' and len(v[3]) == 1:
        return (loc[0], loc[1] + (0,)) if loc else None, v[3][0]
    return loc, E.seqof(v)
def slice_view(E, st, v):
    base = E.seqof(v[1])
    if base is None: return None
    lo = v[2]; segs = list(base[1]); pre = I(0)
    while segs:
        L = E.slen(segs[0]); d = lin_add(lin_add(lo, pre, -1), L, -1)
        if lin_const(d) is not None and lin_const(d) >= 0: pre = lin_add(pre, L); segs.pop(0); continue
        break
    if lin_const(lin_add(lo, pre, -1)) == 0: return ('seq', tuple(segs))
    if segs and segs[0][0] == 'sym':
        k = lin_add(lo, pre, -1)
        return ('seq', (('sub', segs[0], k),) + tuple(segs[1:]))
    return ('seq', (('sub', ('seq', tuple(segs)), lin_add(lo, pre, -1)),))
def newcell(E, st, v):
    st.ctr += 1; c = ('B', st.ctr); st.mem[c] = v; return c

# ------------------------------------------------------------------ iterators
def mkit(E, st, v, kind):
    """iterator over a sequence value/reference"""
    if kind == 'val':
        v2 = E.strip(st, v)
        if v2 is not None and v2[0] == 'it': return v2
        if v2 is not None and v2[0] == 'adt' and ('Range<' in v2[1] or v2[1].endswith('Range')): return ('it', 'range', v2[3][0], v2[3][1], False)
        if v2 is not None and v2[0] == 'adt' and 'option::Option' in v2[1]:
            v2 = ('seq', (('e', v2[3][0]),) if v2[2] == 1 else ())
        sv = E.seqof(v2)
        if sv is None: return None
        c = newcell(E, st, sv)
        return ('it', 'base', c, (), tuple((j, 0) for j in range(len(sv[1]))), False, 'val')
    loc, sv = vtarget(E, st, v)
    if sv is None: return None
    if loc is None:
        c = newcell(E, st, sv); loc = (c, ())
    t = E.read(st, *loc)
    if t is not None and t[0] == 'slice':
        c = newcell(E, st, sv); loc = (c, ())
    return ('it', 'base', loc[0], loc[1], tuple((j, 0) for j in range(len(sv[1]))), False, kind)

def revit(it):
    k = it[1]
    if k == 'base':
        if any(len(x) > 2 for x in it[4]): return ('it', 'rev?', it)
        return it[:4] + (tuple(reversed(it[4])), not it[5]) + it[6:]
    if k == 'range': return it[:4] + (not it[4],)
    if k in ('map', 'filter', 'flat', 'filtermap', 'inspect'): return ('it', k, revit(it[2])) + it[3:]
    if k == 'chain': return ('it', 'chain', revit(it[3]), revit(it[2]))
    if k in ('copied',): return ('it', k, revit(it[2]))
    return ('it', 'rev?', it)

def elem_of(E, st, it, j, rel):
    """element value for iterator base"""
    if it[6] == 'val':
        sv = E.seqof(E.read(st, it[2], it[3])); return E.elem(st, sv, j, rel)
    return ('ref', it[2], it[3] + (('seg', j, rel),))

def next_it(E, st, it, d):
    """-> [(kind, st, value|None, newit)]  kind ret|panic; value None = exhausted"""
    k = it[1]
    if k == 'base':
        if not it[4]: return [('ret', st, None, it)]
        (j, off) = it[4][0][:2]; lim = it[4][0][2] if len(it[4][0]) > 2 else None
        sv = E.seqof(E.read(st, it[2], it[3]))
        if sv is None or j >= len(sv[1]): return [('ret', st, None, it)]
        s = sv[1][j]
        if s[0] == 'e':
            st.aux['defnext'] = st.aux.get('defnext', 0) + 1
            nit = it[:4] + (it[4][1:],) + it[5:]
            return [('ret', st, (elem_of(E, st, it, j, I(0)),), nit)]
        full = lin_add(E.slen(s), I(-off)); N = full if lim is None else lim
        if lin_const(N) == 0: return next_it(E, st, it[:4] + (it[4][1:],) + it[5:], d)
        key = E.itkey(it); g = st.gen.get(key)
        base = I(off) if not it[5] else I(0)
        def at(K):
            return lin_add(base, K) if not it[5] else lin_add(lin_add(full, I(-1)), K, -1)
        if g is not None and g[0] == 'active':
            E.keycount[key] = N
            st.gen[key] = ('used', g[1])
            return [('ret', st, (elem_of(E, st, it, j, at(g[1])),), it)]
        if g is not None and g[0] == 'used':
            E.note('iterator-advanced-twice', str(key)[:80])
            return [('ret', st, None, it)]
        return sym_next(E, st, it, key, N, lambda s2: elem_of(E, s2, it, j, at(I(0))),
                        it[:4] + (it[4][1:],) + it[5:], it[:4] + (((j, off + 1) + ((lin_add(lim, I(-1)),) if lim is not None else ()),) + it[4][1:],) + it[5:], d)
    if k == 'range':
        lo, hi, rv = it[2], it[3], it[4]
        N = lin_add(hi, lo, -1)
        c = lin_const(N)
        if c is not None and c <= 0: return [('ret', st, None, it)]
        if c is not None and c < 64:
            st.aux['defnext'] = st.aux.get('defnext', 0) + 1
            if not rv: return [('ret', st, (lo,), ('it', 'range', lin_add(lo, I(1)), hi, rv))]
            return [('ret', st, (lin_add(hi, I(-1)),), ('it', 'range', lo, lin_add(hi, I(-1)), rv))]
        key = E.itkey(it); g = st.gen.get(key)
        at = lambda K: lin_add(lo, K) if not rv else lin_add(lin_add(hi, I(-1)), K, -1)
        if g is not None and g[0] == 'active':
            E.keycount[key] = N; st.gen[key] = ('used', g[1]); return [('ret', st, (at(g[1]),), it)]
        return sym_next(E, st, it, key, N, lambda s2: at(I(0)), ('it', 'range', hi, hi, rv),
                        ('it', 'range', lin_add(lo, I(1)), hi, rv) if not rv else ('it', 'range', lo, lin_add(hi, I(-1)), rv), d)
    if k == 'map':
        out = []
        for kd, s, v, n in next_it(E, st, it[2], d):
            ni = ('it', 'map', n) + it[3:]
            if kd != 'ret' or v is None: out.append((kd, s, v, ni)); continue
            for o in E.call_closure(s, it[3], [v[0]], it[4], d):
                out.append((o[0], o[1], (o[2],) if o[0] == 'ret' else o[2], ni))
        return out
    if k == 'copied':
        return [(kd, s, (E.strip(s, v[0]),) if kd == 'ret' and v else v, ('it', 'copied', n)) for kd, s, v, n in next_it(E, st, it[2], d)]
    if k == 'enum':
        out = []
        for kd, s, v, n in next_it(E, st, it[2], d):
            if kd != 'ret' or v is None: out.append((kd, s, v, ('it', 'enum', n, it[3]))); continue
            idx = it[3]
            g = [x for kk, x in s.gen.items() if x[0] == 'used' and kk == keyof(E, it[2])]
            if n == it[2] and g: out.append((kd, s, (('tup', (lin_add(idx, g[0][1]), v[0])),), ('it', 'enum', n, idx)))
            else: out.append((kd, s, (('tup', (idx, v[0])),), ('it', 'enum', n, lin_add(idx, I(1)))))
        return out
    if k == 'chain':
        out = []
        for kd, s, v, n in next_it(E, st, it[2], d):
            if kd == 'ret' and v is None:
                for kd2, s2, v2, n2 in next_it(E, s, it[3], d): out.append((kd2, s2, v2, ('it', 'chain', n, n2)))
            else: out.append((kd, s, v, ('it', 'chain', n, it[3])))
        return out
    if k in ('filter', 'filtermap'):
        out = []; todo = [(st, it[2], 0)]
        while todo:
            s0, inner, n0 = todo.pop()
            for kd, s, v, n in next_it(E, s0, inner, d):
                if kd != 'ret' or v is None: out.append((kd, s, v, ('it', k, n) + it[3:])); continue
                if k == 'filter':
                    c = newcell(E, s, v[0]); r = E.call_closure(s, it[3], [('ref', c, ())], 'bool', d)
                else: r = E.call_closure(s, it[3], [v[0]], it[4], d)
                for o in r:
                    if o[0] != 'ret': out.append((o[0], o[1], o[2], it)); continue
                    if k == 'filter':
                        for s2, b in E.branch(o[1], o[2]):
                            if b: out.append(('ret', s2, v, ('it', k, n) + it[3:]))
                            elif n0 < 40 and n != inner: todo.append((s2, n, n0 + 1))
                            elif n == inner: E.skipped.append(s2)
                    else:
                        for s2, x in unwrap_opt(E, o[1], o[2]):
                            if x is not None: out.append(('ret', s2, (x,), ('it', k, n) + it[3:]))
                            elif n != inner and n0 < 40: todo.append((s2, n, n0 + 1))
                            else: E.skipped.append(s2)
        return out
    if k == 'zip':
        out = []
        for kd, s, v, n in next_it(E, st, it[2], d):
            if kd != 'ret' or v is None: out.append((kd, s, v, ('it', 'zip', n, it[3]))); continue
            for kd2, s2, v2, n2 in next_it(E, s, it[3], d):
                if kd2 != 'ret' or v2 is None: out.append((kd2, s2, v2, ('it', 'zip', n, n2))); continue
                out.append(('ret', s2, (('tup', (v[0], v2[0])),), ('it', 'zip', n, n2)))
        return out
    if k == 'skip':
        inner = it[2]
        n = lin_const(it[3])
        if inner[1] == 'base' and n is not None:
            sv = E.seqof(E.read(st, inner[2], inner[3])); order = list(inner[4]); left = n
            while left and order:
                j, off = order[0][:2]
                if len(order[0]) > 2: return unknown_next(E, st, it, k)
                if sv[1][j][0] == 'e': order.pop(0); left -= 1
                else: order[0] = (j, off + left); left = 0
            return next_it(E, st, inner[:4] + (tuple(order),) + inner[5:], d)
    if k == 'peek':
        if it[3] is not None:
            v = it[3]; return [('ret', st, v[0], ('it', 'peek', it[2], None))]
        return [(kd, s, v, ('it', 'peek', n, None)) for kd, s, v, n in next_it(E, st, it[2], d)]
    if k == 'flat':
        cur = it[4]; out = []
        if cur is not None:
            for kd, s, v, n in next_it(E, st, cur, d):
                if kd != 'ret' or v is not None: out.append((kd, s, v, it[:4] + (n,)))
                else: out.extend(next_it(E, s, it[:4] + (None,), d))
            return out
        for kd, s, v, n in next_it(E, st, it[2], d):
            if kd != 'ret' or v is None: out.append((kd, s, v, ('it', 'flat', n, it[3], None))); continue
            for o in E.call_closure(s, it[3], [v[0]], '?', d):
                if o[0] != 'ret': out.append((o[0], o[1], o[2], it)); continue
                inner = mkit(E, o[1], o[2], 'val') if o[2] is None or o[2][0] != 'it' else o[2]
                if inner is None: E.note('flat-unknown', str(o[2])[:60]); continue
                out.extend(next_it(E, o[1], ('it', 'flat', n, it[3], inner), d))
        return out
    return unknown_next(E, st, it, k)
def unknown_next(E, st, it, k):
    E.note('iterator-unknown', str(k))
    return [('ret', st.fork(), None, it), ('ret', st, (E.fresh(st, 'it', '?'),), it)]
def keyof(E, it):
    if it[1] in ('base', 'range'): return E.itkey(it)
    if it[1] in ('map', 'copied', 'filter'): return keyof(E, it[2])
    return None
def sym_next(E, st, it, key, N, val, adv, step, d):
    out = []; s0 = st.fork()
    if E.assume(s0, E.eq0(N) if N[2] else ('b', N[1] == 0), True):
        s0.aux['symnext'] = (key, None, None, N) if False else s0.aux.get('symnext')
        s0.aux['defnext'] = s0.aux.get('defnext', 0)
        # exhausted: continue with the rest
        for o in next_it(E, s0, adv, d): out.append(o)
    if E.assume(st, E.ge0(lin_add(N, I(-1))), True):
        st.aux['symnext'] = (key, st.aux.get('itcell'), st.aux.get('itpath'), N)
        out.append(('ret', st, (val(st),), step))
    return out
def unwrap_opt(E, st, v):
    v = v
    if v is None: return [(st, E.fresh(st, 'opt', '?')), (st.fork(), None)]
    if v[0] == 'adt': return [(st, v[3][0] if v[2] == 1 else None)]
    if v[0] == 's':
        out = []
        for s, b in E.branch(st, ('c', 'isvar', v[1], 1)): out.append((s, E.symfield(v[1], 1, 0) if b else None))
        return out
    return [(st, None)]

def opt_ty(dty, v): return dty

@model(pred=lambda c: c.get('meth') == 'next' and (c.get('trait') or '').endswith('Iterator') or (c.get('fn') or '').endswith('Iterator::next'))
def m_next(E, st, c, a, dty, d, w):
    loc = E.loc(st, a[0])
    it = E.read(st, *loc)
    n = 0
    while it is not None and E.isref(it) and n < 5: loc = E.loc(st, it); it = E.read(st, *loc); n += 1
    if it is not None and it[0] == 'adt' and 'Range' in it[1]: it = ('it', 'range', it[3][0], it[3][1], False)
    if it is None or it[0] != 'it': return None
    out = []
    st.aux['itcell'] = loc[0]; st.aux['itpath'] = loc[1]
    for kd, s, v, n in next_it(E, st, it, d):
        s.aux.pop('itcell', None); s.aux.pop('itpath', None)
        if kd == 'panic': out.append((kd, s, v)); continue
        if n != it or True: E.write(s, loc[0], loc[1], n)
        out.append(('ret', s, none(dty) if v is None else some(dty, v[0])))
    return out

@model('IntoIterator>::into_iter', 'IntoIterator::into_iter', '::into_iter')
def m_into(E, st, c, a, dty, d, w):
    v = a[0]
    if v is not None and v[0] == 'it': return ret(st, v)
    if v is not None and E.isref(v):
        t = E.read(st, *E.loc(st, v))
        if t is not None and t[0] == 'it': return ret(st, v)
        fn = (c.get('def') or '') + ' ' + json.dumps(c.get('self') or '')
        kind = 'mut' if '&\'a mut' in fn else 'ref'
        it = mkit(E, st, v, kind)
    else: it = mkit(E, st, v, 'val')
    return ret(st, it) if it is not None else None
@model('<impl [T]>::iter', 'Vec::<T, A>::iter')
def m_iter(E, st, c, a, dty, d, w):
    it = mkit(E, st, a[0], 'ref'); return ret(st, it) if it else None
@model('<impl [T]>::iter_mut')
def m_iterm(E, st, c, a, dty, d, w):
    it = mkit(E, st, a[0], 'mut'); return ret(st, it) if it else None
@model('Vec::<T, A>::drain')
def m_drain(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    if a[1] is not None and a[1][0] == 'adt' and a[1][1].endswith('RangeFull'):
        E.write(st, loc[0], loc[1], ('seq', ()))
        return ret(st, mkit(E, st, sv, 'val'))
    return None
@model('Iterator::rev')
def m_rev(E, st, c, a, dty, d, w):
    v = a[0]
    if v is not None and v[0] == 'adt' and 'Range' in v[1]: v = ('it', 'range', v[3][0], v[3][1], False)
    return ret(st, revit(v)) if v is not None and v[0] == 'it' else None
def adapter(name, kind):
    @model('Iterator::' + name)
    def f(E, st, c, a, dty, d, w):
        if a[0] is not None and a[0][0] == 'adt' and 'Range' in a[0][1]: a = [('it', 'range', a[0][3][0], a[0][3][1], False)] + list(a[1:])
        if a[0] is None or a[0][0] != 'it': return None
        if kind == 'copied': return ret(st, ('it', 'copied', a[0]))
        if kind == 'enum': return ret(st, ('it', 'enum', a[0], I(0)))
        if kind == 'map':
            return ret(st, ('it', 'map', a[0], a[1], clo_ret(E, a[1])))
        if kind == 'filter': return ret(st, ('it', 'filter', a[0], a[1]))
        if kind == 'filtermap': return ret(st, ('it', 'filtermap', a[0], a[1], clo_ret(E, a[1])))
        if kind == 'peek': return ret(st, ('it', 'peek', a[0], None))
        if kind == 'flat': return ret(st, ('it', 'flat', a[0], a[1], None))
        b = a[1]
        if b is None or b[0] != 'it':
            b = mkit(E, st, b, 'ref' if E.isref(b) else 'val')
        if b is None: return None
        return ret(st, ('it', kind, a[0], b))
for n_, k_ in (('map', 'map'), ('copied', 'copied'), ('cloned', 'copied'), ('enumerate', 'enum'), ('filter', 'filter'), ('filter_map', 'filtermap'), ('peekable', 'peek'), ('flat_map', 'flat'), ('chain', 'chain'), ('zip', 'zip')): adapter(n_, k_)
@model(pred=lambda c: '<impl f64>::' in (c.get('fn') or ''))
def m_float(E, st, c, a, dty, d, w):
    n = c['fn'].rsplit('::', 1)[1]
    if any(x is None or E.isref(x) for x in a) or n not in ('abs', 'to_bits', 'is_nan', 'is_infinite', 'is_finite', 'is_sign_negative', 'is_sign_positive', 'floor', 'ceil', 'round', 'trunc', 'fract', 'signum', 'copysign', 'max', 'min', 'is_normal', 'is_subnormal', 'to_be_bytes', 'to_le_bytes', 'to_ne_bytes'): return None
    return ret(st, ('s', E.sym(('fop', n) + tuple(a), dty)))
@model('Iterator::skip')
def m_iskip(E, st, c, a, dty, d, w):
    it = a[0]
    if it is not None and it[0] == 'adt' and 'Range' in it[1]: it = ('it', 'range', it[3][0], it[3][1], False)
    if it is None or it[0] != 'it': return None
    plain = ret(st, ('it', 'skip', it, a[1]))
    n = E.toint(a[1]); left = lin_const(n) if n is not None else None
    y = it
    while y[1] in ('map', 'copied', 'enum'): y = y[2]
    if left is None or left < 0 or y[1] != 'base' or y[5]: return plain
    sv = E.seqof(E.read(st, y[2], y[3]))
    if sv is None or any(len(x) > 2 for x in y[4]): return plain
    order = list(y[4]); k = left
    while k and order:
        j, off = order[0][:2]
        if sv[1][j][0] == 'e': order.pop(0); k -= 1
        elif len(order) == 1: order[0] = (j, off + k); k = 0
        else:
            lo = E.bounds(st, lin_add(E.slen(sv[1][j]), I(-off - k)))[0]
            if lo is None or lo < 0: return plain
            order[0] = (j, off + k); k = 0
    def inner(x):
        if x[1] in ('map', 'copied'): return x[:2] + (inner(x[2]),) + x[3:]
        if x[1] == 'enum': return x[:2] + (inner(x[2]), lin_add(x[3], I(left)))
        return x[:4] + (tuple(order),) + x[5:]
    return ret(st, inner(it))
@model('Iterator::take')
def m_itake(E, st, c, a, dty, d, w):
    it = a[0]; n = E.toint(a[1])
    if it is not None and it[0] == 'adt' and 'Range' in it[1]: it = ('it', 'range', it[3][0], it[3][1], False)
    if it is None or it[0] != 'it' or n is None: return None
    def inner(x, f):
        """adapters that pass elements one for one"""
        if x[1] in ('map', 'copied', 'enum'): return x[:2] + (inner(x[2], f),) + x[3:]
        return f(x)
    y = it
    while y[1] in ('map', 'copied', 'enum'): y = y[2]
    if y[1] == 'range':
        N = lin_add(y[3], y[2], -1); out = []
        for s2, b in E.branch(st, E.ge0(lin_add(n, N, -1))):
            if b: out.append(('ret', s2, it))
            elif not y[4]: out.append(('ret', s2, inner(it, lambda z: ('it', 'range', z[2], lin_add(z[2], n), False))))
            else: out.append(('ret', s2, inner(it, lambda z: ('it', 'range', lin_add(z[3], n, -1), z[3], True))))
        return out
    if y[1] != 'base': return None
    sv = E.seqof(E.read(st, y[2], y[3]))
    if sv is None or any(len(x) > 2 for x in y[4]): return None
    def go(s, order, done, left):
        if not order: return [(s, done)]
        j, off = order[0]; L = lin_add(E.slen(sv[1][j]), I(-off)); out = []
        if lin_const(left) == 1 and lin_const(L) is None:
            for s2, b in E.branch(s, E.ge0(lin_add(L, I(-1)))):
                if b: out.append((s2, done + ((j, off, I(1)),)))
                else: out += go(s2, order[1:], done, left)
            return out
        for s2, b in E.branch(s, E.ge0(lin_add(left, L, -1))):
            if b: out += go(s2, order[1:], done + (order[0],), lin_add(left, L, -1))
            elif lin_const(left) == 0 or E.bounds(s2, left)[1] == 0 or lin_const(L) == 1: out.append((s2, done))
            else: out.append((s2, done + ((j, off, left),)))
        return out
    return [('ret', s2, inner(it, lambda z: z[:4] + (o,) + z[5:])) for s2, o in go(st, y[4], (), n)]
@model('Option::<T>::iter', 'Option::<T>::iter_mut', '<core::option::Option<T> as core::iter::traits::collect::IntoIterator>::into_iter')
def m_optiter(E, st, c, a, dty, d, w):
    v = a[0]; loc = None
    while E.isref(v): loc = E.loc(st, v); v = E.read(st, *loc)
    if v is None: return None
    def mk(s, has):
        if not has: return mkit(E, s, ('seq', ()), 'val')
        x = E.proj(s, v, 0, 1) if loc is None else ('ref', loc[0], loc[1] + (('v', 1, 0),)) if False else None
        if x is None:
            x = E.proj(s, v, 0, 1)
            x = ('ref', newcell(E, s, x), ())
        return mkit(E, s, ('seq', (('e', x),)), 'val')
    if v[0] == 'adt': return ret(st, mk(st, v[2] == 1))
    if v[0] == 's': return [('ret', s, mk(s, b)) for s, b in E.branch(st, ('c', 'isvar', v[1], 1))]
    return None
@model('Iterator::flatten')
def m_flatten(E, st, c, a, dty, d, w):
    if a[0] is None or a[0][0] != 'it': return None
    return ret(st, ('it', 'flat', a[0], ('ident',), None))
def clo_ret(E, clo):
    if clo is None: return '?'
    if clo[0] == 'clo' and clo[1] in E.F: return E.F[clo[1]]['locals'][0]
    if clo[0] == 'fn':
        i = json.loads(clo[1]).get('inst')
        if i in E.F: return E.F[i]['locals'][0]
    return '?'

# ---- searches
class NoGroups(Exception): pass
def clobody(f):
    def norm(x):
        if isinstance(x, dict): return {k: norm(v) for k, v in x.items() if k not in ('def', 'ty', 'owner')}
        if isinstance(x, list):
            if x and x[0] == '=' and len(x) == 4: x = x[:3]
            elif x and x[0] == 'sd': x = x[:3]
            elif x and x[0] == 'f' and len(x) == 3: x = x[:2]
            return [norm(y) for y in x]
        return x.replace('&mut ', '&') if isinstance(x, str) else x
    return json.dumps([[norm(b['s']), norm(b['t'])] for b in f['blocks']], sort_keys=True)
def clorep(E, name):
    """closures with the same body share one identity"""
    F = E.F
    if name not in F: return name
    memo = E.P.__dict__.setdefault('clorep', {})
    if not memo:
        by = {}
        for n in sorted(x for x in F if F[x].get('closure')): by.setdefault(clobody(F[n]), []).append(n)
        for ns in by.values():
            for n in ns: memo[n] = ns[0]
    return memo.get(name, name)
def cloid(E, st, clo):
    if clo is None: return None
    c = E.strip(st, clo)
    if c is not None and c[0] == 'clo': return ('clo', clorep(E, c[1]), tuple(E.freeze(st, x) for x in c[2]))
    return c
def groups(E, st, it, tag, d):
    """[(value, lo_index_lin, cond_key|None, N|None)] in iteration order; symbolic segments give one generic element"""
    k = it[1]
    if k == 'base':
        sv = E.seqof(E.read(st, it[2], it[3])); out = []
        if sv is None: raise NoGroups()
        pre = I(0)
        for ent in it[4]:
            j, off = ent[:2]; s = sv[1][j]
            if s[0] == 'e': out.append((elem_of(E, st, it, j, I(0)), pre, None, None)); pre = lin_add(pre, I(1)); continue
            if len(ent) > 2 and lin_const(ent[2]) == 1:
                out.append((elem_of(E, st, it, j, I(off)), pre, None, None)); pre = lin_add(pre, I(1)); continue
            N = lin_add(E.slen(s), I(-off))
            sk = segkey(E, s) if len(ent) == 2 else (segkey(E, s), 'first', ent[2])
            if off: sk = (sk, 'from', off)
            rev = it[5] and tag != 'sum'     # a total does not depend on the direction
            idx = ('i', 0, ((E.sym(('match', tag, sk, rev), 'usize'), 1),))
            rel = lin_add(I(off), idx)
            pos = idx if not it[5] else lin_add(lin_add(N, I(-1)), idx, -1)
            if len(ent) > 2: N = ent[2]
            out.append((elem_of(E, st, it, j, rel), lin_add(pre, pos), ('nomatch', tag, sk, it[5]), (idx, N)))
            pre = lin_add(pre, N)
        return out
    if k == 'range':
        N = lin_add(it[3], it[2], -1); c = lin_const(N)
        if c is not None and c <= 64: return [(lin_add(it[2], I(i)), I(i), None, None) for i in (range(c) if not it[4] else reversed(range(c)))]
        idx = ('i', 0, ((E.sym(('match', tag, ('range', it[2], it[3]), it[4]), 'usize'), 1),))
        return [(lin_add(it[2], idx), idx, ('nomatch', tag, ('range', it[2], it[3]), it[4]), (idx, N))]
    if k == 'copied': return [(E.strip(st, v), i, c, n) for v, i, c, n in groups(E, st, it[2], tag, d)]
    if k == 'enum': return [(('tup', (lin_add(it[3], i), v)), i, c, n) for v, i, c, n in groups(E, st, it[2], tag, d)]
    if k == 'chain':
        a = groups(E, st, it[2], tag, d); b = groups(E, st, it[3], tag, d)
        return a + [(v, None, c, n) for v, i, c, n in b]
    if k == 'map':
        out = []
        for v, i, c, n in groups(E, st, it[2], tag, d):
            o = E.call_closure(st.fork(), it[3], [v], it[4], d)
            o = [x for x in o if x[0] == 'ret']
            if len(o) == 1: out.append((o[0][2], i, c, n))
            else: out.append((('s', E.sym(('mapv', cloid(E, st, it[3]), E.freeze(st, v)), it[4])), i, c, n))
        return out
    if k == 'flat':
        out = []
        for v, i, c, n in groups(E, st, it[2], (tag, 'o'), d):
            if it[3] == ('ident',): inner = v
            else:
                o = [x for x in E.call_closure(st, it[3], [v], '?', d) if x[0] == 'ret']
                if len(o) != 1: raise NoGroups()
                inner = o[0][2]
            if inner is None: raise NoGroups()
            if inner[0] != 'it': inner = mkit(E, st, inner, 'ref' if E.isref(inner) else 'val')
            if inner is None: raise NoGroups()
            for v2, i2, c2, n2 in groups(E, st, inner, (tag, c), d):
                if c is None: out.append((v2, None, c2, n2))
                else: out.append((v2, None, ('nomatch', c, c2), (n, n2)))
        return out
    if k == 'filter':
        out = []
        for v, i, c, n in groups(E, st, it[2], (tag, cloid(E, st, it[3])), d):
            out.append((v, None, ('filt', c, cloid(E, st, it[3]), E.freeze(st, v)), ('filter', it[3], n)))
        return out
    if k == 'skip':
        raise NoGroups()
    raise NoGroups()
def segkey(E, s):
    return s[:4] if s[0] == 'sym' else s
def assume_group(E, st, n):
    if n is None: return True
    if n[0] == 'filter': return True
    if n and n[0] is not None and n[0][0] == 'i':
        idx, N = n
        return E.setrange(st, idx, lo=0) and (E.assume(st, E.ge0(lin_add(lin_add(N, idx, -1), I(-1))), True))
    r = True
    for x in n: r = r and assume_group(E, st, x)
    return r
def search(E, st, it, clo, d, byref, neg=False):
    """-> list of (kind, st, value, index) with value None when nothing matches"""
    tag = cloid(E, st, clo)
    if neg: tag = ('not', tag)
    gs = groups(E, st, it, tag, d)
    out = []; cur = [st]
    def pred(s2, v): return [(k, s3, (not r if neg else r) if k == 'ret' else r) for k, s3, r in apply_pred(E, s2, clo, v, d, byref)]
    for v, i, ck, n in gs:
        nxt = []
        for s in cur:
            def test(s2):
                r = []
                if n is not None and n and n[0] == 'filter':
                    for o in apply_pred(E, s2, n[1], v, d, True):
                        if o[0] == 'panic': r.append(o)
                        elif o[2]:
                            r.extend(pred(o[1], v))
                        else: r.append(('ret', o[1], False))
                    return r
                return pred(s2, v)
            if ck is None or (n and n[0] == 'filter' and ck[1] is None):
                for o in test(s):
                    if o[0] == 'panic': out.append(('panic', o[1], o[2], None))
                    elif o[2]: out.append(('ret', o[1], v, i))
                    else: nxt.append(o[1])
                continue
            known = s.facts.get(ck)
            if known is not True:
                f = s.fork()
                if assume_group(E, f, n):
                    f.facts[ck] = False; was = dict(f.facts)
                    for o in test(f):
                        if o[0] == 'panic': out.append(('panic', o[1], o[2], None))
                        elif o[2]: out.append(('ret', o[1], v, i))
                        else: E.searches.setdefault(ck, []).append({k: x for k, x in o[1].facts.items() if was.get(k) != x})
            if known is not False:
                s.facts[ck] = True; nxt.append(s)
        cur = nxt
    for s in cur: out.append(('ret', s, None, None))
    return out
def apply_pred(E, st, clo, v, d, byref):
    if byref:
        c = newcell(E, st, v); v = ('ref', c, ())
    out = []
    for o in E.call_closure(st, clo, [v], 'bool', d):
        if o[0] != 'ret': out.append(o); continue
        for s, b in E.branch(o[1], o[2]): out.append(('ret', s, b))
    return out
def wants_it(E, st, v, loc=False):
    if v is None: return None
    n = 0
    while E.isref(v) and n < 5: v = E.deref(st, v); n += 1
    if v is not None and v[0] == 'adt' and 'Range' in v[1]: return ('it', 'range', v[3][0], v[3][1], False)
    return v if v is not None and v[0] == 'it' else None
def it_meth(name):
    return lambda c: c.get('meth') == name and (c.get('trait') or '').endswith(('Iterator', 'DoubleEndedIterator')) or (c.get('fn') or '').endswith('Iterator::' + name)
@model(pred=lambda c: any(it_meth(n)(c) for n in ('find', 'rfind')))
def m_find(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None: return None
    if 'rfind' in (c.get('fn') or ''): it = revit(it)
    try: r = search(E, st, it, a[1], d, True)
    except NoGroups: E.note('search-unmodelled', str(it[1])); return None
    return [(k, s, (v if k == 'panic' else none(dty) if v is None else some(dty, v))) for k, s, v, i in r]
@model(pred=lambda c: any(it_meth(n)(c) for n in ('position', 'rposition')))
def m_position(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None: return None
    rp = 'rposition' in (c.get('fn') or '')
    try:
        if rp:
            gs = groups(E, st.fork(), it, 'x', d)
            it = revit(it)
        r = search(E, st, it, a[1], d, False)
    except NoGroups: E.note('search-unmodelled', str(it[1])); return None
    out = []
    tot = None
    if rp and it[1] == 'base':
        sv = E.seqof(E.read(st, it[2], it[3])); tot = E.seqlen(sv)
    for k, s, v, i in r:
        if k == 'panic': out.append((k, s, v)); continue
        if v is None: out.append(('ret', s, none(dty))); continue
        if rp: i = lin_add(lin_add(tot, I(-1)), i, -1) if tot is not None and i is not None else None
        out.append(('ret', s, some(dty, i if i is not None else E.fresh(s, 'pos', 'usize'))))
    return out
@model(pred=lambda c: any(it_meth(n)(c) for n in ('any', 'all')))
def m_any(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None: return None
    al = (c.get('fn') or '').endswith('all') or c.get('meth') == 'all'
    clo = a[1]
    if al:
        # all(p) == !any(!p): search with negated predicate
        try: r = search(E, st, it, clo, d, False) if False else search_neg(E, st, it, clo, d)
        except NoGroups: return None
        return [(k, s, v if k == 'panic' else ('b', v is None)) for k, s, v, i in r]
    try: r = search(E, st, it, clo, d, False)
    except NoGroups: return None
    return [(k, s, v if k == 'panic' else ('b', v is not None)) for k, s, v, i in r]
def search_neg(E, st, it, clo, d): return search(E, st, it, clo, d, False, True)
@model(pred=lambda c: any(it_meth(n)(c) for n in ('sum', 'count')))
def m_sum(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None: return None
    cnt = (c.get('fn') or '').endswith('count')
    try: gs = groups(E, st, it, 'sum', d)
    except NoGroups: return None
    t = I(0)
    for v, i, ck, n in gs:
        if ck is None: t = lin_add(t, I(1) if cnt else E.toint(E.strip(st, v))); continue
        if n and n[0] == 'filter': return None
        v = E.toint(E.strip(st, v))
        if cnt: t = lin_add(t, n[1]); continue
        idx, N = n[0], n[1]
        if E.bounds(st, N)[1] == 0: continue
        if v[0] == 'i' and not v[2]: t = lin_add(t, lin_scale(N, v[1])); continue
        t = lin_add(t, ('i', 0, ((E.sym(('sumof', N, E.freeze(st, v)), 'usize'), 1),)))
    return ret(st, t)
@model(pred=lambda c: any(it_meth(n)(c) for n in ('last', 'max', 'min')))
def m_last(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None or not (c.get('fn') or '').endswith('last'): return None
    out = []
    for kd, s, v, n in next_it(E, st, revit(it), d):
        out.append((kd, s, v) if kd != 'ret' else ('ret', s, none(dty) if v is None else some(dty, v[0])))
    return out

# ---- effectful consumers: a loop over the iterator with a python body
def pyloop(E, st, it, body, d):
    """body(state, value) -> [(kind, state, payload)], kind back|exit|panic.  -> (exits, [exhausted states])"""
    cell = newcell(E, st, it)
    def step(s):
        outs = []
        cur = s.mem.get(cell)
        s.aux['itcell'] = cell; s.aux['itpath'] = ()
        for kd, s2, v, n in next_it(E, s, cur, d):
            s2.aux.pop('itcell', None); s2.aux.pop('itpath', None)
            if kd == 'panic': outs.append(('panic', s2, v)); continue
            s2.mem[cell] = n
            if v is None: outs.append(('done', s2, None)); continue
            outs.extend(body(s2, v[0]))
        return outs
    def drive(st, unroll):
        trial = st.fork(); saved = dict(st.aux); trial.aux['symnext'] = None; trial.aux['defnext'] = 0
        outs = step(trial)
        backs = [o for o in outs if o[0] == 'back']; exits = [o for o in outs if o[0] != 'back']
        sn = None; dn = True; head = E.headkeys(st.mem.get(cell))
        for o in outs:
            x = o[1].aux.get('symnext'); y = o[1].aux.get('defnext', 0)
            if o[0] == 'back':
                if x is not None and (sn is None or x[0] in head and sn[0] not in head): sn = x
                dn = dn and y
            for k in ('symnext', 'defnext'):
                if k in saved: o[1].aux[k] = saved[k]
                else: o[1].aux.pop(k, None)
        if not backs: return exits
        if sn is None and dn and unroll < 80:
            res = list(exits)
            for o in E.merge([('ret', o[1], None) for o in backs]): res.extend(drive(o[1], unroll + 1))
            return res
        E.loopctr += 1; lid = E.loopctr
        def body_fn(s):
            outs = step(s)
            return [o[1] for o in outs if o[0] == 'back'], [o for o in outs if o[0] != 'back']
        res, after = E.summarise(st, body_fn, sn, lid, None)
        if after is not None: res = res + drive(after, unroll + 1)
        return res
    outs = drive(st, 0)
    for o in outs: o[1].mem.pop(cell, None)
    return outs
@model(pred=it_meth('collect'))
def m_collect(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None: return None
    res = 'result::Result<' in dty.split('<')[0] + '<' and 'Result' in dty.split('<')[0]
    if not res and ('HashSet<' in dty or 'BTreeSet<' in dty):
        try: gs = groups(E, st.fork(), it, 'setof', d)
        except NoGroups: return None
        if len(gs) != 1 or not gs[0][3] or gs[0][3][0] == 'filter' or gs[0][0] is None: return None
        return ret(st, ('s', E.sym(('setof', gs[0][3][1], E.freeze(st, gs[0][0])), dty)))
    if not ('Vec<' in dty or '[' in dty or 'Box<[' in dty or 'VecDeque' in dty):
        return None
    acc = newcell(E, st, ('seq', ()))
    def body(s, v):
        if res:
            out = []
            if v is not None and v[0] == 's':
                for s2, b in E.branch(s, ('c', 'isvar', v[1], 0)):
                    if b: push(s2, E.symfield(v[1], 0, 0)); out.append(('back', s2, None))
                    else: out.append(('exit', s2, E.symfield(v[1], 1, 0)))
                return out
            if v[2] == 0: push(s, v[3][0]); return [('back', s, None)]
            return [('exit', s, v[3][0])]
        push(s, v); return [('back', s, None)]
    def push(s, v): s.mem[acc] = ('seq', s.mem[acc][1] + (('e', v),))
    out = []
    for k, s, v in pyloop(E, st, it, body, d):
        r = s.mem.pop(acc, None)
        if k == 'panic': out.append((k, s, v))
        elif k == 'exit': out.append(('ret', s, ('adt', dty, 1, (v,))))
        else: out.append(('ret', s, ('adt', dty, 0, (r,)) if res else r))
    return out
@model(pred=it_meth('find_map'))
def m_find_map(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None: return None
    def body(s, v):
        out = []
        for o in E.call_closure(s, a[1], [v], dty, d):
            if o[0] != 'ret': out.append(o); continue
            x = o[2]
            if x[0] == 's':
                for s2, b in E.branch(o[1], ('c', 'isvar', x[1], 0)): out.append(('back', s2, None) if b else ('exit', s2, some(dty, E.symfield(x[1], 1, 0))))
            elif x[2] == 0: out.append(('back', o[1], None))
            else: out.append(('exit', o[1], x))
        return out
    out = []
    for k, s, v in pyloop(E, st, it, body, d):
        out.append((k, s, v) if k == 'panic' else ('ret', s, v if k == 'exit' else none(dty)))
    return out
@model(pred=lambda c: any(it_meth(n)(c) for n in ('for_each', 'try_for_each')))
def m_foreach(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None: return None
    tr = 'try_for_each' in (c.get('fn') or '')
    def body(s, v):
        out = []
        for o in E.call_closure(s, a[1], [v], clo_ret(E, E.strip(s, a[1])), d):
            if o[0] != 'ret': out.append(o); continue
            if not tr: out.append(('back', o[1], None)); continue
            x = o[2]
            if x[0] == 's':
                for s2, b in E.branch(o[1], ('c', 'isvar', x[1], 0)): out.append(('back', s2, None) if b else ('exit', s2, ('adt', dty, 1, (E.symfield(x[1], 1, 0),))))
            elif x[2] == 0: out.append(('back', o[1], None))
            else: out.append(('exit', o[1], x))
        return out
    out = []
    for k, s, v in pyloop(E, st, it, body, d):
        if k == 'panic': out.append((k, s, v))
        elif k == 'exit': out.append(('ret', s, v))
        else: out.append(('ret', s, ('adt', dty, 0, (UNIT,)) if tr else UNIT))
    return out
@model(pred=lambda c: any(it_meth(n)(c) for n in ('fold', 'try_fold')))
def m_fold(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is None or 'try_fold' in (c.get('fn') or ''): return None
    acc = newcell(E, st, a[1])
    def body(s, v):
        out = []
        for o in E.call_closure(s, a[2], [s.mem[acc], v], dty, d):
            if o[0] == 'ret': o[1].mem[acc] = o[2]; out.append(('back', o[1], None))
            else: out.append(o)
        return out
    out = []
    for k, s, v in pyloop(E, st, it, body, d):
        out.append((k, s, v) if k == 'panic' else ('ret', s, s.mem.pop(acc)))
    return out
@model('Extend<T>>::extend', 'Extend::extend', 'Extend<&\'a T>>::extend', 'Vec::<T, A>::extend_from_slice', 'Vec::<T, A>::append')
def m_extend(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if sv is None or loc is None: return None
    f = (c.get('fn') or '')
    if 'extend_from_slice' in f or 'append' in f:
        l2, s2 = vtarget(E, st, a[1])
        if s2 is None: return None
        E.write(st, loc[0], loc[1], ('seq', sv[1] + s2[1]))
        if 'append' in f and l2: E.write(st, l2[0], l2[1], ('seq', ()))
        return ret(st, UNIT)
    it = a[1] if a[1] is not None and a[1][0] == 'it' else mkit(E, st, a[1], 'ref' if E.isref(a[1]) else 'val')
    if it is None: return None
    strip = "&'a T" in (c.get('def') or '')
    def body(s, v):
        l, q = vtarget(E, s, a[0])
        E.write(s, l[0], l[1], ('seq', q[1] + (('e', E.strip(s, v) if strip else v),))); return [('back', s, None)]
    return [(k, s, v) if k == 'panic' else ('ret', s, UNIT) for k, s, v in pyloop(E, st, it, body, d)]

# ------------------------------------------------------------------ vectors
@model('Vec::<T>::new', 'Vec::<T>::with_capacity', 'Vec::<T, A>::with_capacity_in', '<alloc::vec::Vec<T> as core::default::Default>::default', 'VecDeque::<T>::new')
def m_vnew(E, st, c, a, dty, d, w): return ret(st, ('seq', ()))
@model('Vec::<T, A>::push', 'VecDeque::<T, A>::push_back')
def m_push(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    E.write(st, loc[0], loc[1], ('seq', sv[1] + (('e', a[1]),)))
    if E.watch_push is not None and a[1] is not None and a[1][0] == 'adt' and a[1][1].split('<')[0].rsplit('::', 1)[-1] in E.watch_push:
        st.event(('push', loc, E.freeze(st, a[1])))
    return ret(st, UNIT)
@model('Vec::<T, A>::insert', 'VecDeque::<T, A>::push_front')
def m_vinsert(E, st, c, a, dty, d, w):
    """at the border of two segments"""
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    if len(a) == 2: E.write(st, loc[0], loc[1], ('seq', (('e', a[1]),) + sv[1])); return ret(st, UNIT)
    n = I(0)
    for i in range(len(sv[1]) + 1):
        if E.eqv(st, n, a[1]) is True or n == a[1]:
            E.write(st, loc[0], loc[1], ('seq', sv[1][:i] + (('e', a[2]),) + sv[1][i:])); return ret(st, UNIT)
        if i < len(sv[1]): n = lin_add(n, E.slen(sv[1][i]))
    return None
@model('Vec::<T, A>::remove', 'VecDeque::<T, A>::pop_front')
def m_vremove(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    k = 0 if len(a) == 1 else lin_const(a[1]) if is_i(a[1]) else None
    if k is None or k >= len(sv[1]) or any(s[0] != 'e' for s in sv[1][:k + 1]):
        return ret(st, none(dty)) if len(a) == 1 and not sv[1] else None
    E.write(st, loc[0], loc[1], ('seq', sv[1][:k] + sv[1][k + 1:])); x = sv[1][k][1]
    return ret(st, some(dty, x) if len(a) == 1 else x)
@model('Vec::<T, A>::pop', 'VecDeque::<T, A>::pop_back')
def m_pop(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    if not sv[1]: return ret(st, none(dty))
    s = sv[1][-1]
    if s[0] == 'e':
        E.write(st, loc[0], loc[1], ('seq', sv[1][:-1])); return ret(st, some(dty, s[1]))
    if s[0] == 'sym':
        out = []; L = E.slen(s)
        if E.free: E.note('loop-over-pop', w[0])
        for s2, b in E.branch(st, E.ge0(lin_add(L, I(-1)))):
            if b:
                x = E.elem(s2, sv, len(sv[1]) - 1, lin_add(L, I(-1)))
                E.write(s2, loc[0], loc[1], ('seq', sv[1][:-1] + (s[:3] + (s[3] + 1,) + s[4:],))); out.append(('ret', s2, some(dty, x)))
            else:
                E.write(s2, loc[0], loc[1], ('seq', sv[1][:-1])); out.extend(m_pop(E, s2, c, a, dty, d, w))
        return out
    return None
@model('Vec::<T, A>::len', '<impl [T]>::len', 'VecDeque::<T, A>::len', 'ExactSizeIterator::len')
def m_len(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0])
    if it is not None:
        if it[1] == 'base':
            sv = E.seqof(E.read(st, it[2], it[3])); t = I(0)
            for x in it[4]: t = lin_add(t, x[2] if len(x) > 2 else lin_add(E.slen(sv[1][x[0]]), I(-x[1])))
            return ret(st, t)
        return None
    loc, sv = vtarget(E, st, a[0])
    return ret(st, E.seqlen(sv)) if sv is not None else None
@model('Vec::<T, A>::is_empty', '<impl [T]>::is_empty', 'VecDeque::<T, A>::is_empty')
def m_isempty(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    return ret(st, E.eq0(E.seqlen(sv))) if sv is not None else None
@model('Vec::<T, A>::clear')
def m_clear(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if loc is None: return None
    E.write(st, loc[0], loc[1], ('seq', ())); return ret(st, UNIT)
@model('Vec::<T, A>::truncate')
def m_truncate(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    segs = list(sv[1])
    while segs:
        over = lin_add(E.seqlen(('seq', tuple(segs))), a[1], -1)
        o = lin_const(over)
        if o is not None and o <= 0: break
        L = lin_const(E.slen(segs[-1]))
        if o is not None and L is not None and L <= o: segs.pop(); continue
        break
    over = lin_const(lin_add(E.seqlen(('seq', tuple(segs))), a[1], -1))
    if over != 0: return None
    E.write(st, loc[0], loc[1], ('seq', tuple(segs))); return ret(st, UNIT)
def edge(E, st, a, dty, first):
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    if loc is None: loc = (newcell(E, st, sv), ())
    out = []; cur = st
    order = range(len(sv[1])) if first else reversed(range(len(sv[1])))
    for j in order:
        s = sv[1][j]
        if s[0] == 'e': out.append(('ret', cur, some(dty, ('ref', loc[0], loc[1] + (('seg', j, I(0)),))))); return out
        L = E.slen(s); nxt = None
        for s2, b in E.branch(cur, E.ge0(lin_add(L, I(-1)))):
            if b: out.append(('ret', s2, some(dty, ('ref', loc[0], loc[1] + (('seg', j, I(0) if first else lin_add(L, I(-1))),)))))
            else: nxt = s2
        if nxt is None: return out
        cur = nxt
    out.append(('ret', cur, none(dty))); return out
@model('<impl [T]>::last', '<impl [T]>::last_mut', 'VecDeque::<T, A>::back', 'VecDeque::<T, A>::back_mut')
def m_vlast(E, st, c, a, dty, d, w): return edge(E, st, a, dty, False)
@model('<impl [T]>::first', '<impl [T]>::first_mut', 'VecDeque::<T, A>::front', 'VecDeque::<T, A>::front_mut')
def m_vfirst(E, st, c, a, dty, d, w): return edge(E, st, a, dty, True)
@model('<impl [T]>::get', '<impl [T]>::get_mut')
def m_get(E, st, c, a, dty, d, w):
    i = E.toint(a[1])
    if i is None or i[0] != 'i': return None
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    if loc is None: loc = (newcell(E, st, sv), ())
    out = []
    for s2, b in E.branch(st, E.ge0(lin_add(lin_add(E.seqlen(sv), i, -1), I(-1)))):
        if not b: out.append(('ret', s2, none(dty))); continue
        j, rel = E.locate(s2, sv, i)
        out.append(('ret', s2, some(dty, ('ref', loc[0], loc[1] + ((('seg', j, rel),) if j is not None else (('x', i),))))))
    return out
@model('Index<I>>::index', 'IndexMut<I>>::index_mut', 'Index::index', 'IndexMut::index_mut')
def m_index(E, st, c, a, dty, d, w):
    i = E.toint(a[1])
    if i is None: return None
    loc, sv = vtarget(E, st, a[0])
    if sv is None or loc is None: return None
    if i[0] == 'adt' and 'RangeFrom' in i[1]:
        lo = E.toint(i[3][0]); out = []
        if lo is not None and lo[0] == 's': lo = ('i', 0, ((lo[1], 1),))
        if lo is None or lo[0] != 'i': return None
        for s2, b in E.branch(st, E.ge0(lin_add(E.seqlen(sv), lo, -1))):
            out.append(('ret', s2, ('ref', loc[0], loc[1] + (('from', lo),))) if b else ('panic', s2, ('index', 'slice start', w[0], lo)))
        return out
    if i[0] != 'i': return None
    out = []
    for s2, b in E.branch(st, E.ge0(lin_add(lin_add(E.seqlen(sv), i, -1), I(-1)))):
        if not b: out.append(('panic', s2, ('index', 'out of bounds', w[0]))); continue
        j, rel = E.locate(s2, sv, i)
        out.append(('ret', s2, ('ref', loc[0], loc[1] + ((('seg', j, rel),) if j is not None else (('x', i),)))))
    return out
@model('Vec::<T, A>::into_boxed_slice', '<impl [T]>::to_vec', '<impl [T]>::into_vec', 'Vec::<T, A>::as_slice', 'Vec::<T, A>::as_mut_slice', 'Vec::<T, A>::shrink_to_fit')
def m_ident(E, st, c, a, dty, d, w):
    if (c.get('def') or '').endswith('to_vec'):
        loc, sv = vtarget(E, st, a[0]); return ret(st, sv) if sv is not None else None
    return ret(st, a[0])
@model('box_assume_init_into_vec_unsafe')
def m_boxvec(E, st, c, a, dty, d, w):
    v = E.strip(st, a[0]); sv = E.seqof(v)
    return ret(st, sv) if sv is not None else ret(st, v)
@model('Box::<T>::new_uninit')
def m_boxun(E, st, c, a, dty, d, w):
    st.ctr += 1; return ret(st, ('ref', ('B', st.ctr), ()))
@model('Box::<T>::new', 'Rc::<T>::new', 'Arc::<T>::new')
def m_boxnew(E, st, c, a, dty, d, w):
    return ret(st, ('ref', newcell(E, st, a[0]), ()))
@model('<impl [T]>::contains')
def m_contains(E, st, c, a, dty, d, w):
    it = mkit(E, st, a[0], 'ref')
    if it is None: return None
    want = a[1]
    sv = E.seqof(E.read(st, it[2], it[3]))
    cs = ('b', False)
    for s in sv[1]:
        if s[0] == 'e': e = E.eqv(st, s[1], want)
        else: e = ('s', E.sym(('contains', segkey(E, s), E.freeze(st, want)), 'bool'))
        if e == ('b', True): return ret(st, e)
        if e == ('b', False): continue
        cs = e if cs == ('b', False) else ('c', 'or', cs, e)
    return ret(st, cs)
@model('<impl [T]>::reverse')
def m_reverse(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    if all(s[0] == 'e' for s in sv[1]): E.write(st, loc[0], loc[1], ('seq', tuple(reversed(sv[1])))); return ret(st, UNIT)
    E.write(st, loc[0], loc[1], ('seq', (('rev', sv),))); return ret(st, UNIT)

# ---- byte buffers
@model('BufMut::put_u8', 'BufMut::put_i8')
def m_put8(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0])
    if sv is None: return None
    E.write(st, loc[0], loc[1], ('seq', sv[1] + (('e', E.toint(a[1])),))); return ret(st, UNIT)
def puts(n, endian):
    @model(*['BufMut::put_' + x for x in n])
    def f(E, st, c, a, dty, d, w):
        # destination: Vec (append) or &mut [u8] (overwrite)
        v = a[0]; k = 0; loc = None
        while E.isref(v) and k < 12:
            loc = E.loc(st, v)
            if loc[1] and type(loc[1][-1]) is tuple and loc[1][-1][0] == 'from': break
            v = E.read(st, *loc); k += 1
        val = E.toint(a[1])
        if loc and loc[1] and type(loc[1][-1]) is tuple and loc[1][-1][0] == 'from':
            pos = loc[1][-1][1]; base = (loc[0], loc[1][:-1])
            sv = E.seqof(E.read(st, *base)); pre = I(0); segs = list(sv[1])
            for j, s in enumerate(segs):
                if s[0] == 'w2' and lin_const(lin_add(pos, pre, -1)) == 0:
                    segs[j] = ('w2', val, endian); E.write(st, base[0], base[1], ('seq', tuple(segs))); st.event(('set', pos, val, endian)); return ret(st, UNIT)
                pre = lin_add(pre, E.slen(s))
            st.event(('patch', pos, val, endian)); return ret(st, UNIT)
        sv = E.seqof(v)
        if sv is None or loc is None: return None
        E.write(st, loc[0], loc[1], ('seq', sv[1] + (('w2', val, endian),))); return ret(st, UNIT)
puts(('put_i16', 'put_u16'), 'be') if False else puts(('i16', 'u16'), 'be')
puts(('i16_le', 'u16_le', 'i16_ne', 'u16_ne'), 'le')
@model('BufMut::put_slice')
def m_putslice(E, st, c, a, dty, d, w):
    loc, sv = vtarget(E, st, a[0]); l2, s2 = vtarget(E, st, a[1])
    if sv is None or s2 is None or loc is None: return None
    E.write(st, loc[0], loc[1], ('seq', sv[1] + s2[1])); return ret(st, UNIT)
@model('<impl i16>::to_be_bytes', '<impl i16>::to_le_bytes', '<impl u16>::to_be_bytes', '<impl u16>::to_le_bytes')
def m_tobytes(E, st, c, a, dty, d, w):
    return ret(st, ('seq', (('w2', E.toint(a[0]), 'be' if 'to_be' in (c.get('def') or '') else 'le'),)))

# ------------------------------------------------------------------ generic values
@model('core::mem::take')
def m_take(E, st, c, a, dty, d, w):
    loc = E.loc(st, a[0]); v = E.read(st, *loc)
    if v is None: return None
    dv = default_like(E, st, v, dty)
    if dv is None: return None
    E.write(st, loc[0], loc[1], dv); return ret(st, v)
def default_like(E, st, v, ty):
    if 'vec::Vec<' in ty.split('<')[0] + '<': return ('seq', ())
    if ty == 'alloc::string::String' or ty == '&str': return ('str', '')
    if ty == 'bool': return ('b', False)
    if E.kind(ty) == 'int' or is_i(v): return I(0)
    if ty.startswith('core::option::Option'): return none(ty)
    if v[0] == 'seq': return ('seq', ())
    vs = E.P.variants(ty)
    if vs and len(vs) == 1:
        fs = []
        for i, (n, t) in enumerate(vs[0]['f']):
            x = default_like(E, st, E.proj(st, v, i, 0) or UNIT, t)
            if x is None: return None
            fs.append(x)
        return ('adt', ty, 0, tuple(fs))
    if 'Hash' in ty: return ('s', E.sym(('empty', ty), ty))
    return None
@model('core::mem::replace')
def m_replace(E, st, c, a, dty, d, w):
    loc = E.loc(st, a[0]); v = E.read(st, *loc); E.write(st, loc[0], loc[1], a[1]); return ret(st, v)
@model('core::mem::swap')
def m_swap(E, st, c, a, dty, d, w):
    l1 = E.loc(st, a[0]); l2 = E.loc(st, a[1]); x = E.read(st, *l1); y = E.read(st, *l2)
    E.write(st, l1[0], l1[1], y); E.write(st, l2[0], l2[1], x); return ret(st, UNIT)
@model('core::mem::drop', 'core::hint::must_use', 'core::hint::black_box', 'core::convert::identity')
def m_id1(E, st, c, a, dty, d, w): return ret(st, UNIT if (c.get('fn') or '').endswith('drop') else a[0])

def local_default(c): return (c.get('inst') or '')
@model(pred=lambda c: c.get('meth') == 'clone' or (c.get('fn') or '').endswith('Clone::clone'))
def m_clone(E, st, c, a, dty, d, w):
    if c.get('inst') in E.F and not (E.F[c['inst']].get('derived') or c.get('derived')): return None
    v = E.deref(st, a[0]) if E.isref(a[0]) else a[0]
    if v is not None and v[0] == 'slice': v = slice_view(E, st, v)
    return ret(st, deep(E, st, v))
def deep(E, st, v, n=0):
    """copy of a value whose boxed parts are copied too"""
    if v is None or n > 6: return v
    if v[0] == 'ref' and v[1][0] == 'B':
        x = E.read(st, v[1], v[2]); return ('ref', newcell(E, st, deep(E, st, x, n + 1)), ())
    return v
IDENT = ('ToOwned>::to_owned', 'ToOwned::to_owned', '<impl str>::to_string', 'String::as_str', 'ToOwned for str>::to_owned',
         'String as core::ops::deref::Deref>::deref', 'Vec<T, A> as core::ops::deref::Deref>::deref', 'Vec<T, A> as core::ops::deref::DerefMut>::deref_mut',
         'AsRef<str>>::as_ref', 'AsRef<[T]>>::as_ref', 'Borrow<str>>::borrow', 'String::into_boxed_str', 'Box<T, A> as core::ops::deref::Deref>::deref', 'String::as_mut_str',
         '<T as core::convert::Into<U>>::into', 'From<T>>::from', 'From<&str>>::from', 'From<&alloc::string::String>>::from', 'for alloc::boxed::Box<[T], A>>::from', 'String as core::convert::From<&str>>::from', 'AsRef<T>>::as_ref', 'Rc<T, A> as core::ops::deref::Deref>::deref',
         'Option::<T>::as_deref_ident')
@model(*IDENT)
def m_identity(E, st, c, a, dty, d, w):
    if c.get('inst') in E.F: return None
    df = c.get('def') or ''
    if df.endswith('into') or 'From<' in df:
        v = E.strip(st, a[0])
        if 'string::String' in dty or dty.startswith('&str') or 'Box<str' in dty: return ret(st, v)
        if df.endswith('From<T>>::from') or (v is not None and v[0] == 'adt' and v[1] == dty) or (v is not None and v[0] == 's' and E.symty[v[1]] == dty): return ret(st, a[0])
        if 'Box<[' in dty: return ret(st, v)
        return None
    if 'Deref' in df or 'as_ref' in df or 'borrow' in df or 'as_str' in df:
        # reference to the same contents
        v = a[0]
        if E.isref(v) and E.isref(E.deref(st, v)) and 'Box<' in df: return ret(st, E.deref(st, v))
        return ret(st, v)
    return ret(st, E.strip(st, a[0]))
@model('ToString>::to_string', 'ToString::to_string')
def m_tostring(E, st, c, a, dty, d, w):
    v = E.strip(st, a[0])
    if v is not None and (v[0] == 'str' or (v[0] == 's' and E.deref_ty(E.symty[v[1]]) in ('alloc::string::String', 'str'))): return ret(st, v)
    return ret(st, ('s', E.sym(('display', E.freeze(st, v)), 'alloc::string::String')))
@model(pred=lambda c: (c.get('fn') or '').endswith(('PartialEq::eq', 'PartialEq::ne')) or ('PartialEq' in (c.get('def') or '') and (c.get('def') or '').endswith(('::eq', '::ne'))))
def m_eq(E, st, c, a, dty, d, w):
    if c.get('inst') in E.F and not (E.F[c['inst']].get('derived') or c.get('derived')): return None
    ne = (c.get('fn') or '').endswith('ne')
    x, y = E.strip(st, a[0]), E.strip(st, a[1])
    # element-wise comparison of two sequences
    r = E.eqv(st, x, y)
    return ret(st, E.NOT(r) if ne else r)
def ordinal(E, st, v):
    """place of a value in its order: values of field-less enums compare by declaration"""
    if v is not None and v[0] == 'adt' and not v[3]: return I(v[2])
    return E.toint(v)
@model(pred=lambda c: any((c.get('fn') or '').endswith('PartialOrd::' + x) or (c.get('def') or '').endswith('::' + x) and 'PartialOrd' in (c.get('def') or '') for x in ('lt', 'le', 'gt', 'ge')))
def m_ord(E, st, c, a, dty, d, w):
    if c.get('inst') in E.F: return None
    x, y = (ordinal(E, st, E.strip(st, z)) for z in a[:2])
    op = {'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[(c.get('fn') or '')[-2:]]
    return ret(st, E.cmp(op, x, y))
@model('Ord for isize>::cmp', 'Ord for usize>::cmp', 'Ord for u8>::cmp', 'Ord::cmp')
def m_cmp(E, st, c, a, dty, d, w):
    if c.get('inst') in E.F: return None
    x, y = E.toint(E.strip(st, a[0])), E.toint(E.strip(st, a[1]))
    if x is None or y is None or x[0] != 'i' or y[0] != 'i': return None
    out = []; vs = E.P.variants(dty) or [{'n': 'Less'}, {'n': 'Equal'}, {'n': 'Greater'}]
    df = lin_add(x, y, -1)
    for s, b in E.branch(st, E.eq0(df)):
        if b: out.append(('ret', s, ('adt', dty, 1, ()))); continue
        for s2, g in E.branch(s, E.ge0(df)): out.append(('ret', s2, ('adt', dty, 2 if g else 0, ())))
    return out
@model('cmp::max', 'cmp::min', 'Ord::max', 'Ord::min')
def m_maxmin(E, st, c, a, dty, d, w):
    x, y = E.toint(a[0]), E.toint(a[1])
    if x is None or y is None or x[0] != 'i' or y[0] != 'i': return None
    mx = (c.get('fn') or '').endswith('max')
    r = E.decide(st, E.ge0(lin_add(x, y, -1)))
    if r is not None: return ret(st, (x if r == mx else y))
    out = []
    for s, b in E.branch(st, E.ge0(lin_add(x, y, -1))): out.append(('ret', s, x if b == mx else y))
    return out
@model('TryFrom<U>>::try_from', 'TryFrom::try_from', 'TryInto<U>>::try_into', 'TryInto::try_into', pred=None)
def m_tryfrom(E, st, c, a, dty, d, w):
    if c.get('inst') in E.F: return None
    v = E.toint(a[0])
    import re
    m = re.match(r'core::result::Result<(\w+), ', dty)
    from engine import INT_RANGE
    if v is None or v[0] != 'i' or not m or m.group(1) not in INT_RANGE: return None
    lo, hi = INT_RANGE[m.group(1)]; out = []
    for s, b in E.branch(st, E.ge0(lin_add(v, I(-lo)))):
        if not b: out.append(('ret', s, ('adt', dty, 1, (('s', E.sym(('tryfromerr', v), '?')),)))); continue
        for s2, b2 in E.branch(s, E.ge0(lin_add(I(hi), v, -1))):
            out.append(('ret', s2, ('adt', dty, 0, (v,)) if b2 else ('adt', dty, 1, (('s', E.sym(('tryfromerr', v), '?')),))))
    return out
@model('core::cmp::impls::<impl core::clone::Clone')
def m_never(E, st, c, a, dty, d, w): return None
@model(pred=lambda c: (c.get('def') or '').endswith(('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')) or (c.get('fn') or '').endswith(('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')))
def m_callclo(E, st, c, a, dty, d, w):
    args = list(a[1][1]) if a[1] is not None and a[1][0] == 'tup' else [a[1]]
    v = E.strip(st, a[0])
    if v is None or v[0] not in ('clo', 'fn'):
        if c.get('inst') in E.F: return None
    if v is not None and v[0] == 'fn' and (c.get('fn') or '').endswith('call_once') is False: pass
    return E.call_closure(st, a[0], args, dty, d)
@model('Default>::default', 'Default::default')
def m_default(E, st, c, a, dty, d, w):
    if c.get('inst') in E.F: return None
    if 'Vec<' in dty.split('<')[0] + '<': return ret(st, ('seq', ()))
    if dty == 'alloc::string::String' or dty == '&str': return ret(st, ('str', ''))
    if dty == 'bool': return ret(st, ('b', False))
    if E.kind(dty) == 'int' or dty in ('usize',): return ret(st, I(0))
    if dty.startswith('core::option::Option'): return ret(st, none(dty))
    return ret(st, ('s', E.sym(('empty', dty), dty)))
@model('String::new')
def m_strnew(E, st, c, a, dty, d, w): return ret(st, ('str', ''))
def _less(name, f):
    @model(name, pred=lambda c: (c.get('inst') or '').startswith('core::num::') and (c.get('inst') or '').endswith('::' + name))
    def m(E, st, c, a, dty, d, w):
        if len(a) != 2 or not all(x is not None and is_i(x) for x in a) or not re.match(r'core::num::<impl u', c['inst']): return None
        df = lin_add(a[0], a[1], -1)
        return [('ret', s, f(dty, df if b else None)) for s, b in E.branch(st, E.ge0(df))]
_less('saturating_sub', lambda ty, v: I(0) if v is None else v)
_less('checked_sub', lambda ty, v: none(ty) if v is None else some(ty, v))
@model(pred=lambda c: it_meth('nth')(c))
def m_nth(E, st, c, a, dty, d, w):
    it = wants_it(E, st, a[0]); n = E.toint(a[1])
    if it is None or it[1] != 'base' or it[6] == 'val' or n is None or n[0] != 'i': return None
    sv = E.seqof(E.read(st, it[2], it[3]))
    if sv is None or sorted(x[:2] for x in it[4]) != [(j, 0) for j in range(len(sv[1]))] or any(len(x) > 2 for x in it[4]): return None
    out = []
    for s, b in E.branch(st, E.ge0(lin_add(lin_add(E.seqlen(sv), n, -1), I(-1)))):
        if not b: out.append(('ret', s, none(dty))); continue
        r = m_get(E, s, c, [('ref', it[2], it[3]), lin_add(lin_add(E.seqlen(sv), n, -1), I(-1)) if it[5] else n], dty, d, w)
        if r is None: return None
        out += r
    return out
# ---- maps/sets (contents not tracked; insertions recorded)
@model('HashMap::<K, V, S, A>::insert', 'BTreeMap::<K, V, A>::insert')
def m_mapins(E, st, c, a, dty, d, w):
    return ret(st, ('s', E.sym(('map-old',), dty)))
@model('HashSet::<T, S, A>::insert', 'BTreeSet::<T, A>::insert')
def m_setins(E, st, c, a, dty, d, w):
    return ret(st, ('s', E.sym(('inserted', E.freeze(st, a[1])), 'bool')))
@model('HashSet::<T, S, A>::len', 'HashSet::<T, S>::len', 'BTreeSet::<T, A>::len')
def m_setlen(E, st, c, a, dty, d, w):
    v = a[0]; n = 0
    while E.isref(v) and n < 5: v = E.deref(st, v); n += 1
    if v is None or v[0] != 's' or E.tlist[v[1]][0] != 'setof': return None
    N, x = E.tlist[v[1]][1:]; r = ('i', 0, ((E.sym(('distinct', N, x), 'usize'), 1),))
    if not E.setrange(st, r, lo=0) or not E.setrange(st, lin_add(N, r, -1), lo=0): return []
    return ret(st, r)
@model('HashSet::<T>::with_capacity', 'HashSet::<T>::new', 'BTreeSet::<T>::new', 'HashMap::<K, V>::new', 'HashMap::<K, V>::with_capacity')
def m_setnew(E, st, c, a, dty, d, w): return ret(st, ('s', E.sym(('empty', dty), dty)))
# ---- text formatting, ids
@model(pred=lambda c: any(x in (c.get('def') or '') for x in ('core::fmt::', 'alloc::fmt::', 'uuid::', 'std::fmt::')))
def m_fmt(E, st, c, a, dty, d, w):
    if c.get('inst') in E.F: return None
    if 'uuid' in (c.get('def') or ''):
        meth = (c.get('fn') or '').split('::')[-1]
        if meth.startswith('new_v') and meth[5:6] not in ('3', '5') or 'PartialEq' in (c.get('def') or ''): return ret(st, E.fresh(st, 'uuid', dty))
        return ret(st, E.mk(('uuidof', meth, tuple(E.freeze(st, x) for x in a)), dty))
    return ret(st, E.mk(('fmt', (c.get('fn') or '').split('::')[-1], tuple(E.freeze(st, x) for x in a)), dty))
# ---- Try
@model('core::result::Result<T, E> as core::ops::try_trait::Try>::branch', 'core::option::Option<T> as core::ops::try_trait::Try>::branch')
def m_branch(E, st, c, a, dty, d, w):
    v = a[0]; isopt = 'Option<T>' in (c.get('def') or '')
    good = 1 if isopt else 0
    if v is None: return None
    vs = E.P.variants(dty); res = vs[1]['f'][0][1] if vs else '?'
    def mk(var, s, x):
        if var == good: return ('adt', dty, 0, (x,))
        return ('adt', dty, 1, (('adt', res, 0 if isopt else 1, () if isopt else (x,)),))
    if v[0] == 'adt': return ret(st, mk(v[2], st, v[3][0] if v[3] else None))
    if v[0] == 's':
        out = []
        for s, b in E.branch(st, ('c', 'isvar', v[1], good)):
            var = good if b else 1 - good
            x = E.symfield(v[1], var, 0) if not (isopt and var == 0) else None
            out.append(('ret', s, mk(var, s, x)))
        return out
    return None

@model(pred=lambda c: (c.get('def') or '').split('::')[-1][:1].isupper() and c.get('kind') != 'closure')
def m_ctor(E, st, c, a, dty, d, w):
    """a constructor used as a function"""
    n = (c.get('def') or '').split('::')[-1]
    if c.get('inst') in E.F: return None
    vs = E.P.variants(dty)
    for i, v in enumerate(vs or ()):
        if v['n'] == n and len(v['f']) == len(a): return ret(st, ('adt', dty, i, tuple(a)))
    return None

def install(E):
    E.models = MODELS
    orig = E.call_closure
    def cc(st, clo, args, dty, d):
        if clo == ('ident',): return [('ret', st, args[0])]
        return orig(st, clo, args, dty, d)
    E.call_closure = cc

@model('ToPrimitive::to_u8', 'ToPrimitive::to_i64', 'ToPrimitive::to_u64', 'ToPrimitive::to_u16', 'ToPrimitive::to_u32', 'ToPrimitive::to_usize')
def m_toprim(E, st, c, a, dty, d, w):
    v = E.strip(st, a[0])
    if v is None: return None
    if v[0] == 'adt' and not v[3]: return ret(st, some(dty, E.discr(st, v)))
    if v[0] == 's' and E.P.variants(E.symty[v[1]]): return ret(st, some(dty, ('i', 0, ((E.sym(('discr', v[1]), 'u8'), 1),))))
    if v[0] == 'i' and not v[2]: return ret(st, some(dty, v))
    return None

# pure functions of strings: the result is a function of the arguments
PURE = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase',
        'strip_prefix', 'strip_suffix', 'starts_with', 'ends_with', 'replace', 'repeat', 'is_char_boundary', 'eq_ignore_ascii_case')
@model(pred=lambda c: '<impl str>::' in (c.get('fn') or '') and (c.get('fn') or '').split('::')[-1] in PURE)
def strpure(E, st, c, a, dty, d, w):
    return ret(st, E.mk(('strop', c['fn'].split('::')[-1]) + tuple(E.freeze(st, x) for x in a), dty))

# ------------------------------------------------------------------ arithmetic on known numbers
def _wrap(name, f):
    @model(name, pred=lambda c: (c.get('inst') or '').startswith('core::num::') and (c.get('inst') or '').endswith('::' + name))
    def m(E, st, c, a, dty, d, w):
        if dty not in INT_RANGE or len(a) != 2 or not all(x is not None and is_i(x) and lin_const(x) is not None for x in a): return None
        lo, hi = INT_RANGE[dty]
        return [('ret', st, I((f(lin_const(a[0]), lin_const(a[1])) - lo) % (hi - lo + 1) + lo))]
for _n, _f in (('wrapping_add', lambda x, y: x + y), ('wrapping_sub', lambda x, y: x - y), ('wrapping_mul', lambda x, y: x * y)): _wrap(_n, _f)

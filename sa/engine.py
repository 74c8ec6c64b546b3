"""Path-sensitive abstract interpreter over the MIR dump.

Values are abstract terms (nothing of the program is executed):
  ('i', c, ((sym,coef),..))   linear integer        ('b', bool)   known bool
  ('s', id)                   opaque symbol (term)  ('c', op, ..) condition term
  ('str', text) ('fl', x)     literals
  ('adt', ty, variant, fields) ('tup', fields) ('clo', fn, captures) ('fn', constdict-key)
  ('ref', cell, path)         reference to a place  ('box', value) reference to an immutable value
  ('seq', segs)               Vec / slice / array: ('e',v) | ('sym',id,elemty,dropped,over) |
                              ('rep',loopid,loc,count) | ('w2',v,endian) | ('child',id,...) | other tagged segs
  ('it', ..)                  iterator (see models.py)
  ('d', id, ty)               discriminant of a symbol
Loops are summarised once per sequence segment (see Engine.loop_driver); joins happen at call returns.
"""
import json, struct, glob, os, sys

sys.setrecursionlimit(20000)

class Budget(Exception): pass

UNIT = ('tup', ())
def I(c): return ('i', c, ())
def is_i(v): return type(v) is tuple and v[0] == 'i'

def lin_add(a, b, kb=1):
    if not b[2]: return ('i', a[1] + kb * b[1], a[2])
    d = dict(a[2])
    for s, k in b[2]:
        n = d.get(s, 0) + kb * k
        if n: d[s] = n
        else: d.pop(s, None)
    return ('i', a[1] + kb * b[1], tuple(sorted(d.items())))
def lin_scale(a, k):
    if k == 0: return I(0)
    return ('i', a[1] * k, tuple((s, c * k) for s, c in a[2]))
def lin_const(v): return v[1] if v[0] == 'i' and not v[2] else None

INT_RANGE = {'u8': (0, 255), 'i8': (-128, 127), 'u16': (0, 65535), 'i16': (-32768, 32767), 'u32': (0, 2**32 - 1),
             'i32': (-2**31, 2**31 - 1), 'u64': (0, 2**64 - 1), 'i64': (-2**63, 2**63 - 1), 'usize': (0, 2**64 - 1),
             'isize': (-2**63, 2**63 - 1), 'char': (0, 0x10ffff), 'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1)}
WIDE = {'u64', 'usize', 'i64', 'isize', 'u128', 'i128'}

class State:
    __slots__ = ('mem', 'facts', 'ctr', 'gen', 'ev', 'aux')
    def __init__(self):
        self.mem = {}; self.facts = {}; self.ctr = 0; self.gen = {}; self.ev = None; self.aux = {}
    def fork(self):
        n = State.__new__(State)
        n.mem = dict(self.mem); n.facts = dict(self.facts); n.ctr = self.ctr
        n.gen = dict(self.gen); n.ev = self.ev; n.aux = dict(self.aux)
        return n
    def event(self, e): self.ev = (self.ev, e)
    def events(self):
        out = []; e = self.ev
        while e is not None: out.append(e[1]); e = e[0]
        out.reverse(); return out

class Prog:
    """The dumped program."""
    def __init__(self, d):
        self.F = {}; self.T = {}; self.C = {}; self.generics = []; self.complete = set()
        for f in sorted(glob.glob(os.path.join(d, '*.jsonl'))):
            for l in open(f):
                o = json.loads(l); k = o['k']
                if k == 'fn':
                    self.F[o['name']] = o
                elif k == 'ty': 
                    if o['name'] not in self.T or o.get('variants'): self.T[o['name']] = o
                elif k == 'const': self.C[o['name']] = o
                elif k == 'generic': self.generics.append(o)
                elif k == 'end': self.complete.add(o['crate'])
        self.info = {}
        self.short = {}
    def variants(self, ty):
        t = self.T.get(ty)
        return t.get('variants') if t else None

    # ---- per-function control-flow facts
    def cfg(self, name):
        r = self.info.get(name)
        if r is not None: return r
        f = self.F[name]; B = f['blocks']; n = len(B)
        succ = []
        for b in B:
            t = b['t']; k = t[0]
            if k == 'goto': s = [t[1]]
            elif k == 'switch': s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop': s = [t[1]]
            elif k == 'call': s = [t[4]] if t[4] is not None else []
            elif k == 'assert': s = [t[3]]
            else: s = []
            succ.append(s)
        # reachable + dominators (iterative)
        order = []; seen = set()
        def dfs(x):
            st = [(x, iter(succ[x]))]; seen.add(x)
            while st:
                y, it = st[-1]
                for z in it:
                    if z not in seen:
                        seen.add(z); st.append((z, iter(succ[z]))); break
                else:
                    order.append(y); st.pop()
        dfs(0); order.reverse()
        pos = {b: i for i, b in enumerate(order)}
        preds = {b: [] for b in order}
        for b in order:
            for s in succ[b]:
                if s in preds: preds[s].append(b)
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom]
                d = ps[0]
                for p in ps[1:]:
                    x, y = d, p
                    while x != y:
                        while pos[x] > pos[y]: x = idom[x]
                        while pos[y] > pos[x]: y = idom[y]
                    d = x
                if idom.get(b) != d: idom[b] = d; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        loops = {}
        for b in order:
            for s in succ[b]:
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(preds[x])
        # liveness of locals (only needed at loop headers)
        live = {}
        if loops:
            borrowed = set(); use = []; defs = []
            def plu(p, u):
                u.add(p[0])
                for e in p[1]:
                    if e[0] == 'i': u.add(e[1])
            def opu(o, u):
                if o[0] in ('c', 'm'): plu(o[1], u)
            for b in B:
                u = set(); d = set()
                def add_use(s):
                    u.update(x for x in s if x not in d)
                for s in b['s']:
                    if s[0] == '=':
                        t = set(); r = s[2]; k = r[0]
                        if k == 'use': opu(r[1], t)
                        elif k == 'ref':
                            plu(r[1], t)
                            if not any(e[0] == '*' for e in r[1][1]): borrowed.add(r[1][0])
                        elif k == 'cast': opu(r[2], t)
                        elif k == 'bin': opu(r[2], t); opu(r[3], t)
                        elif k == 'un': opu(r[2], t)
                        elif k == 'discr': plu(r[1], t)
                        elif k == 'agg':
                            for o in r[2]: opu(o, t)
                        elif k == 'repeat': opu(r[1], t)
                        add_use(t)
                        if s[1][1]: t = set(); plu(s[1], t); add_use(t)
                        else: d.add(s[1][0])
                t = b['t']; k = t[0]; q = set()
                if k == 'switch': opu(t[1], q)
                elif k == 'call':
                    opu(t[1], q)
                    for o in t[2]: opu(o, q)
                    if t[3][1]: plu(t[3], q)
                elif k == 'assert': opu(t[1], q)
                elif k == 'drop': pass
                elif k == 'return': q.add(0)
                add_use(q)
                if k == 'call' and not t[3][1]: d.add(t[3][0])
                use.append(u); defs.append(d)
            L = [set() for _ in B]; ch = True
            while ch:
                ch = False
                for b in reversed(order):
                    o = set()
                    for s in succ[b]: o |= L[s]
                    nl = use[b] | (o - defs[b])
                    if nl != L[b]: L[b] = nl; ch = True
            for h in loops: live[h] = L[h] | borrowed
        r = {'loops': loops, 'live': live, 'order': order, 'succ': succ, 'dom': dom}
        self.info[name] = r
        return r

class Engine:
    prune = None; opaque = (); under = None
    def __init__(self, prog, budget=3000000):
        self.P = prog; self.F = prog.F; self.T = prog.T
        self.terms = {}; self.tlist = []; self.symty = []
        self.reps = {}; self.searches = {}; self.loopctr = 0
        self.free = 0; self.skipped = []; self.above = None; self.generic_rounds = None; self.on_back = None; self.rebase = None; self.cutloops = {}
        self.steps = 0; self.budget = budget
        self.unknown = {}; self.narrow = {}; self.notes = {}
        self.models = []; self.hooks = []
        self.modelcache = {}
        self.reclimit = 2
        self.trace = None
        self.calls_seen = set(); self.fns_seen = set(); self.pd = 8; self.fd = 6; self.watch_push = None

    # ------------------------------------------------------------ terms
    def sym(self, term, ty):
        k = self.terms.get(term)
        if k is None:
            k = len(self.tlist); self.terms[term] = k; self.tlist.append(term); self.symty.append(ty)
        return k
    def mk(self, term, ty):
        """abstract value for an unknown of type ty"""
        t = self.T.get(ty)
        kind = t['kind'] if t else None
        if ty in INT_RANGE or kind == 'int' or ty == 'char':
            return ('i', 0, ((self.sym(term, ty), 1),))
        if kind == 'tuple':
            of = t['of']
            return ('tup', tuple(self.mk(('t', term, i), x) for i, x in enumerate(of)))
        if ty == '()': return UNIT
        return ('s', self.sym(term, ty))
    def ty_of(self, sid): return self.symty[sid]
    def fresh(self, st, kind, ty):
        st.ctr += 1
        return self.mk(('n', kind, st.ctr), ty)
    def kind(self, ty):
        t = self.T.get(ty); return t['kind'] if t else None
    def pointee(self, ty):
        t = self.T.get(ty)
        if t and t['kind'] in ('ref', 'ptr'): return t['to']
        if ty.startswith('&mut '): return ty[5:]
        if ty.startswith('&'): return ty[1:]
        return None
    def symder(self, sid):
        """cell of the pointee of a symbolic reference"""
        to = self.pointee(self.symty[sid])
        if to is None: return None
        return ('H', self.sym(('*', sid), to))
    def deref_ty(self, ty):
        while True:
            p = self.pointee(ty)
            if p is None: return ty
            ty = p

    def note(self, kind, what):
        self.notes.setdefault(kind, {})
        self.notes[kind][what] = self.notes[kind].get(what, 0) + 1

    # ------------------------------------------------------------ memory
    def cellval(self, st, cell):
        v = st.mem.get(cell)
        if v is not None: return v
        if cell[0] == 'H':
            sid = cell[1]
            ty = self.symty[sid]
            if ty in INT_RANGE: return ('i', 0, ((sid, 1),))
            if self.kind(ty) == 'tuple': return self.mk(('*t', sid), ty)
            return ('s', sid)
        if cell[0] == 'V': return cell[1]
        return None
    def seqof(self, v, hint=None):
        """view a value as a sequence"""
        if v is None: return ('seq', ())
        if v[0] == 'seq': return v
        if v[0] == 's':
            ty = self.symty[v[1]]; et = self.elemty(ty)
            return ('seq', (('sym', v[1], et, 0, ()),))
        if v[0] == 'str': return ('seq', (('strbytes', v),))
        return None
    def elemty(self, ty):
        t = self.T.get(ty)
        if t:
            if t['kind'] in ('slice', 'array'): return t.get('of')
            if t['kind'] in ('ref', 'ptr'): return self.elemty(t['to'])
            ta = t.get('targs')
            if ta: return ta[0]
        return None
    def slen(self, seg):
        k = seg[0]
        if k == 'e': return I(1)
        if k == 'w2': return I(2)
        if k == 'sym': return ('i', -seg[3], ((self.sym(('len', seg[1]), 'usize'), 1),))
        if k == 'rep': return self.replen(seg)
        if k == 'w8': return I(8)
        return ('i', 0, ((self.sym(('len', seg), 'usize'), 1),))
    def replen(self, seg):
        r = self.reps.get(seg[1])
        n = None
        if r is not None and r.get('alts') is not None:
            ls = set()
            for a in r['alts']:
                t = I(0)
                for s in a['cells'].get(seg[2], ()): t = lin_add(t, self.slen(s))
                ls.add(t)
            if len(ls) == 1:
                t = ls.pop()
                if not t[2]: n = t[1]
        if n is not None: return lin_scale(seg[3], n)
        return ('i', 0, ((self.sym(('replen', seg[1], seg[2], seg[3]), 'usize'), 1),))
    def seqlen(self, sv):
        t = I(0)
        for s in sv[1]: t = lin_add(t, self.slen(s))
        return t

    def locate(self, st, sv, idx):
        """segment index and relative position for a linear index"""
        pre = I(0); best = None
        for j, s in enumerate(sv[1]):
            L = self.slen(s); rel = lin_add(idx, pre, -1)
            if s[0] in ('e', 'w2') and lin_const(rel) is not None and 0 <= lin_const(rel) < lin_const(L): return j, rel
            if s[0] not in ('e', 'w2'):
                over = lin_add(rel, L, -1)
                co = lin_const(over); cr = lin_const(rel)
                if co is not None and co >= 0: pass
                elif cr is not None and cr < 0: pass
                elif best is None:
                    lo, hi = self.bounds(st, over)
                    if hi is not None and hi < 0: best = (j, rel)
                    else:
                        lo2, hi2 = self.bounds(st, over)
                        if lo2 is not None and lo2 >= 0: pass
                        else: best = (j, rel)
            pre = lin_add(pre, L)
        return best if best else (None, None)

    def elem(self, st, sv, j, rel):
        s = sv[1][j]
        if s[0] == 'e': return s[1]
        if s[0] == 'sym':
            for k, v in s[4]:
                if k == rel: return v
            return self.mk(('elem', s[1], rel), s[2] or '?')
        if s[0] == 'rep':
            a = self.repelems(s); tys = self.reptypes(s)
            op = bool(a) and all(x is not None and x[0] == 'adt' and x[1].endswith(self.opaque) for x in a)
            if len(set(a)) == 1 and not op and len(tys) <= 1 and None not in tys: return a[0]
            if len(tys) == 1 and None not in tys and '?' not in tys: return self.mk(('segelem', s, rel), min(tys))
        return ('s', self.sym(('segelem', s, rel), '?'))
    def reptypes(self, seg):
        r = self.reps.get(seg[1]); out = set()
        for a in (r or {}).get('alts') or ():
            for s in a['cells'].get(seg[2], ()):
                if s[0] == 'e': out.add(self.type_guess(s[1]) or '?' if s[1] is not None else '?')
                elif s[0] == 'rep': out |= self.reptypes(s)
                elif s[0] == 'sym': out.add(s[2] or None)
                elif s[0] in ('child', 'w2', 'w8'): out.add('u8')
                else: out.add(None)
        return out
    def repelems(self, seg):
        r = self.reps.get(seg[1]); out = []
        if r:
            for a in r['alts']:
                for s in a['cells'].get(seg[2], ()):
                    if s[0] == 'e': out.append(s[1])
                    elif s[0] == 'rep': out.extend(self.repelems(s))
        return out

    def proj(self, st, v, e, var):
        """one projection step on a value; var = current variant"""
        if v is None: return None
        k = v[0]
        if isinstance(e, int):
            if k == 'adt':
                if e < len(v[3]): return v[3][e]
                return None
            if k == 'tup' or k == 'clo':
                fs = v[1] if k == 'tup' else v[2]
                return fs[e] if e < len(fs) else None
            if k == 's': return self.symfield(v[1], var or 0, e)
            if k in ('ref', 'box', 'seq', 'str', 'i', 'it'): return v   # transparent wrappers (Box/NonNull/newtypes)
            return None
        if e[0] == 'x':
            sv = self.seqof(v)
            if sv is None: return None
            j, rel = self.locate(st, sv, e[1])
            if j is None: return ('s', self.sym(('idx', v if v[0] == 's' else 'seq', e[1]), self.elemty_of(sv)))
            return self.elem(st, sv, j, rel)
        if e[0] == 'seg':
            sv = self.seqof(v)
            if sv is None or e[1] >= len(sv[1]): return None
            return self.elem(st, sv, e[1], e[2])
        if e[0] == 'from': return ('slice', v, e[1])
        return None
    def elemty_of(self, sv):
        for s in sv[1]:
            if s[0] == 'sym' and s[2]: return s[2]
            if s[0] == 'e' and s[1][0] == 'adt': return s[1][1]
            if s[0] == 'e' and s[1][0] == 'i': return 'usize'
        return '?'
    def symfield(self, sid, var, i):
        ty = self.symty[sid]
        while ty and ty.endswith('>') and ty.split('<')[0].split('::')[-1] in ('Rc', 'Arc', 'Box') and not self.P.variants(ty): ty = ty[ty.index('<') + 1:-1]
        vs = self.P.variants(ty)
        fty = '?'
        if vs and var < len(vs) and i < len(vs[var]['f']): fty = vs[var]['f'][i][1]
        else:
            t = self.T.get(ty)
            if t and t['kind'] == 'closure' and t.get('up') and i < len(t['up']): fty = t['up'][i]
        return self.mk(('f', sid, var, i), fty)

    def read(self, st, cell, path):
        v = self.cellval(st, cell); var = None
        for e in path:
            if type(e) is tuple and e[0] == 'dc': var = e[1]; continue
            v = self.proj(st, v, e, var); var = None
            if v is None: return None
        return v
    def expand(self, sid, var):
        ty = self.symty[sid]; vs = self.P.variants(ty)
        if not vs or var >= len(vs): return None
        return ('adt', ty, var, tuple(self.symfield(sid, var, i) for i in range(len(vs[var]['f']))))
    def upd(self, st, v, path, new, var=None):
        if not path: return new
        e = path[0]
        if type(e) is tuple and e[0] == 'dc': return self.upd(st, v, path[1:], new, e[1])
        if v is not None and v[0] == 's' and (isinstance(e, int)):
            x = self.expand(v[1], var or 0)
            if x is not None: v = x
        if v is None:
            return new if isinstance(e, int) else None      # uninitialised wrapper (MaybeUninit)
        k = v[0]
        if isinstance(e, int):
            if k == 'adt':
                fs = list(v[3])
                while len(fs) <= e: fs.append(None)
                fs[e] = self.upd(st, fs[e], path[1:], new); return ('adt', v[1], v[2] if var is None else var, tuple(fs))
            if k == 'tup':
                fs = list(v[1]); fs[e] = self.upd(st, fs[e], path[1:], new); return ('tup', tuple(fs))
            if k == 'clo':
                fs = list(v[2]); fs[e] = self.upd(st, fs[e], path[1:], new); return ('clo', v[1], tuple(fs))
            self.note('write-through-unknown', str(k)); return self.upd(st, v, path[1:], new)
        if e[0] in ('x', 'seg'):
            sv = self.seqof(v)
            if sv is None: return v
            if e[0] == 'x': j, rel = self.locate(st, sv, e[1])
            else: j, rel = e[1], e[2]
            if j is None: self.note('write-unlocated', str(e)); return v
            s = sv[1][j]; segs = list(sv[1])
            nv = self.upd(st, self.elem(st, sv, j, rel), path[1:], new)
            if s[0] == 'e': segs[j] = ('e', nv)
            elif s[0] == 'sym':
                ov = tuple((k2, v2) for k2, v2 in s[4] if k2 != rel) + ((rel, nv),)
                segs[j] = s[:4] + (ov,)
            else:
                self.note('write-rep', str(s[0])); return v
            return ('seq', tuple(segs))
        return v
    def write(self, st, cell, path, new):
        if cell[0] == 'V': self.note('write-const', 'x'); return
        if not path: st.mem[cell] = new; return
        st.mem[cell] = self.upd(st, self.cellval(st, cell), path, new)

    def loc(self, st, v):
        """(cell, path) a reference value points to, following refs to refs is NOT done"""
        if v is None: return None
        if v[0] == 'ref': return v[1], v[2]
        if v[0] == 'box': return ('V', v[1]), ()
        if v[0] == 's':
            c = self.symder(v[1])
            if c is not None: return c, ()
        return ('V', v), ()
    def isref(self, v):
        if v is None: return False
        if v[0] in ('ref', 'box'): return True
        return v[0] == 's' and self.pointee(self.symty[v[1]]) is not None
    def deref(self, st, v):
        c, p = self.loc(st, v); return self.read(st, c, p)
    def strip(self, st, v):
        n = 0
        while self.isref(v) and n < 12:
            v = self.deref(st, v); n += 1
        return v
    def place(self, st, d, p):
        cell = (d, p[0]); path = ()
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, cell, path)
                if v is None: return None
                cell, path = self.loc(st, v)
            elif k == 'f': path += (e[1],)
            elif k == 'dc': path += (('dc', e[1]),)
            elif k == 'i':
                iv = st.mem.get((d, e[1])); path += (('x', iv),)
            elif k == 'ci':
                if not e[3]: path += (('x', I(e[1])),)
                else:
                    sv = self.seqof(self.read(st, cell, path)); path += (('x', lin_add(self.seqlen(sv), I(-e[1]))),)
            elif k == 'sub': path += (('from', I(e[1])),)
        return cell, path

    # ------------------------------------------------------------ conditions
    def bounds(self, st, lin):
        """interval of a linear term under the current facts"""
        if not lin[2]: return lin[1], lin[1]
        k0 = lin[2][0][1]; sg = 1 if k0 > 0 else -1
        d = lin[2] if sg == 1 else tuple((s, -c) for s, c in lin[2])
        r = st.facts.get(('rng', d))
        lo = hi = None
        # default from per-symbol ranges
        l = h = 0
        for s, c in d:
            if len(d) > 1: sl, sh = self.bounds(st, ('i', 0, ((s, 1),)))
            else: sl, sh = self.symrange(s)
            if c > 0:
                l = None if l is None or sl is None else l + c * sl
                h = None if h is None or sh is None else h + c * sh
            else:
                l = None if l is None or sh is None else l + c * sh
                h = None if h is None or sl is None else h + c * sl
        lo, hi = l, h
        if self.above and len(d) == 2 and d[0][1] == 1 and d[1][1] == -1:
            if (lo is None or lo < 0) and self.above(d[0][0], d[1][0]): lo = 0
            if (hi is None or hi > 0) and self.above(d[1][0], d[0][0]): hi = 0
        if r:
            if r[0] is not None and (lo is None or r[0] > lo): lo = r[0]
            if r[1] is not None and (hi is None or r[1] < hi): hi = r[1]
        if sg == 1: return (None if lo is None else lo + lin[1]), (None if hi is None else hi + lin[1])
        return (None if hi is None else lin[1] - hi), (None if lo is None else lin[1] - lo)
    def symrange(self, s):
        ty = self.symty[s]; r = INT_RANGE.get(ty)
        if r is None: return None, None
        if ty in WIDE: return (0 if r[0] == 0 else None), None
        return r
    def setrange(self, st, lin, lo=None, hi=None):
        """assume lo <= lin <= hi; False if infeasible"""
        k0 = lin[2][0][1]; sg = 1 if k0 > 0 else -1
        d = lin[2] if sg == 1 else tuple((s, -c) for s, c in lin[2])
        if lo is not None: lo -= lin[1]
        if hi is not None: hi -= lin[1]
        if sg == -1: lo, hi = (None if hi is None else -hi), (None if lo is None else -lo)
        cl, ch = self.bounds(st, ('i', 0, d))
        if lo is None or (cl is not None and cl > lo): lo = cl
        if hi is None or (ch is not None and ch < hi): hi = ch
        if lo is not None and hi is not None and lo > hi: return False
        st.facts[('rng', d)] = (lo, hi)
        return True
    def norm_dir(self, lin):
        k0 = lin[2][0][1]
        if k0 > 0: return lin
        return lin_scale(lin, -1)
    def NOT(self, c):
        if c[0] == 'b': return ('b', not c[1])
        if c[0] == 'c' and c[1] == 'not': return c[2]
        return ('c', 'not', c)
    def cmp(self, op, a, b):
        if a is None or b is None: return ('s', self.sym(('cmp?', op, a, b), 'bool'))
        if a[0] == 'b' and b[0] == 'b':
            x, y = int(a[1]), int(b[1]); return ('b', {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
        if op in ('Eq', 'Ne') and (a[0] == 'b' or b[0] == 'b'):
            c, k = (b, a) if a[0] == 'b' else (a, b)
            r = c if k[1] else self.NOT(c)
            return r if op == 'Eq' else self.NOT(r)
        a = self.toint(a); b = self.toint(b)
        if a is not None and b is not None and a[0] == 'i' and b[0] == 'i':
            d = lin_add(a, b, -1)
            if op in ('Eq', 'Ne') and len(d[2]) == 1 and abs(d[2][0][1]) == 1 and self.tlist[d[2][0][0]][:2] == ('fop', 'to_bits'):
                n = -d[1] * d[2][0][1]
                if 0 <= n < 1 << 64: return self.cmp(op, self.tlist[d[2][0][0]][2], ('fl', struct.unpack('<d', struct.pack('<Q', n))[0]))
            if op == 'Eq': return self.eq0(d)
            if op == 'Ne': return self.NOT(self.eq0(d))
            if op == 'Ge': return self.ge0(d)
            if op == 'Gt': return self.ge0(lin_add(d, I(-1)))
            if op == 'Le': return self.ge0(lin_scale(d, -1))
            if op == 'Lt': return self.ge0(lin_add(lin_scale(d, -1), I(-1)))
        if a is not None and b is not None and 'd' in (a[0], b[0]) and op in ('Eq', 'Ne'):
            if a[0] != 'd': a, b = b, a
            if b[0] == 'i' and not b[2]:
                r = self.isvar_d(a, b[1])
                return r if op == 'Eq' else self.NOT(r)
            if b[0] == 'd' and b[1] == a[1]: return ('b', op == 'Eq')
            r = ('c', 'eq') + tuple(sorted((('s', a[1]), ('s', b[1]))))
            return r if op == 'Eq' else self.NOT(r)
        if a is not None and b is not None and a[0] == 'fl' and b[0] == 'fl' : 
            x, y = a[1], b[1]; return ('b', {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
        if op == 'Ne': return self.NOT(self.cmp('Eq', a, b))
        if op == 'Eq':
            x, y = (a, b) if a[0] == 's' and self.tlist[a[1]][0] == 'fop' else (b, a)
            if x[0] == 's' and self.tlist[x[1]][0] == 'fop' and self.tlist[x[1]][1] == 'abs' and y[0] == 'fl' and y[1] == 0: return self.cmp('Eq', self.tlist[x[1]][2], y)
        if op == 'Eq' and repr(a) > repr(b): a, b = b, a
        return ('c', 'rel', op, a, b)
    def toint(self, v):
        if v is None: return None
        if v[0] == 's' and (self.symty[v[1]] in INT_RANGE): return ('i', 0, ((v[1], 1),))
        return v
    def eq0(self, d):
        if not d[2]: return ('b', d[1] == 0)
        return ('c', 'eq0', self.norm_dir(d))
    def ge0(self, d):
        if not d[2]: return ('b', d[1] >= 0)
        return ('c', 'ge0', d)
    def isvar_d(self, d, discr):
        vs = self.P.variants(d[2]) or []
        for i, v in enumerate(vs):
            if v['d'] == discr: return ('c', 'isvar', d[1], i)
        return ('b', False)
    def isvar(self, st, v, idx):
        if v[0] == 'adt': return ('b', v[2] == idx)
        if v[0] == 's': return ('c', 'isvar', v[1], idx)
        return ('s', self.sym(('isvar?', v, idx), 'bool'))

    def eqv(self, st, a, b, depth=0):
        """structural equality condition of two values (references transparent)"""
        a = self.strip(st, a); b = self.strip(st, b)
        if a is None or b is None: return ('s', self.sym(('eq?', a, b), 'bool'))
        if a == b and a[0] != 'fl': return ('b', True)
        ka, kb = a[0], b[0]
        if ka == 'i' and kb == 'i': return self.eq0(lin_add(a, b, -1))
        if ka == 'str' and kb == 'str': return ('b', a[1] == b[1])
        if ka in ('b', 'c') or kb in ('b', 'c'): return self.cmp('Eq', a, b)
        if ka == 'adt' and kb == 'adt':
            if a[2] != b[2]: return ('b', False)
            cs = [self.eqv(st, x, y, depth + 1) for x, y in zip(a[3], b[3])]
            return self.AND(cs)
        if ka == 'tup' and kb == 'tup': return self.AND([self.eqv(st, x, y) for x, y in zip(a[1], b[1])])
        if ka == 's' and kb == 'adt': a, b, ka, kb = b, a, kb, ka
        if ka == 'adt' and kb == 's':
            c0 = ('c', 'isvar', b[1], a[2])
            if not a[3]: return c0
            vs = self.P.variants(self.symty[b[1]])
            if vs:
                return self.AND([c0] + [self.eqv(st, x, self.symfield(b[1], a[2], i), depth + 1) for i, x in enumerate(a[3])])
        if ka == 'fl' and kb == 'fl': return ('b', a[1] == b[1])
        x, y = sorted((a, b), key=repr)
        return ('c', 'eq', x, y)
    def AND(self, cs):
        out = []
        for c in cs:
            if c == ('b', True): continue
            if c == ('b', False): return c
            out.append(c)
        if not out: return ('b', True)
        r = out[0]
        for c in out[1:]: r = ('c', 'and', r, c)
        return r

    def decide(self, st, c):
        if c is None: return None
        k = c[0]
        if k == 'b': return c[1]
        if k == 'i':
            if not c[2]: return c[1] != 0
            return None
        f = st.facts
        if k == 's': return f.get(c)
        if k != 'c': return None
        op = c[1]
        if op == 'not':
            r = self.decide(st, c[2]); return None if r is None else not r
        if op == 'and':
            a = self.decide(st, c[2]); b = self.decide(st, c[3])
            if a is False or b is False: return False
            if a and b: return True
            return None
        if op == 'or':
            a = self.decide(st, c[2]); b = self.decide(st, c[3])
            if a or b: return True
            if a is False and b is False: return False
            return None
        if op == 'isvar':
            x = f.get(('var', c[2]))
            if x is None: return None
            if isinstance(x, int): return x == c[3]
            if c[3] in x: return False
            vs = self.P.variants(self.symty[c[2]])
            if vs and len(x) == len(vs) - 1: return True
            return None
        if op == 'ge0':
            lo, hi = self.bounds(st, c[2])
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
            return None
        if op == 'eq0':
            lo, hi = self.bounds(st, c[2])
            if lo == 0 and hi == 0: return True
            if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
            return f.get(c)
        if op == 'eq':
            r = f.get(c)
            if r is not None: return r
            a, b = c[2], c[3]
            for x, y in ((a, b), (b, a)):
                kx = f.get(('val', x))
                if kx is not None and y[0] in ('str', 'fl'): return kx == y
            ka = f.get(('val', a)); kb = f.get(('val', b))
            if ka is not None and kb is not None: return ka == kb
            return None
        return f.get(c)
    def assume(self, st, c, val):
        r = self.decide(st, c)
        if r is not None: return r == val
        k = c[0]; f = st.facts
        if k == 's': f[c] = val; return True
        if k == 'i': return True
        op = c[1]
        if op == 'not': return self.assume(st, c[2], not val)
        if op == 'and':
            if val: return self.assume(st, c[2], True) and self.assume(st, c[3], True)
            a = self.decide(st, c[2]); b = self.decide(st, c[3])
            if a: return self.assume(st, c[3], False)
            if b: return self.assume(st, c[2], False)
            f[c] = False; return True
        if op == 'or':
            if not val: return self.assume(st, c[2], False) and self.assume(st, c[3], False)
            a = self.decide(st, c[2]); b = self.decide(st, c[3])
            if a is False: return self.assume(st, c[3], True)
            if b is False: return self.assume(st, c[2], True)
            f[c] = True; return True
        if op == 'isvar':
            key = ('var', c[2])
            if val: f[key] = c[3]; return True
            x = f.get(key) or frozenset()
            x = frozenset(x | {c[3]}); vs = self.P.variants(self.symty[c[2]])
            if vs and len(x) >= len(vs): return False
            if vs and len(x) == len(vs) - 1: f[key] = [i for i in range(len(vs)) if i not in x][0]
            else: f[key] = x
            return True
        if op == 'ge0':
            if val: return self.setrange(st, c[2], lo=0)
            return self.setrange(st, c[2], hi=-1)
        if op == 'eq0':
            if val: return self.setrange(st, c[2], lo=0, hi=0)
            lo, hi = self.bounds(st, c[2])
            if lo == 0: return self.setrange(st, c[2], lo=1)
            if hi == 0: return self.setrange(st, c[2], hi=-1)
            f[c] = False; return True
        if op == 'eq':
            f[c] = val
            if val:
                a, b = c[2], c[3]
                if b[0] in ('str', 'fl'): f[('val', a)] = b
                elif a[0] in ('str', 'fl'): f[('val', b)] = a
            return True
        f[c] = val
        return True
    def branch(self, st, c):
        """-> [(state, bool)]"""
        r = self.decide(st, c)
        if r is not None: return [(st, r)]
        s2 = st.fork(); out = []
        if self.assume(st, c, True): out.append((st, True))
        if self.assume(s2, c, False): out.append((s2, False))
        return out

    # ------------------------------------------------------------ operands / rvalues
    def const(self, k):
        if 'promoted' in k: return ('prom', k['owner'] + '#promoted%d' % k['promoted'])
        return self.cval(k['v'], k.get('ty'), k.get('name'))
    def cval(self, v, ty=None, name=None):
        if 'int' in v:
            if ty == 'bool': return ('b', bool(v['int']))
            x = v['int']
            if ty in ('f64', 'f32'):
                import struct
                return ('fl', struct.unpack('<d' if ty == 'f64' else '<f', struct.pack('<Q' if ty == 'f64' else '<I', x))[0])
            r = INT_RANGE.get(ty)
            if r and r[0] < 0 and x > r[1]: x -= (r[1] + 1) * 2
            if ty and ty not in INT_RANGE and self.kind(ty) not in ('int', 'char'):
                pass
            return I(x)
        if 'str' in v: return ('str', v['str'])
        if 'bytes' in v: return ('str', str(v['bytes']))
        if 'adt' in v:
            vs = self.P.variants(v['adt']); fs = []
            for i, x in enumerate(v['f']):
                ft = vs[v['v']]['f'][i][1] if vs and i < len(vs[v['v']]['f']) else None
                fs.append(self.cval(x, ft))
            return ('adt', v['adt'], v['v'], tuple(fs))
        if 'tuple' in v:
            of = (self.T.get(ty) or {}).get('of') or [None] * len(v['tuple'])
            return ('tup', tuple(self.cval(x, t) for x, t in zip(v['tuple'], of)))
        if 'array' in v:
            et = self.elemty(ty) if ty else None
            return ('seq', tuple(('e', self.cval(x, et)) for x in v['array']))
        if 'ref' in v: return ('box', self.cval(v['ref'], self.pointee(ty) if ty else None))
        if 'closure' in v: return ('clo', v['closure'], ())
        if 'fn' in v: return ('fn', json.dumps(v, sort_keys=True))
        if name: return ('s', self.sym(('const', name), ty or '?'))
        return ('s', self.sym(('const?', json.dumps(v)[:120], ty), ty or '?'))
    def promoted(self, st, name):
        f = self.F.get(name)
        if f is None: return ('s', self.sym(('promoted', name), '?'))
        key = ('P', name)
        if key not in st.mem:
            fd = ('pr', name)
            outs = self.run(st.fork(), name, fd, 0)
            v = None
            for o in outs:
                if o[0] == 'ret': 
                    s2 = o[1]; v = s2.mem.get((fd, 0))
                    if v is None: v = o[2]
                    # promoted bodies only build data: copy the cells they refer to
                    for c, x in s2.mem.items():
                        if c[0] == fd: st.mem[c] = x
            if v is None: v = ('s', self.sym(('promoted', name), f['locals'][0]))
            st.mem[key] = v
        return st.mem[key]
    def operand(self, st, d, o):
        if o[0] == 'k':
            v = self.const(o[1])
            if v[0] == 'prom': return self.promoted(st, v[1])
            return v
        if o[0] == 'rc': return ('b', False)
        pl = self.place(st, d, o[1])
        if pl is None: return None
        return self.read(st, pl[0], pl[1])
    def discr(self, st, v):
        if v is None: return None
        if v[0] == 'adt':
            vs = self.P.variants(v[1])
            if vs and v[2] < len(vs): return I(vs[v[2]]['d'])
            return I(v[2])
        if v[0] == 's':
            x = st.facts.get(('var', v[1])); ty = self.symty[v[1]]; vs = self.P.variants(ty)
            if isinstance(x, int) and vs: return I(vs[x]['d'])
            if not vs: return ('i', 0, ((self.sym(('discr', v[1]), 'isize'), 1),))
            return ('d', v[1], ty)
        if v[0] == 'b': return I(int(v[1]))
        return None
    def narrowing(self, st, v, fr, to, where):
        """obligation: v fits type `to`"""
        lo, hi = INT_RANGE[to]
        if not v[2]:
            c = v[1]
            if lo <= c <= hi: return v
            return ('i', (c - lo) % (hi - lo + 1) + lo, ())
        if fr in INT_RANGE and INT_RANGE[fr][0] >= lo and INT_RANGE[fr][1] <= hi: return v
        bl, bh = self.bounds(st, v)
        ok = bl is not None and bh is not None and bl >= lo and bh <= hi
        if not ok and to in WIDE and bl is not None and bl >= lo: ok = True   # sizes are assumed to stay below 2^63
        if ok: return v
        return ('i', 0, ((self.sym(('trunc', to, v), to), 1),))
    def rvalue(self, st, d, r, where):
        k = r[0]
        if k == 'use': return self.operand(st, d, r[1])
        if k == 'ref':
            pl = self.place(st, d, r[1])
            if pl is None: return None
            return ('ref', pl[0], pl[1])
        if k == 'cast':
            v = self.operand(st, d, r[2]); ck = r[1]; to = r[3]
            if ck == 'IntToInt':
                if v is None: return None
                if v[0] == 'b': return I(int(v[1]))
                if v[0] in ('c',) or (v[0] == 's' and self.symty[v[1]] == 'bool'): return ('i', 0, ((self.sym(('b2i', v), to), 1),))
                if v[0] == 'd': return ('i', 0, ((self.sym(('discr', v[1]), to), 1),))
                v = self.toint(v)
                if v[0] == 'i' and to in INT_RANGE:
                    src = self.place_ty(self.F[where[0]], r[2][1]) if r[2][0] in ('c', 'm') and where[0] in self.F else None
                    return self.narrowing(st, v, src, to, where)
                return v
            return v
        if k == 'bin':
            a = self.operand(st, d, r[2]); b = self.operand(st, d, r[3]); op = r[1]
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'): return self.cmp(op, a, b)
            a = self.toint(a); b = self.toint(b)
            if a and b and a[0] == 'i' and b[0] == 'i':
                if op in ('Add', 'AddUnchecked'): return lin_add(a, b)
                if op in ('Sub', 'SubUnchecked'):
                    v = lin_add(a, b, -1)
                    if self.under is not None: self.underflow(st, v, r, where)
                    return v
                if op in ('Mul', 'MulUnchecked'):
                    if not a[2]: return lin_scale(b, a[1])
                    if not b[2]: return lin_scale(a, b[1])
                if op in ('AddWithOverflow', 'SubWithOverflow'): return ('tup', (lin_add(a, b, 1 if op[0] == 'A' else -1), ('b', False)))
                if not a[2] and not b[2]:
                    try:
                        if op == 'BitAnd': return I(a[1] & b[1])
                        if op == 'BitOr': return I(a[1] | b[1])
                        if op == 'BitXor': return I(a[1] ^ b[1])
                        if op == 'Shl': return I(a[1] << b[1])
                        if op == 'Shr': return I(a[1] >> b[1])
                        if op == 'Div': return I(a[1] // b[1])
                        if op == 'Rem': return I(a[1] % b[1])
                    except Exception: pass
                ty = 'usize'
                return ('i', 0, ((self.sym(('op', op, a, b), ty), 1),))
            if op == 'BitAnd' and a and b:
                return self.AND([a, b])
            if op == 'BitOr' and a and b:
                if a == ('b', True) or b == ('b', True): return ('b', True)
                if a == ('b', False): return b
                if b == ('b', False): return a
                return ('c', 'or', a, b)
            return ('s', self.sym(('op', op, a, b), '?'))
        if k == 'un':
            v = self.operand(st, d, r[2])
            if v is None: return None
            if r[1] == 'Not':
                if v[0] == 'i': return ('i', 0, ((self.sym(('op', 'Not', v), 'u64'), 1),)) if v[2] else I(~v[1])
                return self.NOT(v)
            if r[1] == 'Neg' and v[0] == 'i': return lin_scale(v, -1)
            if r[1] == 'Neg' and v[0] == 'fl': return ('fl', -v[1])
            if r[1] == 'PtrMetadata':
                sv = self.seqof(self.strip(st, v))
                if sv is not None: return self.seqlen(sv)
            return ('s', self.sym(('un', r[1], v), '?'))
        if k == 'discr':
            pl = self.place(st, d, r[1])
            if pl is None: return None
            return self.discr(st, self.read(st, pl[0], pl[1]))
        if k == 'agg':
            ops = tuple(self.operand(st, d, o) for o in r[2]); a = r[1]
            if a[0] == 'adt':
                return ('adt', a[1], a[2], ops)
            if a[0] == 'tuple': return ('tup', ops)
            if a[0] == 'array': return ('seq', tuple(('e', o) for o in ops))
            if a[0] == 'closure': return ('clo', a[1], ops)
            return ('s', self.sym(('agg', str(a), ops), '?'))
        if k == 'repeat':
            v = self.operand(st, d, r[1])
            return ('s', self.sym(('repeat', v, str(r[2:])), '?'))
        if k == 'len':
            pl = self.place(st, d, r[1]); sv = self.seqof(self.read(st, *pl)); return self.seqlen(sv)
        return None

    # ------------------------------------------------------------ execution of one body
    def call_body(self, st, name, args, depth, ret_frames=True):
        f = self.F[name]
        self.fns_seen.add(name)
        fd = depth + 1
        for i, a in enumerate(args): st.mem[(fd, i + 1)] = a
        if f.get('spread') is not None and f.get('closure') and len(args) > 1:
            pass
        outs = self.run(st, name, fd, 0)
        res = []
        for o in outs:
            s = o[1]
            for l in range(len(f['locals'])): s.mem.pop((fd, l), None)
            res.append(o)
        return self.merge(res)
    mergelimit = 400
    def join_facts(self, a, b, lossy):
        """facts of two otherwise equal outcomes; None if joining them would lose a distinction"""
        diff = [k for k in a if k not in b or b[k] != a[k]]; more = [k for k in b if k not in a]
        if not lossy:
            if not diff: return dict(a)
            if not more and all(k not in b for k in diff): return dict(b)
            if len(diff) == 1 and not more:
                k = diff[0]; v, w = a[k], b[k]
                if isinstance(v, bool) and isinstance(w, bool): return {x: y for x, y in a.items() if x != k}
            return None
        nf = {}
        for k, v in a.items():
            w = b.get(k)
            if w == v: nf[k] = v
            elif k[0] == 'var' and w is not None:
                if isinstance(v, frozenset) and isinstance(w, frozenset): nf[k] = v & w
                elif isinstance(v, frozenset) and w not in v: nf[k] = v
                elif isinstance(w, frozenset) and v not in w: nf[k] = w
        return nf
    def merge(self, outs):
        if len(outs) < 2: return outs
        res = []
        for o in outs:
            for r in res:
                if r[0] == o[0] and r[2] == o[2] and r[1].mem == o[1].mem and r[1].gen == o[1].gen and r[1].ev is o[1].ev and r[1].aux == o[1].aux:
                    a, b = r[1].facts, o[1].facts
                    if a != b:
                        nf = self.join_facts(a, b, len(res) > self.mergelimit)
                        if nf is None: continue
                        r[1].facts = nf
                    r[1].ctr = max(r[1].ctr, o[1].ctr)
                    break
            else: res.append(o)
        return res

    def run(self, st, name, d, bb, loop=None):
        """execute blocks of `name` from bb. loop=(header, body): stop at the back edge / loop exits."""
        f = self.F[name]; B = f['blocks']; cfg = self.P.cfg(name); loops = cfg['loops']
        out = []; work = [(st, bb, True)]
        while work:
            st, bb, first = work.pop()
            while True:
                if loop is not None and not first:
                    if bb == loop[0]: out.append(('back', st, None)); break
                    if bb not in loop[1]: out.append(('exit', st, bb)); break
                if bb in loops and not (loop is not None and first and bb == loop[0]):
                    for o in self.loop_driver(st, name, d, bb):
                        if o[0] == 'exit': work.append((o[1], o[2], False))
                        else: out.append(o)
                    break
                first = False
                b = B[bb]
                self.steps += len(b['s']) + 1
                if self.steps > self.budget: raise Budget()
                for s in b['s']:
                    k = s[0]
                    if k == '=':
                        v = self.rvalue(st, d, s[2], (name, s[3] if len(s) > 3 else None))
                        p = s[1]
                        if not p[1]:
                            if v is None: st.mem.pop((d, p[0]), None)
                            else: st.mem[(d, p[0])] = v
                        else:
                            pl = self.place(st, d, p)
                            if pl is not None: self.write(st, pl[0], pl[1], v)
                    elif k == 'sd':
                        pl = self.place(st, d, s[1]); v = self.read(st, *pl)
                        if v and v[0] == 'adt': self.write(st, pl[0], pl[1], ('adt', v[1], s[2], v[3]))
                        else: self.write(st, pl[0], pl[1], ('adt', '?', s[2], ()))
                t = b['t']; k = t[0]
                if k == 'goto': bb = t[1]; continue
                if k == 'drop': bb = t[1]; continue
                if k == 'return':
                    out.append(('ret', st, st.mem.get((d, 0), UNIT))); break
                if k == 'switch':
                    succs = self.switch(st, self.operand(st, d, t[1]), t[2], t[3])
                    if len(succs) == 1: st, bb = succs[0]; continue
                    for x in succs[1:]: work.append((x[0], x[1], False))
                    if not succs: break
                    st, bb = succs[0]; continue
                if k == 'assert':
                    c = self.operand(st, d, t[1])
                    if t[4] == 'other': bb = t[3]; continue
                    if c is None: bb = t[3]; continue
                    brs = self.branch(st, c); nxt = None
                    for s2, v in brs:
                        if v == bool(t[2]): nxt = s2
                        else: out.append(('panic', s2, ('assert', t[4], name)))
                    if nxt is None: break
                    st = nxt; bb = t[3]; continue
                if k == 'call':
                    fo = t[1]; args = [self.operand(st, d, a) for a in t[2]]
                    if fo[0] == 'k':
                        callee = fo[1]['v']
                    else:
                        callee = self.operand(st, d, fo)
                        if callee is not None and callee[0] == 'fn': callee = json.loads(callee[1])
                        else: callee = {'fn': 'INDIRECT', 'def': 'INDIRECT', 'inst': None, 'ind': callee}
                    dest = t[3]; dty = self.place_ty(f, dest)
                    res = self.call(st, callee, args, dty, d, (name, b.get('l')), diverges=t[4] is None)
                    nxt = []
                    for o in res:
                        if o[0] == 'ret':
                            if t[4] is None: out.append(('panic', o[1], ('diverge', callee.get('def'), name))); continue
                            s2 = o[1]
                            if not dest[1]:
                                if o[2] is None: s2.mem.pop((d, dest[0]), None)
                                else: s2.mem[(d, dest[0])] = o[2]
                            else:
                                pl = self.place(s2, d, dest)
                                if pl is not None: self.write(s2, pl[0], pl[1], o[2])
                            nxt.append(s2)
                        else: out.append(o)
                    if not nxt: break
                    for s2 in nxt[1:]: work.append((s2, t[4], False))
                    st = nxt[0]; bb = t[4]; continue
                break   # unreachable / resume / other
        return out
    def underflow(self, st, v, r, where):
        """a length from which more is taken away than it is known to have"""
        if len(v[2]) != 1 or v[2][0][1] != 1 or v[1] >= 0: return
        t = self.tlist[v[2][0][0]]
        if t[0] != 'len' or self.bounds(st, v)[0] != v[1]: return
        f = self.F.get(where[0])
        if f is None or not any(x[0] in ('c', 'm') and self.place_ty(f, x[1]) in ('usize', 'u64', 'u32') for x in r[2:4]): return
        self.under.setdefault(where, self.pv(v))
    def place_ty(self, f, p):
        if p[1]:
            e = p[1][-1]
            if e[0] == 'f' and len(e) > 2: return e[2]
            if e[0] == '*': return self.pointee(f['locals'][p[0]]) if len(p[1]) == 1 else '?'
            return '?'
        return f['locals'][p[0]]
    def switch(self, st, v, arms, other):
        if v is None: return []
        if v[0] == 'b': v = I(int(v[1]))
        if v[0] == 's' and self.symty[v[1]] == 'bool' or v[0] == 'c':
            out = []
            tgt = {0: other, 1: other}
            for a in arms: tgt[a[0]] = a[1]
            for s2, r in self.branch(st, v): out.append((s2, tgt[int(r)]))
            return out
        v = self.toint(v)
        if v[0] == 'i':
            if not v[2]:
                c = v[1]
                for a, b in arms:
                    if a == c or (c < 0 and a - 2**64 == c) or (c < 0 and a == c + 2**8) or (c < 0 and a == c + 2**128): return [(st, b)]
                return [(st, other)]
            out = []; cur = st
            for a, b in arms:
                c = self.eq0(lin_add(v, I(-a)))
                s2 = cur.fork()
                if self.assume(s2, c, True): out.append((s2, b))
                if not self.assume(cur, c, False): return out
            out.append((cur, other)); return out
        if v[0] == 'd':
            out = []; cur = st
            for a, b in arms:
                c = self.isvar_d(v, a)
                s2 = cur.fork()
                if self.assume(s2, c, True): out.append((s2, b))
                if not self.assume(cur, c, False): return out
            vs = self.P.variants(v[2])
            if vs and len(arms) >= len(vs): return out
            out.append((cur, other)); return out
        self.note('switch-unknown', v[0])
        return [(st.fork(), b) for b in dict.fromkeys([a[1] for a in arms] + [other])]

    # ------------------------------------------------------------ loops
    def loop_driver(self, st, name, d, h, unroll=0):
        cfg = self.P.cfg(name); body = cfg['loops'][h]; live = cfg['live'][h]
        f = self.F[name]
        for l in range(len(f['locals'])):
            if l not in live: st.mem.pop((d, l), None)
        trial = st.fork(); trial.aux = dict(trial.aux); trial.aux['symnext'] = None; trial.aux['defnext'] = 0
        saved = dict(st.aux)
        outs = self.run(trial, name, d, h, (h, body))
        backs = [o for o in outs if o[0] == 'back']; exits = [o for o in outs if o[0] != 'back']
        for o in outs:
            sn = o[1].aux.get('symnext'); dn = o[1].aux.get('defnext')
            o[1].aux = {**{k: v for k, v in o[1].aux.items() if k not in ('symnext', 'defnext')}, 'symnext': saved.get('symnext'), 'defnext': saved.get('defnext', 0), '_sn': sn, '_dn': dn}
        if not backs:
            for o in exits: o[1].aux.pop('_sn', None); o[1].aux.pop('_dn', None)
            return exits
        sn = None
        sns = [o[1].aux['_sn'] for o in backs if o[1].aux['_sn'] is not None]
        for x in sns:      # the segment the iterator stands at
            if x[1] is not None and x[0] in self.headkeys(self.read(st, x[1], x[2])): sn = x; break
        if sn is None and sns: sn = sns[0]
        defn = all(o[1].aux['_dn'] for o in backs)
        for o in outs: o[1].aux.pop('_sn', None); o[1].aux.pop('_dn', None)
        if sn is None and defn and unroll < 80:
            res = list(exits)
            bs = self.merge([('ret', o[1], None) for o in backs])
            for o in bs: res.extend(self.loop_driver(o[1], name, d, h, unroll + 1))
            return res
        if sn is None and self.generic_rounds is not None:
            # loops that no iterator drives are followed for a number of rounds
            res = list(exits)
            for o in backs:
                if self.rebase:
                    s2 = self.rebase(self, st, o[1], name, d, h, unroll)
                    if s2 is not None: res.extend(self.loop_driver(s2, name, d, h, unroll + 1))
                    continue
                if self.on_back: self.on_back(self, st, o[1], name, h, unroll)
                if unroll < self.generic_rounds: res.extend(self.loop_driver(o[1], name, d, h, unroll + 1))
                else: self.cutloops[name] = self.cutloops.get(name, 0) + 1
            return res
        self.loopctr += 1; lid = self.loopctr
        def body_fn(s):
            outs = self.run(s, name, d, h, (h, body))
            return [o[1] for o in outs if o[0] == 'back'], [o for o in outs if o[0] != 'back']
        def drop_dead(s):
            for l in range(len(f['locals'])):
                if l not in live: s.mem.pop((d, l), None)
        res, after = self.summarise(st, body_fn, sn, lid, drop_dead)
        if after is not None:
            res = res + self.loop_driver(after, name, d, h, unroll + 1)
        return res

    def gen_value(self, v0, vs, K, lid, path, forced):
        """widen v0 against the values vs seen after one iteration -> generalised value"""
        if all(v == v0 for v in vs): return v0
        if path in forced: return self.widen(v0, vs, lid, path)
        if v0 is None: return None
        k = v0[0]
        if k == 'i' and all(v is not None and v[0] == 'i' for v in vs):
            ds = {lin_add(v, v0, -1) for v in vs}
            if len(ds) == 1:
                dd = ds.pop()
                if not dd[2]: return lin_add(v0, lin_scale(K, dd[1]))
            return self.widen(v0, vs, lid, path)
        if k == 'adt' and all(v is not None and v[0] == 'adt' and v[2] == v0[2] and len(v[3]) == len(v0[3]) for v in vs):
            return ('adt', v0[1], v0[2], tuple(self.gen_value(x, [v[3][i] for v in vs], K, lid, path + (i,), forced) for i, x in enumerate(v0[3])))
        if k == 'tup' and all(v is not None and v[0] == 'tup' for v in vs):
            return ('tup', tuple(self.gen_value(x, [v[1][i] for v in vs], K, lid, path + (i,), forced) for i, x in enumerate(v0[1])))
        if k == 'clo' and all(v is not None and v[0] == 'clo' and v[1] == v0[1] for v in vs):
            return ('clo', v0[1], tuple(self.gen_value(x, [v[2][i] for v in vs], K, lid, path + (i,), forced) for i, x in enumerate(v0[2])))
        if k == 'seq' or (k == 's' and any(v and v[0] == 'seq' for v in vs)):
            if k == 's':
                v0 = self.seqof(v0)
                if v0 is None: return self.widen(v0, vs, lid, path)
            sv = [self.seqof(v) if v is not None and v[0] in ('seq', 's') else None for v in vs]
            if all(s is not None and len(s[1]) >= len(v0[1]) for s in sv):
                segs = []; ok = True
                for j, s0 in enumerate(v0[1]):
                    ss = [s[1][j] for s in sv]
                    if all(x == s0 for x in ss): segs.append(s0); continue
                    if s0[0] == 'e' and all(x[0] == 'e' for x in ss):
                        segs.append(('e', self.gen_value(s0[1], [x[1] for x in ss], K, lid, path + (('seg', j),), forced))); continue
                    if s0[0] == 'w2' and all(x[0] == 'w2' for x in ss):
                        segs.append(('w2', self.gen_value(s0[1], [x[1] for x in ss], K, lid, path + (('seg', j),), forced), s0[2])); continue
                    if s0[0] == 'sym' and all(x[0] == 'sym' and x[1:4] == s0[1:4] for x in ss):
                        if all([k for k, v in x[4]] == [k for k, v in s0[4]] for x in ss):
                            # the same elements are updated in every round
                            segs.append(s0[:4] + (tuple((k, self.gen_value(v, [x[4][i][1] for x in ss], K, lid, path + (('seg', j), ('ov', i)), forced)) for i, (k, v) in enumerate(s0[4])),)); continue
                        # other element overrides inside the loop: forget them
                        segs.append(('sym', self.sym(('lv', lid, path, j), 'seq'), s0[2], s0[3], ())); 
                        self.note('loop-sym-override', str(self.tlist[s0[1]])[:60]); continue
                    ok = False; break
                if ok:
                    if any(len(s[1]) > len(v0[1]) for s in sv): segs.append(('rep', lid, path, K))
                    return ('seq', tuple(segs))
            return self.widen(v0, vs, lid, path)
        return self.widen(v0, vs, lid, path)
    def widen(self, v0, vs, lid, path):
        self.note('widened', str(path)[:80])
        cand = [v0] + list(vs); ty = None
        for v in cand:
            if v is None: continue
            t = self.type_guess(v)
            if t: ty = t; break
        return self.mk(('lv', lid, path), ty or '?')
    def type_guess(self, v):
        k = v[0]
        if k == 'adt': return v[1]
        if k == 's': return self.symty[v[1]]
        if k in ('b', 'c'): return 'bool'
        if k == 'i': return 'isize' if v[1] < 0 else 'usize'
        if k == 'str': return 'alloc::string::String'
        if k == 'fl': return 'f64'
        return None

    def summarise(self, st, body_fn, sn, lid, drop_dead=None):
        """generic-iteration summary of a loop from state st.
        sn = (key, itercell, iterpath, count) when driven by a symbolic sequence segment."""
        Ksym = ('i', 0, ((self.sym(('k', lid), 'usize'), 1),))
        N = sn[3] if sn else None
        round_ = body_fn
        def body_fn(s):
            """one round; elements a filter leaves out make rounds that change nothing"""
            old = self.skipped; self.skipped = []; head = s.fork()
            self.free += sn is None
            try: backs, exits = round_(s)
            finally: self.free -= sn is None
            seen = set()
            for s2 in self.skipped:
                if not sn or s2.gen.get(sn[0], ('',))[0] != 'used': continue
                g = head.fork(); g.facts = s2.facts; k = frozenset(g.facts.items())
                if k not in seen: seen.add(k); backs.append(g)
            self.skipped = old
            return backs, exits
        keys = list(st.mem.keys())
        def gen_state(backs, forced, K):
            g = st.fork()
            chk = set(keys)
            for b in backs:
                for c in b.mem:
                    if c not in chk and c[0] == 'H': chk.add(c)
            for c in chk:
                v0 = st.mem.get(c)
                if v0 is None:
                    if c[0] == 'H': v0 = self.cellval(st, c)
                    else: continue
                vs = [b.mem.get(c, v0) for b in backs]
                if all(v is v0 or v == v0 for v in vs): continue
                g.mem[c] = self.gen_value(v0, vs, K, lid, (c,), forced)
            return g
        def prep(s, K):
            if sn:
                s.gen[sn[0]] = ('active', K)
            return s
        # first, one plain iteration from st
        s = prep(st.fork(), Ksym)
        self.setrange(s, Ksym, lo=0)
        if N is not None:
            dlt = lin_add(lin_add(N, Ksym, -1), I(-1))
            if dlt[2]: self.setrange(s, dlt, lo=0)
        base_facts = dict(s.facts)
        backs, exits = body_fn(s)
        forced = set(); ok = False
        for rnd in range(5):
            if drop_dead:
                for b in backs: drop_dead(b)
            g = gen_state(backs, forced, Ksym)
            s = prep(g.fork(), Ksym); s.facts = dict(base_facts)
            pre = g
            nbacks, exits = body_fn(s)
            if drop_dead:
                for b in nbacks: drop_dead(b)
            # consistency: values after the iteration must match the generalisation shifted by one
            bad = set()
            for b in nbacks:
                for c in set(pre.mem) | {c for c in b.mem if c[0] == 'H'}:
                    v0 = pre.mem.get(c); 
                    if v0 is None and c[0] == 'H': v0 = self.cellval(pre, c)
                    v1 = b.mem.get(c, v0)
                    orig = st.mem.get(c)
                    if orig is None and c[0] == 'H': orig = self.cellval(st, c)
                    self.check_gen(orig, v0, v1, Ksym, lid, (c,), bad, forced)
            if not bad: ok = True; backs = nbacks; break
            forced |= bad
            backs = backs + nbacks if rnd < 2 else nbacks
            # keep the original-state iteration results for the delta computation
            s = prep(st.fork(), Ksym); s.facts = dict(base_facts)
            b0, _ = body_fn(s); backs = b0
        if not ok: self.note('loop-not-converged', str(lid))
        # alternatives
        alts = []; 
        for b in backs:
            cells = {}
            for c in pre.mem:
                self.collect_app(pre.mem[c], b.mem.get(c, pre.mem[c]), lid, (c,), cells)
            fd = {k: v for k, v in b.facts.items() if base_facts.get(k) != v}
            evs = []
            e = b.ev
            while e is not None and e is not pre.ev: evs.append(e[1]); e = e[0]
            evs.reverse()
            alts.append({'cells': cells, 'facts': fd, 'ev': evs, 'mem': b.mem})
        self.reps[lid] = {'alts': alts, 'N': N, 'seg': sn[0] if sn else None, 'K': Ksym, 'pre': pre.mem}
        if any(a['ev'] for a in alts):
            lev = ('loop', lid, N)
        else: lev = None
        res = []
        for o in exits:
            if sn: o[1].gen.pop(sn[0], None)
            else:
                o = self.rounds_known(st, o, backs, Ksym)
                if o is None: continue
            res.append(o)
        after = None
        if sn:
            s0 = prep(st.fork(), Ksym)
            # recompute with K := N
            s1 = prep(st.fork(), Ksym); s1.facts = dict(base_facts)
            b0, _ = body_fn(s1)
            if drop_dead:
                for b in b0: drop_dead(b)
            after = gen_state(b0, forced, N)
            for c in st.mem:
                v = self.accumulated(st, c, after.mem.get(c), b0, backs, pre, sn, Ksym) or self.flagged(st, c, body_fn, prep, pre, base_facts, sn, Ksym)
                if v is not None: after.mem[c] = v
            after.gen = dict(st.gen); after.gen.pop(sn[0], None)
            itv = self.read(after, sn[1], sn[2])
            self.write(after, sn[1], sn[2], self.advance(itv, sn[0]))
            if lev: after.event(lev)
            after.ctr = max([after.ctr] + [b.ctr for b in backs])
            res, after = self.searched(st, res, after, sn, Ksym, alts)
        return res, after
    def passed_over(self, ck, pred, n=0):
        """does a search pass over an element only for what the predicate recognises"""
        if ck[0] == 'c': ck = ck[1:]
        return n > 4 or all(any(pred(k, v) or (v is True and isinstance(k, tuple) and 'nomatch' in k[:2] and self.passed_over(k, pred, n + 1)) for k, v in a.items()) for a in self.searches.get(ck, []))
    def passed_names(self, ck, name):
        return self.passed_over(ck, lambda k, v: k[:2] == ('c', 'eq') and v is False and name in k[2:4])
    def named_search(self, st, sn, K, facts):
        """the name of the condition that every element of a sequence leads to one of these sets of facts, and the
        position of the element that does not"""
        key = sn[0]
        if key[0] != 'base': return None
        ent = key[3]; q = self.seqof(self.read(st, key[1], key[2])); it = self.read(st, sn[1], sn[2])
        while it is not None and it[0] == 'it' and it[1] != 'base' and len(it) > 2 and isinstance(it[2], tuple): it = it[2]
        if it is None or it[:2] != ('it', 'base') or it[2:4] != key[1:3] or not it[4] or it[4][0] != ent: return None
        if q is None or ent[0] >= len(q[1]) or q[1][ent[0]][0] != 'sym': return None
        rev = it[5]; off = ent[1]
        if rev and (off or len(ent) > 2): return None
        seg = q[1][ent[0]]; sk = seg[:4]
        if len(ent) > 2: sk = (sk, 'first', ent[2])
        if off: sk = (sk, 'from', off)
        kid = K[2][0][0]; ph = ('i', 0, ((self.sym(('k', 'searched'), 'usize'), 1),)); tags = []; seen = {}
        for a in facts:
            g = st.fork(); g.mem = {}; g.gen = {}; g.ev = None; g.facts = dict(a)
            self.subst(g, kid, ph); tags.append(tuple(sorted(g.facts.items(), key=repr)))
            for k, v in g.facts.items():
                if k[0] == 'var': seen.setdefault(k[1], []).append(v)
        none = []
        for s, vs in seen.items():
            if len(vs) < len(facts): continue
            ty = self.deref_ty(self.symty[s]) or self.symty[s]
            for i in range(len(self.P.variants(ty) or ())):
                if all((v != i) if isinstance(v, int) else i in v for v in vs): none.append(('adt', ty, i, ()))
        tag = ('loop', tuple(sorted(tags, key=repr)), tuple(sorted(none, key=repr)))
        ck = ('nomatch', tag, sk, rev)
        self.searches[ck] = [dict(a) for a in facts]
        idx = ('i', 0, ((self.sym(('match', tag, sk, rev), 'usize'), 1),))
        return ck, lin_add(lin_add(self.slen(seg), I(-1)), idx, -1) if rev else idx
    def flagged(self, st, c, body_fn, prep, pre, base_facts, sn, K):
        """a flag that some rounds set and none resets: whether there was an element that sets it"""
        v0 = st.mem.get(c); g = pre.mem.get(c)
        if v0 is None or v0[0] != 'b' or g == v0: return None
        def rounds(v):
            s = pre.fork(); s.mem[c] = v; s = prep(s, K); s.facts = dict(base_facts); keep = []
            for b in body_fn(s)[0]:
                for s2, x in self.branch(b, b.mem.get(c)):
                    if x == v[1]: keep.append({k: y for k, y in s2.facts.items() if base_facts.get(k) != y})
                    else: keep.append(None)
            return keep
        if v0[0] == 'b' and any(x is None for x in rounds(('b', not v0[1]))): return None
        keep = [x for x in rounds(v0) if x is not None]
        if not keep or not all(keep): return None
        r = self.named_search(st, sn, K, keep)
        if r is None: return None
        k = ('c',) + r[0]; self.searches[k] = self.searches[r[0]]
        return k if v0[1] else self.NOT(k)
    def searched(self, st, exits, after, sn, K, alts):
        """a loop that changes nothing and is left early looks for an element: its end says there is none, leaving
        it says which one it is"""
        if not alts or not exits or any(a['ev'] or a['cells'] or not a['facts'] for a in alts): return exits, after
        r = self.named_search(st, sn, K, [a['facts'] for a in alts])
        if r is None: return exits, after
        ck, to = r; kid = K[2][0][0]; known = st.facts.get(ck)
        res = []
        for o in exits:
            if o[0] != 'panic' and known is True: continue
            sub = self.subst(o[1], kid, to); o[1].facts[ck] = False
            res.append(o[:2] + tuple(sub(x) for x in o[2:]))
        if known is False: after = None
        else: after.facts[ck] = True
        return res, after
    def rounds_known(self, st, out, backs, K):
        """what held when the loop began and after every round bounds the state it is left in; where that
        fixes the number of rounds, the state is written in terms of that number"""
        kid = K[2][0][0]; o = out[1]
        for k in [k for k in o.facts if k[0] == 'rng' and any(s == kid for s, _ in k[1])]:
            lin = ('i', 0, k[1]); co = dict(k[1])[kid]
            first = self.bounds(st, lin_add(lin, lin_scale(K, co), -1)) if len(k[1]) > 1 else (0, 0)
            ends = [self.bounds(b, lin) for b in backs]
            lo = [first[0]] + [None if e[0] is None else e[0] + co for e in ends]
            hi = [first[1]] + [None if e[1] is None else e[1] + co for e in ends]
            if not self.setrange(o, lin, None if None in lo else min(lo), None if None in hi else max(hi)): return None
        for k in [k for k in o.facts if k[0] == 'rng' and len(k[1]) > 1 and abs(dict(k[1]).get(kid, 0)) == 1]:
            lo, hi = o.facts[k]
            if lo is None or lo != hi: continue
            co = dict(k[1])[kid]; rest = lin_add(('i', -lo, k[1]), lin_scale(K, co), -1)
            sub = self.subst(o, kid, lin_scale(rest, -co)); return out[:2] + tuple(sub(x) for x in out[2:])
        return out
    def subst(self, st, kid, lin):
        """replace a number by a linear term throughout a state"""
        memo = {}
        def sub(x):
            if not isinstance(x, tuple): return x
            if len(x) == 3 and x[0] == 'i' and isinstance(x[2], tuple) and isinstance(x[1], int):
                y = ('i', x[1], ()); 
                for s, c in x[2]: y = lin_add(y, lin_scale(lin if s == kid else ('i', 0, ((sym(s), 1),)), c))
                return y
            if len(x) == 2 and x[0] == 's' and isinstance(x[1], int): return ('s', sym(x[1]))
            if len(x) == 4 and x[0] == 'c' and x[1] == 'isvar' and isinstance(x[2], int): return ('c', 'isvar', sym(x[2]), x[3])
            if len(x) == 2 and x[0] == 'var' and isinstance(x[1], int): return ('var', sym(x[1]))
            return tuple(sub(y) for y in x)
        def sym(sid):
            r = memo.get(sid)
            if r is None:
                t = self.tlist[sid]
                if t[0] in ('k', 'fresh'): n = t
                elif t[0] in ('f', 'elem', '*', 'len') and isinstance(t[1], int): n = (t[0], sym(t[1])) + tuple(sub(y) for y in t[2:])
                else: n = (t[0],) + tuple(sub(y) for y in t[1:])
                r = memo[sid] = sid if n == t else self.sym(n, self.symty[sid])
            return r
        for c, v in list(st.mem.items()):
            n = sub(v); c2 = sub(c) if c[0] == 'H' else c
            if c2 != c: del st.mem[c]
            if n != v or c2 != c: st.mem[c2] = n
        for c, v in list(st.gen.items()):
            n = (sub(c), sub(v))
            if n != (c, v): del st.gen[c]; st.gen[n[0]] = n[1]
        for k, v in list(st.facts.items()):
            if k[0] == 'var': continue
            if k[0] == 'rng':
                n = sub(('i', 0, k[1]))
                if n == ('i', 0, k[1]): continue
                del st.facts[k]
                if n[2]: self.setrange(st, n, *v)
            else:
                n = (sub(k), sub(v))
                if n != (k, v): del st.facts[k]; st.facts[n[0]] = n[1]
        for k, v in list(st.facts.items()):
            if k[0] == 'var' and sym(k[1]) != k[1]: del st.facts[k]; st.facts[('var', sym(k[1]))] = v
        tail = []; e = st.ev; done = e
        while e is not None:
            n = sub(e[1]); tail.append(n); e_ = e; e = e[0]
            if n != e_[1]: done = e; keep = len(tail)
        if done is not st.ev:
            st.ev = done
            for n in reversed(tail[:keep]): st.event(n)
        return sub
    def accumulated(self, st, c, now, b0, backs, pre, sn, K):
        """the total of a number every round adds the same function of its element to"""
        v0 = st.mem.get(c); g = pre.mem.get(c)
        if now is None or now[0] != 'i' or v0 is None or v0[0] != 'i' or g is None or g[0] != 'i': return None
        if now[1] or len(now[2]) != 1 or now[2][0][1] != 1 or self.tlist[now[2][0][0]][0] != 'lv' or g != now: return None
        vs = [b.mem.get(c) for b in b0]; ws = [b.mem.get(c) for b in backs]
        if any(v is None or v[0] != 'i' for v in vs + ws): return None
        ds = {lin_add(v, v0, -1) for v in vs} | {lin_add(v, g, -1) for v in ws}
        if len(ds) != 1: return None
        d = ds.pop(); key = sn[0]; N = sn[3]
        if key[0] != 'base' or not d[2]: return None
        q = self.seqof(self.read(st, key[1], key[2])); ent = key[3]
        if q is None or ent[0] >= len(q[1]) or q[1][ent[0]][0] != 'sym': return None
        sk = q[1][ent[0]][:4]
        if len(ent) > 2: sk = (sk, 'first', ent[2])
        if ent[1]: sk = (sk, 'from', ent[1])
        kid = K[2][0][0]; idx = self.sym(('match', 'sum', sk, False), 'usize')
        class No(Exception): pass
        def sub(x):
            if not isinstance(x, tuple): return x
            if len(x) == 3 and x[0] == 'i' and isinstance(x[2], tuple):
                co = dict(x[2]).get(kid, 0)
                if co:
                    if len(x[2]) == 1 and co == 1: return ('i', x[1], ((idx, 1),))
                    if co == -1 and lin_add(x, K) == lin_add(lin_add(N, I(ent[1])), I(-1)): return ('i', ent[1], ((idx, 1),))
                    raise No()
                return ('i', x[1], tuple((sub_sym(a), b) for a, b in x[2]))
            if len(x) == 2 and x[0] == 's': return ('s', sub_sym(x[1]))
            return tuple(sub(y) for y in x)
        def sub_sym(sid):
            t = self.tlist[sid]
            if t[0] in ('lv', 'grow', 'k', 'fresh'): raise No()
            if t[0] in ('f', 'elem') and isinstance(t[1], int): n = (t[0], sub_sym(t[1])) + tuple(sub(y) for y in t[2:])
            elif t[0] in ('f', 'elem', '*', 'len', 'op', 'node', 'nodeof'): n = (t[0],) + tuple(sub(y) for y in t[1:])
            else: return sid
            return sid if n == t else self.sym(n, self.symty[sid])
        tot = lin_add(v0, lin_scale(N, d[1]))
        try:
            for sid, co in d[2]:
                n = sub_sym(sid)
                if n == sid: return None
                tot = lin_add(tot, ('i', 0, ((self.sym(('sumof', N, ('i', 0, ((n, 1),))), 'usize'), co),)))
        except No: return None
        return tot
    def check_gen(self, orig, g, v1, K, lid, path, bad, forced):
        if v1 == g: return
        if g is None or v1 is None: return
        if path in forced: return
        if g[0] == 'i' and v1[0] == 'i':
            exp = None
            kid = K[2][0][0]
            coef = dict(g[2]).get(kid, 0)
            if lin_add(v1, g, -1) == I(coef): return
            if len(g[2]) == 1 and self.tlist[g[2][0][0]][0] == 'lv': return
            bad.add(path); return
        if g[0] == 's' and self.tlist[g[1]][0] == 'lv': return
        if g[0] == 'adt' and v1[0] == 'adt' and g[2] == v1[2] and len(g[3]) == len(v1[3]):
            for i, x in enumerate(g[3]): self.check_gen(orig[3][i] if orig and orig[0] == 'adt' and i < len(orig[3]) else None, x, v1[3][i], K, lid, path + (i,), bad, forced)
            return
        if g[0] == 'tup' and v1[0] == 'tup':
            for i, x in enumerate(g[1]): self.check_gen(None, x, v1[1][i], K, lid, path + (i,), bad, forced)
            return
        if g[0] == 'clo' and v1[0] == 'clo':
            for i, x in enumerate(g[2]): self.check_gen(None, x, v1[2][i], K, lid, path + (i,), bad, forced)
            return
        if g[0] in ('seq', 's') and v1[0] == 'seq':
            gs = self.seqof(g)
            if gs is not None and len(v1[1]) >= len(gs[1]):
                for j, s in enumerate(gs[1]):
                    t = v1[1][j]
                    if s == t: continue
                    if s[0] == 'e' and t[0] == 'e': self.check_gen(None, s[1], t[1], K, lid, path + (('seg', j),), bad, forced); continue
                    if s[0] == 'w2' and t[0] == 'w2': self.check_gen(None, s[1], t[1], K, lid, path + (('seg', j),), bad, forced); continue
                    if s[0] == 'sym' and t[0] == 'sym' and s[1:4] == t[1:4] and [k for k, v in s[4]] == [k for k, v in t[4]]:
                        for i, (k, v) in enumerate(s[4]): self.check_gen(None, v, t[4][i][1], K, lid, path + (('seg', j), ('ov', i)), bad, forced)
                        continue
                    if s[0] == 'sym' and t[0] == 'sym' and self.tlist[s[1]][0] == 'lv': continue
                    bad.add(path); return
                extra = len(v1[1]) - len(gs[1])
                hasrep = any(s[0] == 'rep' and s[1] == lid for s in gs[1])
                if extra and not hasrep: bad.add(path)
                return
        bad.add(path)
    def collect_app(self, g, v, lid, path, cells):
        if g is v or g is None or v is None: return
        if g[0] == 'adt' and v[0] == 'adt' and len(g[3]) == len(v[3]):
            for i, x in enumerate(g[3]): self.collect_app(x, v[3][i], lid, path + (i,), cells)
        elif g[0] == 'tup' and v[0] == 'tup':
            for i, x in enumerate(g[1]): self.collect_app(x, v[1][i], lid, path + (i,), cells)
        elif g[0] == 'clo' and v[0] == 'clo':
            for i, x in enumerate(g[2]): self.collect_app(x, v[2][i], lid, path + (i,), cells)
        elif g[0] == 'seq' and v[0] == 'seq':
            if any(s[0] == 'rep' and s[1] == lid for s in g[1]): cells[path] = v[1][len(g[1]):]
            for j, s in enumerate(g[1]):
                if j < len(v[1]) and s[0] == 'e' and v[1][j][0] == 'e':
                    self.collect_app(s[1], v[1][j][1], lid, path + (('seg', j),), cells)

    def advance(self, itv, key):
        """drop the head segment `key` of iterator value itv (structural search)"""
        if itv is None or itv[0] not in ('it', 'adt', 'tup'): return itv
        if itv[0] == 'it' and itv[1] == 'base' :
            if itv[4] and self.itkey(itv) == key: return itv[:4] + (itv[4][1:],) + itv[5:]
            return itv
        if itv[0] == 'it' and itv[1] == 'range':
            if self.itkey(itv) == key: return ('it', 'range', itv[3], itv[3]) + itv[4:]
            return itv
        if itv[0] == 'it' and itv[1] == 'chain':
            a = self.advance(itv[2], key)
            if a != itv[2]: return ('it', 'chain', a, itv[3])
            return ('it', 'chain', itv[2], self.advance(itv[3], key))
        if itv[0] == 'it' and itv[1] == 'enum':
            a = self.advance(itv[2], key)
            if a != itv[2]: return ('it', 'enum', a, lin_add(itv[3], self.keycount.get(key, I(0))))
            return itv
        return tuple(self.advance(x, key) if type(x) is tuple and x and x[0] in ('it',) else x for x in itv)
    def headkeys(self, v):
        if type(v) is not tuple or not v: return set()
        if v[0] == 'it' and v[1] in ('base', 'range'): return {self.itkey(v)}
        if v[0] == 'it' and v[1] == 'chain':
            a = v[2]
            return self.headkeys(v[3]) if a and a[0] == 'it' and a[1] == 'base' and not a[4] else self.headkeys(a)
        out = set()
        if v[0] in ('it', 'adt', 'tup'):
            for x in v[1:]:
                if type(x) is tuple and x:
                    for y in ([x] if isinstance(x[0], str) else x): out |= self.headkeys(y)
        return out
    keycount = {}
    def itkey(self, it):
        if it[1] == 'range': return ('range', it[2], it[3])
        return ('base', it[2], it[3], it[4][0] if it[4] else None)

    # ------------------------------------------------------------ calls
    def call(self, st, callee, args, dty, d, where, diverges=False):
        for h in self.hooks:
            r = h(self, st, callee, args, dty, d, where)
            if r is not None: return r
        df = callee.get('def') or callee.get('fn') or ''
        inst = callee.get('inst')
        m = self.find_model(callee)
        if m is not None:
            r = m(self, st, callee, args, dty, d, where)
            if r is not None: return r
        if diverges:
            msg = args[0] if args else None
            return [('panic', st, ('panic', df, where[0], self.msg_of(msg)))]
        if inst in self.F:
            f = self.F[inst]
            if f['argc'] != len(args):
                # closure bodies take a tupled argument list
                if f.get('closure') and len(args) == 2 and args[1] is not None and args[1][0] == 'tup':
                    args = [args[0]] + list(args[1][1])
            stack = st.aux.get('stack', ())
            if stack.count(inst) >= self.reclimit:
                if self.prune and self.prune(self, st, inst, args): return []
                self.note('recursion-cut', inst)
                return self.rec_cut(st, callee, args, dty)
            old = stack
            st.aux['stack'] = stack + (inst,)
            outs = self.call_body(st, inst, args, d)
            for o in outs: o[1].aux['stack'] = old
            return outs
        return self.havoc(st, callee, args, dty)
    def rec_cut(self, st, callee, args, dty): return []
    def msg_of(self, v):
        if v is None: return None
        try:
            if v[0] == 'str': return v[1]
            if v[0] == 'box': return self.msg_of(v[1])
            if v[0] == 'adt': 
                for x in v[3]:
                    r = self.msg_of(x)
                    if r: return r
        except Exception: pass
        return None
    def havoc(self, st, callee, args, dty):
        nm = callee.get('fn') or callee.get('def')
        self.unknown[callee.get('def') or nm] = self.unknown.get(callee.get('def') or nm, 0) + 1
        key = tuple(self.freeze(st, a) for a in args)
        mutable = any(a is not None and a[0] == 'ref' for a in args)
        if mutable:
            st.ctr += 1; term = ('call', nm, key, st.ctr)
        else: term = ('call', nm, key)
        return [('ret', st, self.mk(term, dty))]
    def freeze(self, st, v, n=0):
        """term for a value with references resolved"""
        if v is None: return None
        if n > self.fd: return "..."
        if self.isref(v): return self.freeze(st, self.strip(st, v), n + 1)
        if v[0] == 'adt': return ('adt', v[1], v[2], tuple(self.freeze(st, x, n + 1) for x in v[3]))
        if v[0] == 'tup': return ('tup', tuple(self.freeze(st, x, n + 1) for x in v[1]))
        return v
    def find_model(self, callee):
        key = (callee.get('def'), callee.get('fn'))
        if key in self.modelcache: return self.modelcache[key]
        r = None
        for pat, fn in self.models:
            if pat(callee): r = fn; break
        self.modelcache[key] = r
        return r
    def call_closure(self, st, clo, args, dty, d):
        """call a closure/fn value with a list of arguments -> outcomes"""
        c = self.strip(st, clo) if clo is not None else None
        if c is None: return [('ret', st, self.fresh(st, 'clo', dty))]
        if c[0] == 'fn':
            return self.call(st, json.loads(c[1]), args, dty, d, ('closure', None))
        if c[0] == 'clo' and c[1] in self.F:
            f = self.F[c[1]]
            self_ty = f['locals'][1] if len(f['locals']) > 1 else ''
            if self_ty.startswith('&'):
                if self.isref(clo): me = clo
                else:
                    st.ctr += 1; cell = ('B', st.ctr); st.mem[cell] = c; me = ('ref', cell, ())
            else: me = c
            return self.call_body_rec(st, c[1], [me] + list(args), d)
        self.unknown['closure:' + str(c[0])] = 1
        return [('ret', st, self.fresh(st, 'clo', dty))]
    def call_body_rec(self, st, inst, args, d):
        stack = st.aux.get('stack', ())
        if stack.count(inst) >= self.reclimit: self.note('recursion-cut', inst); return []
        st.aux['stack'] = stack + (inst,)
        outs = self.call_body(st, inst, args, d)
        for o in outs: o[1].aux['stack'] = stack
        return outs

    # ------------------------------------------------------------ printing
    def pt(self, sid, n=0):
        """readable text of a symbol"""
        if n > self.pd: return '…'
        return self.pterm(self.tlist[sid], n, sid)
    def pterm(self, t, n=0, sid=None):
        """readable text of a raw term"""
        if n > self.pd: return '…'
        if isinstance(t, int): return self.pt(t, n)
        if not isinstance(t, tuple): return str(t)
        k = t[0]
        if k == '*': return self.pt(t[1], n + 1)
        if k == 'f':
            vs = self.P.variants(self.symty[t[1]])
            try:
                fn = vs[t[2]]['f'][t[3]][0]
                if len(vs) > 1: fn = vs[t[2]]['n'] + '.' + fn
            except Exception: fn = str(t[3])
            return self.pt(t[1], n + 1) + '.' + fn
        if k == 'elem': return '%s[%s]' % (self.pt(t[1], n + 1), self.pv(t[2], n + 1))
        if k == 'len': return 'len(%s)' % (self.pt(t[1], n + 1) if isinstance(t[1], int) else self.pseg(t[1], n + 1))
        if k == 'k': return 'k%s' % t[1]
        if k in ('t', '*t'): return self.pterm(t[1], n + 1) + ('.%s' % (t[2],) if len(t) > 2 else '')
        if k == 'trunc': return '(%s as %s)' % (self.pv(t[2], n + 1), t[1])
        return k + '(' + ','.join(self.pany(x, n + 1) for x in t[1:]) + ')'
    def pany(self, x, n=0):
        if isinstance(x, tuple) and x and x[0] in ('i', 's', 'str', 'adt', 'tup', 'ref', 'box', 'seq', 'b', 'c', 'fl', 'clo', 'fn', 'd', 'it'): return self.pv(x, n)
        if isinstance(x, tuple): return '(' + ','.join(self.pany(y, n + 1) for y in x) + ')' if n < self.pd else '…'
        return str(x)
    def pseg(self, s, n=0):
        if s[0] == 'e': return self.pv(s[1], n + 1)
        if s[0] == 'sym': return '*' + self.pt(s[1], n + 1) + ('-%d' % s[3] if s[3] else '') + (('{' + ';'.join(self.pv(a) + '=' + self.pv(b, n+1) for a, b in s[4]) + '}') if s[4] else '')
        if s[0] == 'rep': return 'rep%d×%s' % (s[1], self.pv(s[3]))
        return '<' + ' '.join(self.pany(x, n + 1) for x in s) + '>'
    def pv(self, v, n=0):
        if v is None: return '⊥'
        if n > self.pd: return '…'
        k = v[0]
        if k == 'i':
            o = []
            for s, c in v[2]: o.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + self.pt(s, n + 1))
            if v[1] or not o: o.append(str(v[1]))
            return '+'.join(o).replace('+-', '-')
        if k == 's': return self.pt(v[1], n)
        if k == 'str': return json.dumps(v[1])
        if k == 'b': return str(v[1])
        if k == 'adt':
            vs = self.P.variants(v[1]); nm = v[1].split('<')[0].split('::')[-1]
            if vs and v[2] < len(vs) and len(vs) > 1: nm = vs[v[2]]['n']
            return nm + ('(' + ', '.join(self.pv(x, n + 1) for x in v[3]) + ')' if v[3] else '')
        if k == 'tup': return '(' + ', '.join(self.pv(x, n + 1) for x in v[1]) + ')'
        if k == 'seq': return '[' + ' '.join(self.pseg(s, n + 1) for s in v[1]) + ']'
        if k == 'ref': return '&' + str(v[1]) + ''.join('.' + str(x) for x in v[2])
        if k == 'box': return '&(' + self.pv(v[1], n + 1) + ')'
        if k == 'd': return 'discr(' + self.pt(v[1], n + 1) + ')'
        if k == 'c': return '{' + ' '.join(self.pany(x, n + 1) if isinstance(x, tuple) else (self.pt(x) if v[1] == 'isvar' and i == 1 else str(x)) for i, x in enumerate(v[1:])) + '}'
        return '<' + ' '.join(self.pany(x, n + 1) for x in v) + '>'
    def pfacts(self, facts):
        o = []
        for k, v in facts.items():
            if k[0] == 'var':
                vs = self.P.variants(self.symty[k[1]])
                nm = (lambda i: vs[i]['n'] if vs and i < len(vs) else str(i))
                o.append(self.pt(k[1]) + (' is ' + nm(v) if isinstance(v, int) else ' not in {' + ','.join(nm(i) for i in v) + '}'))
            elif k[0] == 'rng': o.append('%s∈[%s,%s]' % (self.pv(('i', 0, k[1])), v[0], v[1]))
            elif k[0] == 'val': o.append(self.pv(k[1]) + '=' + self.pv(v))
            else: o.append(self.pv(k) + '=' + str(v))
        return o

"""Per-construct analysis: runs the abstract interpreter on one visitor root and turns every outcome's emitted template
into path traces on a symbolic operand stack."""
import re
from engine import *
import compiler as C
from bytecode import *

def short(vt):
    vt = re.sub(r"<'[^>]*>", '', vt).replace("&'_ ", '&')
    m = re.findall(r'([A-Za-z0-9_]+)(?=[,)<>]|$)', vt)
    return vt

PLAIN = ('block', 'function body', 'program')   # roots whose own declarations are checked apart
class NodeRun:
    """one outcome of one root"""
    def __init__(self, M, E, st, base0, root):
        self.M = M; self.E = E; self.st = st; self.root = root
        self.D = Decoder(E)
        self.declared = []     # (slot value, name text, declared value)
        self.unres = []        # jumps left to be patched by enclosing constructs: (operand position, item)
        self.sites = []        # nested visits: (name, kind, depth, temporaries, call depth, stack)
        self.patches = []      # (position symbol value, target, endian)
        self.exits = {}; self.repraw = {}; self.sets = {}
        self.T0 = None; self.levels = set(); self.plain = root in PLAIN
        for i, t in enumerate(E.tlist):
            if t == ('init', 'c.compiler_stack.stack^.temporary_count'): self.T0 = i
        self.init = M.build(E, M.cty, 'c')
        for ev in self.walk(st.events()):
            if ev[0] == 'set': self.sets[ev[1]] = self.sets.get(ev[1], 0) + 1
            if ev[0] == 'push':
                v = ev[2]
                f = {n: v[3][i] for i, (n, t) in enumerate(E.T[v[1]]['variants'][0]['f'])} if v[1] in E.T else {}
                if 'slot' in f: self.declared.append((f['slot'], self.txt(f.get('name')), f))
    # ---- facts used by the reference semantics
    def zero_temps(self, st):
        lo, hi = self.E.bounds(st, ('i', 0, ((self.T0, 1),))) if self.T0 is not None else (0, 0)
        return hi == 0
    def loop_level(self, stk):
        """the field of the innermost loop's scope that says how many values are left on the stack"""
        E = self.E; stk = self.X.norm(stk)
        if len(stk) != 1 or stk[0][0] != 'base': return None
        v = stk[0][1]
        if v[1] != 0 or len(v[2]) != 1 or v[2][0][1] != 1: return None
        t = E.tlist[v[2][0][0]]
        loop = [i for i, x in enumerate(E.P.variants('dice_compiler::scope_stack::ScopeKind')) if x['n'] == 'Loop'][0]
        if t[0] == 'init':
            m = re.match(r'(c\.compiler_stack\.stack\^\.scope_stack\.stack\^)\.(\w+)$', t[1])
            if not m: return None
            k = self.M.get(E, self.st, self.init, 'compiler_stack', 'stack', 'last', 'scope_stack', 'stack', 'last', 'kind')
            return m.group(2) if E.decide(self.st, E.isvar(self.st, k, loop)) is True else None
        if t[0] == 'f' and E.tlist[t[1]][0] == 'elem' and E.symty[t[1]].endswith('ScopeContext') and self.order_of(E.tlist[t[1]]):
            k = self.field(('s', t[1]), 'kind')
            if E.decide(self.st, E.isvar(self.st, k, loop)) is not True: return None
            return E.T[E.symty[t[1]]]['variants'][0]['f'][t[3]][0]
        return None
    def is_var(self, v):
        return v is not None and v[0] == 'adt' and v[1].endswith('ScopeVariable')
    def is_empty(self, st, v):
        """is a symbolic sequence known to be empty (True), not empty (False)?"""
        E = self.E; q = E.seqof(v)
        lo, hi = E.bounds(st, E.seqlen(q))
        return True if hi == 0 else False if lo is not None and lo > 0 else None
    def is_zero(self, st, what):
        """no captures grew during nested visit n"""
        E = self.E
        for i, t in enumerate(E.tlist):
            if t[0] == 'grow' and t[1] == what[0] and t[2] == what[1]:
                lo, hi = E.bounds(st, E.slen(('sym', i, '', 0, ())))
                return hi == 0
        return False
    def unique(self, st, args):
        """known (un)uniqueness of the parameter names: every name put into a set, which tells whether it was there before"""
        E = self.E
        q = E.seqof(args.v); sid = q[1][0][1]
        hi = E.bounds(st, E.slen(q[1][0]))[1]
        if hi is not None and hi <= 1: return True
        def name_of(t):      # the set insertion of a parameter's name
            x = E.pv(t[1]) if t[0] == 'inserted' else ''
            return x.startswith(E.pt(sid) + '[') and x.endswith('].name')
        def ins(k):
            r = []
            def walk(x):
                if isinstance(x, tuple):
                    if len(x) == 2 and x[0] == 's' and isinstance(x[1], int) and x[1] < len(E.tlist) and name_of(E.tlist[x[1]]): r.append(x[1])
                    for y in x: walk(y)
            walk(k); return r
        for i, t in enumerate(E.tlist):      # a set of all the names that is as large as the list
            if t[0] != 'distinct' or t[1] != E.slen(q[1][0]): continue
            x = E.pv(t[2])
            if not (x.startswith(E.pt(sid) + '[') and x.endswith('].name')): continue
            lo, hi = E.bounds(st, lin_add(t[1], ('i', 0, ((i, 1),)), -1))
            if hi == 0: return True
            if lo is not None and lo > 0: return False
        if not any(name_of(t) for t in E.tlist): return None
        for k, v in st.facts.items():
            if k[:2] == ('c', 'nomatch') and v is False:      # some name was there before
                if k[3][0] == 'sym' and k[3][1] == sid and all(self.inserted_true({'facts': a}, ins) for a in E.searches.get(k, [()])): return False
                continue
            if k[:2] == ('c', 'nomatch'): k = k[1:]
            if k[0] == 'nomatch':
                seg = k[2]
                if v and isinstance(seg, tuple) and seg[0] == 'sym' and seg[1] == sid and not seg[3] and (self.inserts(k[1]) or k[1][:1] == ('loop',)) and all(self.inserted_true({'facts': a}, ins) for a in E.searches.get(k, [])): return True
            elif ins(k) and v is False: return False
            elif k[0] == 'val' and ins(k) and v == ('b', False): return False
        for e in st.events():
            if e[0] == 'loop' and e[1] in E.reps:
                r = E.reps[e[1]]
                if E.pv(r['N']) == 'len(%s)' % E.pt(sid) and r['alts'] and all(self.inserted_true(a, ins) for a in r['alts']): return True
        return None
    def compared(self, st, args):
        """are parameter names compared with values that are not constants?"""
        E = self.E; sid = E.seqof(args.v)[1][0][1]; seen = set()
        def under(s):      # does the symbol come from the parameters?
            if s == sid: return True
            t = E.tlist[s]
            return any(under(x) for x in syms(t[1:])) or (t[0] in ('f', 'elem', '*', 'len') and isinstance(t[1], int) and under(t[1]))
        def syms(x):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 's' and isinstance(x[1], int): yield x[1]
                elif len(x) >= 2 and x[0] == 'sym' and isinstance(x[1], int): yield x[1]
                elif len(x) == 2 and isinstance(x[0], int) and isinstance(x[1], int) and x[0] < len(E.tlist): yield x[0]
                else:
                    for y in x: yield from syms(y)
        def walk(x):
            if not isinstance(x, tuple): return False
            if len(x) == 4 and x[0] == 'c' and x[1] == 'eq' and all(y is not None and y[0] == 's' for y in x[2:]) and any(under(s) for s in syms(x[2:])): return True
            if len(x) == 2 and x[0] == 's' and isinstance(x[1], int) and E.tlist[x[1]][0] == 'cmp?': return any(under(s) for s in syms(E.tlist[x[1]][1:]))
            return any(walk(y) for y in x)
        def facts(f):
            for k in list(f):
                if walk(k): return True
                if k[0] == 'nomatch' and k not in seen:
                    seen.add(k)
                    if any(facts(a) for a in E.searches.get(k, [])): return True
            return False
        if facts(st.facts): return True
        return any(e[0] == 'loop' and e[1] in E.reps and any(facts(dict(a['facts'])) for a in E.reps[e[1]]['alts']) for e in st.events())
    def inserted_true(self, alt, ins):
        f = alt['facts']
        return any(ins(k) and (v is True or v == ('b', True)) for k, v in (f.items() if isinstance(f, dict) else f))
    def inserts(self, key):
        """does the closure in this key put something into a set?"""
        found = []
        def walk(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'clo': found.append(x[1])
                for y in x: walk(y)
        walk(key)
        seen = set()
        while found:
            f = found.pop()
            if f in seen: continue
            seen.add(f); b = self.M.F.get(f)
            if not b: continue
            for bl in b['blocks']:
                t = bl['t']
                if t and t[0] == 'call':
                    r = repr(t[1])
                    if 'Set' in r and 'insert' in r: return True
        return False
    def find_sym(self, k, sid):
        r = []
        def walk(x):
            if isinstance(x, tuple):
                if len(x) >= 2 and x[0] == 'sym' and x[1] == sid and not r: r.extend(('sym', sid))
                for y in x: walk(y)
        walk(k); return r
    def closure_names_loop(self, name): return False
    def final_flag(self, el, variant):
        """is_initialized of a variable in the final state"""
        E = self.E
        if el[0] != 's': return None
        t = E.tlist[el[1]]
        res = []
        def walk(x, n=0):
            if not isinstance(x, tuple): return
            if x and x[0] == 'sym' and len(x) == 5 and t[0] == 'elem' and x[1] == t[1]:
                for k, v in x[4]:
                    if k == t[2]: res.append(v)
            for y in x: walk(y)
        walk(self.st.mem[('R', 'compiler')])
        for v in res:
            s = self.field(v, 'state')
            if s is not None and s[0] == 'adt':
                vs = E.P.variants(s[1])[s[2]]
                if vs['n'] == variant:
                    for (fn, ft), x in zip(vs['f'], s[3]):
                        if fn == 'is_initialized': return x == ('b', True) or E.decide(self.st, x) is True
        return None
    def walk(self, evs):
        for e in evs:
            yield e
            if e[0] == 'loop':
                for a in self.E.reps[e[1]]['alts']: yield from self.walk(a['ev'])
    # ---- names
    def txt(self, v):
        E = self.E; pd = E.pd; E.pd = 30
        try: s = E.pv(v)
        finally: E.pd = pd
        s = s.replace('node()', 'n').replace('nodeof(', 'N(')
        s = re.sub(r'\bk\d+\b', 'k', s)
        return s
    def child_name(self, vt, fz):
        if fz is not None and fz[0] == 'tup' and len(fz[1]) == 2:
            k = fz[1][1]; kind = self.kind_name(k)
            nm = self.txt(fz[1][0]); nm = re.sub(r', Span\(.*', '', nm) if nm.startswith('Block(') else nm
            return nm, kind
        if vt.endswith('LitIdent'):
            E = self.E
            idv = E.proj(self.st, fz, 0, 0) if fz is not None and fz[0] in ('adt', 's') else fz
            f = self.field(fz, 'identifier')
            return 'ident ' + self.txt(f if f is not None else fz), ''
        return self.txt(fz), ''
    def ctx_name(self, desc, it=None):
        """nesting opened by this construct itself around a nested visit (the scopes and functions it was entered with are left out)"""
        out = []
        for i, (kind, scs) in enumerate(desc):
            sc = []
            for j, (k, ep, vs, sc_) in enumerate(scs):
                names = []
                for v in vs:
                    if v[0] == 'e' and v[1][0] == 'adt': names.append(self.txt(self.field(v[1], 'name')))
                    elif v[0] == 'rep':
                        for nm in sorted(self.rep_names(v)): names.append(nm)
                if self.plain: names = []
                if i == 0 and j == 0:
                    if names: sc.append(('', '', tuple(names)))
                    continue
                e = ''
                if ep is not None and ep[0] == 'adt':
                    e = 'entry' if ep[2] == 1 else ''
                sc.append((self.kind_name(k), e, tuple(names)))
            if i == 0: out += sc
            else: out.append((self.txt(kind), tuple(sc)))
        return tuple(out)
    def rep_names(self, seg):
        """names of the variables a loop declares"""
        out = set()
        for a in self.E.reps[seg[1]]['alts']:
            for c in a['cells'].get(seg[2], ()):
                if c[0] == 'e': out.add('each ' + self.txt(self.field(c[1], 'name')))
        return out
    def field(self, v, name):
        E = self.E
        if v is None: return None
        ty = v[1] if v[0] == 'adt' else E.symty[v[1]] if v[0] == 's' else None
        ty = E.deref_ty(ty) if ty else None
        t = E.T.get(ty)
        if not t or t['kind'] != 'struct': return None
        for i, (n, ft) in enumerate(t['variants'][0]['f']):
            if n == name: return E.proj(self.st, v, i, 0)
        return None
    def kind_name(self, k):
        E = self.E
        if k is None: return ''
        if k[0] == 'adt':
            vs = E.P.variants(k[1]); nm = vs[k[2]]['n'] if vs and len(vs) > 1 else k[1].rsplit('::', 1)[-1]
            return nm + ('(' + ','.join(self.kind_name(x) for x in k[3]) + ')' if k[3] else '')
        return self.txt(k)
    def effect(self, vt, kind):
        if 'FunctionBlockKind' in vt: return 'ret'
        if 'BlockKind' in vt and kind.startswith('Loop'): return 0
        return 1
    def visit_site(self, X, seg, name, kind, depth, stk):
        n, vt, fz, tb, cd = seg[1:6]
        self.sites.append((name, kind, vt, depth, tb, cd, tuple(X.norm(stk)) , seg))
    def const_name(self, c):
        if c[0] == 'adt':
            vs = self.E.P.variants(c[1]); nm = vs[c[2]]['n']
            if nm == 'Function': return ('Function',) + self.fn_name(c)
            return (nm, self.txt(c[3][0]))
        return ('?', self.txt(c))
    def fn_name(self, c):
        if c is None: return ('?',)
        p = self.D.fn_parts(c)
        if not p: return ('?', self.txt(c))
        body = []
        for s in self.E.seqof(p['data'])[1]:
            body.append(self.child_name(s[2], s[3]) + (self.ctx_name(s[6]), self.txt(s[4]), s[1]) if s[0] == 'child' else ('raw', self.E.pseg(s)[:80]))
        for x in self.fnfields(c):
            if x and x[0] == 's' and self.E.tlist[x[1]][0] == 'uuidof' and self.ownid(): raise Bad('C21', 'the function is given the identity %s, which others have as well: two of them would be taken for one constant' % self.E.pv(x)[:60])
        # the name is the field that is no bytecode
        nm = [self.txt(x) for x in self.fnfields(c) if not self.isbc(x)]
        return (tuple(body), tuple(nm[:1]), self.txt(p['slot_count']), self.txt(p['upvalue_count']))
    def fnfields(self, c):
        x = c[3][0]
        while x is not None and x[0] == 'adt' and len(x[3]) == 1: x = x[3][0]
        if x is not None and x[0] == 'adt' and not x[1].endswith('BytecodeInner'): return x[3] if len(c[3]) == 1 else c[3]
        return c[3]
    def ownid(self):
        """functions are told apart by their identity alone"""
        f = next((f for n, f in self.E.F.items() if n == '<dice_bytecode::FunctionBytecode as core::cmp::PartialEq>::eq'), None)
        return f is not None and not f.get('derived')
    def isbc(self, x): return isinstance(x, tuple) and self.D.fn_parts(x) is not None
    def slot_name(self, X, v):
        m = [nm for s, nm, f in self.declared if s == v]
        if m: return ('new', m[-1])
        return self.var_name(v)
    def var_name(self, v):
        """name of the variable whose slot (or index) v is"""
        E = self.E
        if v[0] == 'i' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            t = E.tlist[v[2][0][0]]
            if t[0] == 'f':
                src = t[1]
                el = E.tlist[src]
                if el[0] == 'elem':
                    who = self.lookup_of(src)
                    if who: return who
                if el[0] == 'segelem':
                    nm = self.eq_name(src)
                    return ('var', nm) if nm else ('elem', 'k')
        return ('?', self.txt(v))
    def lookup_of(self, eid):
        """('var', name) for an element found by name, innermost and most recent first"""
        E = self.E
        nm = self.eq_name(eid)
        el = E.tlist[eid]
        order = self.order_of(el)
        if nm is None:
            base = E.pt(el[1])
            m = re.match(r'grow\((vars\d+),\d+\)', base)
            if m: return ('inner', 'k')
            return None
        return ('var', nm) if order else ('var-wrong-order', nm)
    def eq_name(self, eid):
        E = self.E
        for k, v in self.st.facts.items():
            if v is True and isinstance(k, tuple) and len(k) >= 4 and k[0] == 'c' and k[1] in ('eq', 'eqv', 'streq'):
                for a, b in ((k[2], k[3]), (k[3], k[2])):
                    sid = a[1] if isinstance(a, tuple) and a[0] == 's' else a if isinstance(a, int) else None
                    if sid is not None:
                        t = E.tlist[sid]
                        if t[0] == 'f' and t[1] == eid:
                            return self.txt(b) if isinstance(b, tuple) else self.txt(('s', b))
        return None
    def order_of(self, el):
        """is the element the last match in its sequence, which belongs to the last matching scope"""
        E = self.E; ok = True
        def chk(el):
            idx = el[2]
            if is_i(idx):
                if not idx[2]: return True
                for s, c in idx[2]:
                    t = E.tlist[s]
                    if t[0] == 'match': return t[3] is True if len(t) > 3 else False
                    if t[0] == 'k': return c < 0
                return True
            return False
        cur = el
        while True:
            if cur[0] == 'elem':
                if not chk(cur): ok = False
                cur = E.tlist[cur[1]]
            elif cur[0] == 'f' and isinstance(cur[1], int): cur = E.tlist[cur[1]]
            else: break
        return ok
    def up_name(self, X, v):
        """canonical description of a capture index: the name it was resolved from"""
        E = self.E
        if v[0] == 'i' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            t = E.tlist[v[2][0][0]]
            if t[0] == 'f' and E.tlist[t[1]][0] == 'resolve':
                r = E.tlist[t[1]]
                return ('cap', self.txt(r[1])) if r[2] == I(0) else ('cap-of-enclosing', self.txt(r[1]), self.txt(r[2]))
        return ('?', self.txt(v)[:80])
    def captures(self, X, it):
        E = self.E; out = []
        for s in it['caps']:
            if s[0] == 'rep':
                r = E.reps[s[1]]; alts = []
                for a in r['alts']:
                    cells = a['cells'].get(s[2], ())
                    alts.append((tuple(sorted(self.rep_facts(a['facts'], r['K']))), tuple(self.txt(self.D.untrunc(x[1], 'u8')[0]) if x[0] == 'e' else '?' for x in cells)))
                    for x in cells:
                        if x[0] == 'e':
                            v, ty = self.D.untrunc(x[1], 'u8')
                            if ty: X.ob('C09', 'CreateClosure', v)
                X.ob('C09', 'captures', r['N'])
                out.append(('each', self.txt(s[3]), tuple(sorted(set(alts)))))
            else: out.append(self.txt(s[1]))
        return tuple(out)
    def rep_facts(self, facts, K):
        return tuple(sorted(self.facttxt(k, v) for k, v in facts.items() if k[0] != 'rng' or True))
    def facttxt(self, k, v):
        E = self.E; pd = E.pd; E.pd = 30
        try: s = E.pfacts({k: v})[0]
        finally: E.pd = pd
        return re.sub(r'\bk\d+\b', 'k', s.replace('node()', 'n').replace('nodeof(', 'N('))
    # ---- jumps
    def target(self, X, it, off):
        E = self.E
        if off == I(0) and it['opnd'] not in self.sets:
            self.unres.append((it['opnd'], it))
            return ('unresolved', self.root_exit(it))
        t = lin_add(it['end'], off)
        # a jump back to a position recorded by an enclosing construct
        if t[1] == 0 and len(t[2]) == 1 and t[2][0][1] == 1:
            pt = E.pt(t[2][0][0])
            if 'entry_point' in pt:
                sy = E.tlist[t[2][0][0]]
                while sy[0] == 'f' and isinstance(sy[1], int): sy = E.tlist[sy[1]]
                return ('unresolved', self.attributed('loop-start', sy[2], None) if sy[0] == 'elem' else 'loop-start')
        return t
    def root_exit(self, it):
        for where, segs in self.pending():
            for pos in segs:
                if pos == it['opnd']: return where
        return 'unrecorded'
    def pending(self):
        """exit lists still held by the compiler state: [(list name, explicit positions)]"""
        E = self.E; M = self.M; out = []
        c = M.ctx(E, self.st)
        if c is None: return out
        ss = M.get(E, self.st, c, 'scope_stack', 'stack')
        sv = E.seqof(ss)
        for s in sv[1]:
            items = [(None, s[1])] if s[0] == 'e' else list(s[4]) if s[0] == 'sym' else []
            for at, sc in items:
                for nm, path in (('loop-exit', ('exit_points',)), ('chain-exit', ('call_context', 'exit_points'))):
                    v = M.get(E, self.st, sc, *path)
                    q = E.seqof(v) if v is not None else None
                    if q: out.append((self.attributed(nm, at, sc), [x[1] for x in q[1] if x[0] == 'e']))
        return out
    def attributed(self, nm, at, sc):
        """is the scope that records an exit the innermost one there is to leave"""
        if nm == 'chain-exit': return nm if at is None else 'exit of the chain of an enclosing scope'
        E = self.E; loop = [i for i, x in enumerate(E.P.variants('dice_compiler::scope_stack::ScopeKind')) if x['n'] == 'Loop'][0]
        k = self.M.get(E, self.st, sc, 'kind') if sc is not None else None
        if k is not None and E.decide(self.st, E.isvar(self.st, k, loop)) is False: return 'exit of a scope that is no loop'
        if at is not None and is_i(at):
            for s, c in at[2]:
                t = E.tlist[s]
                if t[0] == 'match' and len(t) > 3 and t[3] is not True or t[0] == 'k' and c > 0: return 'exit of an outer loop'
                if t[0] == 'match' and not E.passed_over(('nomatch',) + t[1:], lambda k, v: k[0] == 'var' and (v != loop if isinstance(v, int) else loop in v) and (E.deref_ty(E.symty[k[1]]) or E.symty[k[1]]).endswith('ScopeKind')): return 'exit of an outer loop'
        return nm

    # ---- analysis
    def analyse(self):
        E = self.E; M = self.M
        c = M.ctx(E, self.st)
        data = E.seqof(M.get(E, self.st, c, 'assembler', 'data'))[1]
        start = I(0)
        if data and data[0][0] == 'sym':
            start = E.slen(data[0]); data = data[1:]
        return self.exec_template(data, start)
    def exec_template(self, data, start, base=None):
        E = self.E
        items, end = self.D.decode(data, start)
        mark_heads(E, self.D, items, None)
        self.items = items; self.end = end; self.start = start
        X = Exec(E, self.D, self.st, None, self); self.X = X
        if base is None:
            T0 = ('i', 0, ((E.sym(('init', 'c.compiler_stack.stack^.temporary_count'), 'usize'), 1),))
            base = (('base', T0),)
        self.base = base
        self.paths = X.run(items, end, tuple(base), Trace())
        return self.paths

def value_text(v): return repr(v)

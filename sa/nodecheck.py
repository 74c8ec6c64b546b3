"""Checks on the code each visitor emits: co-execution with the reference semantics (lang.py) and the structural obligations
about nested visits, jump groups, slots, operands, errors and restored bookkeeping."""
import json, re, traceback, contextlib
from engine import *
import bytecode, compiler, nodes, spec, lang
from bytecode import Bad, Undecided, Trace, Exec

CHAIN = ('NullPropagate', 'ErrorPropagate', 'FieldAccess', 'SuperAccess', 'FnCall', 'SuperCall', 'Index')
LIMIT = ('TOO_MANY_UPVALUES', 'TOO_MANY_CONSTANTS', 'TOO_MANY_VARIABLES', 'TOO_MANY_OPERANDS')

class Results:
    def __init__(self):
        self.viol = {}       # property -> {key: (message, where)}
        self.count = {}      # property -> counters
        self.undecided = {}  # root -> reason
        self.decided = []    # roots
        self.samples = {}
        self.area = {}       # root -> properties it bears on (None: all node properties)
    def concerns(self, root, prop):
        a = self.area.get(root)
        return prop in a if a is not None else prop not in GROUP or bool(GROUP[prop][0].match(root))
    def roots(self, prop): return [r for r in self.decided if self.concerns(r, prop)]
    def decide(self, root, *props):
        if root not in self.decided: self.decided.append(root)
        if props: self.area[root] = set(props)
    def undecide(self, root, why, *props):
        self.undecided[root] = why
        if props: self.area[root] = set(props)
    def bad(self, prop, key, msg, where):
        key = '%s: %s' % (where[0], norm_key(key))
        self.viol.setdefault(prop, {}).setdefault(key, (msg, where))
    def n(self, prop, what, k=1):
        c = self.count.setdefault(prop, {}); c[what] = c.get(what, 0) + k
    def sample(self, prop, s):
        l = self.samples.setdefault(prop, [])
        if len(l) < 12 and s not in l: l.append(s)

# properties about a group of constructs: (constructs, the obligations that count for them)
GROUP = {
    'C25': (re.compile(r'(ClassDecl|OpDecl|ExportDecl|ImportDecl|LitObject|FieldAccess|SuperAccess|SuperCall|operator \(.*|function \((StaticMethod|Method|Constructor)\))$'),
            ('C04', 'C05', 'C07', 'C08', 'C16', 'C21')),
    'C26': (re.compile(r'(FnDecl|LitAnonymousFn|Return|FnCall|function \(.*|function body \(.*|operator \(.*)$'),
            ('C01', 'C03', 'C04', 'C07', 'C08', 'C16', 'C17', 'C21')),
}
def norm_key(k):
    return re.sub(r'0x[0-9a-f]+|:\d+(:\d+)?', '', k)

class Checker:
    debug = False; limit = contextlib.nullcontext
    def __init__(self, M, res, codes):
        self.M = M; self.P = M.P; self.res = res; self.codes = codes   # error constant name -> value
        self.levels = {'temporary_count'}
    def where(self, root, fn):
        f = self.M.F.get(fn, {})
        return (root, fn, '%s:%s' % (f.get('file', '?'), f.get('line', '?')))

    # ---------------------------------------------------------------- one root
    def root(self, name, run, ref, entry_fn, chain=False, kind='node', tag=None):
        """run() -> (E, outcomes); ref(S, E) is the reference semantics"""
        res = self.res; w = self.where(name if tag is None else '%s (%s)' % (name, tag), entry_fn); rn = w[0]
        try:
            with self.limit(): E, outs = run()
        except Exception as e:
            res.undecided[rn] = 'analysis: %s' % (traceback.format_exc(limit=-2)[-300:]); return
        hard = [k for k in E.notes if k not in ('widened', 'loop-sym-override')]
        if E.unknown or hard:
            res.undecided[rn] = 'unmodelled: %s' % (', '.join(sorted(map(str, list(E.unknown) + hard)))[:300]); return
        if not outs:
            res.undecided[rn] = 'no outcomes'; return
        rep = []
        for (f, line), v in sorted((E.under or {}).items()):
            rep.append(('C11', 'underflow %s' % v, 'more may be taken from a length than it has (%s at %s)' % (v, line)))
        try:
            with self.limit():
              for o in outs: self.outcome(name, E, o, ref, chain, kind, rep, w)
        except Undecided as u:
            res.undecided[rn] = str(u); return
        except Exception as e:
            res.undecided[rn] = 'internal: %s' % (traceback.format_exc(limit=-3)[-500:]); return
        res.decided.append(rn)
        for props, key, msg in rep:
            props = set(props) if isinstance(props, (tuple, list)) else {props}
            props |= {g for g, (m, of) in GROUP.items() if m.match(rn) and props & set(of)}
            for p in sorted(props): res.bad(p, key, msg, w)

    def outcome(self, name, E, o, ref, chain, kind, rep, w):
        res = self.res
        if o[0] == 'panic':
            res.n('C11', 'panic outcomes examined')
            why = self.infeasible(E, o)
            if why: res.n('C11', 'panic outcomes excluded: ' + why)
            else: rep.append(('C11', 'panic %s' % (describe(o[2])), 'compiling this construct can panic: %s' % (describe(o[2]),)))
            return
        R = nodes.NodeRun(self.M, E, o[1], None, name)
        fn = lambda S: ref(S, E)
        evs = o[1].events(); nested = [e for e in R.walk(evs) if e[0] in ('childerr', 'consterr')]
        if o[2] and o[2][0] == 'adt' and o[2][2] != 0:
            self.error(name, E, o, R, fn, nested, rep); return
        if nested:
            res.n('C13', 'nested errors followed')
            rep.append((('C13', 'C07', 'C08'), 'nested error dropped', 'an error reported by nested code is dropped: compilation goes on')); return
        try:
            paths = R.analyse()
        except Bad as b:
            rep.append((b.prop, b.what, b.what)); return
        for b in R.X.soft: rep.append((b.prop, b.what, b.what))
        for p in ('C01', 'C02', 'C03', 'C04'): res.n(p, 'outcomes')
        for p in paths:
            for q in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C10', 'C15', 'C16', 'C17', 'C18', 'C21') + self.groups_of(name): res.n(q, 'paths co-executed with the reference semantics')
            res.n('C01', 'instructions interpreted', R.X.ninst)
            for props, m in spec.check_path(R, p, fn): rep.append((props, m, m))
            if p[0] == 'end':
                for g in ('C04',) + self.groups_of(name): self.sample_path(g, name, p)
        self.levels |= R.levels
        self.sites(name, E, R, chain, rep)
        self.groups(name, E, R, paths, chain, rep)
        self.restored(name, E, R, chain, rep, kind)
        self.slots(name, E, R, rep)
        self.operands(name, E, R, rep)
    def groups_of(self, name):
        return tuple(g for g, (m, of) in GROUP.items() if m.match(name) or m.match(name + ' ()'))
    def sample_path(self, prop, name, p):
        self.res.sample(prop, '%s: %s' % (name, ' ; '.join(' '.join(map(str, e[:3])) for e in p[3].ev)[:240]))

    # ---------------------------------------------------------------- errors
    def error(self, name, E, o, R, fn, nested, rep):
        res = self.res; err = o[2][3][0]
        if err is not None and err[0] == 's' and E.tlist[err[1]][0] in ('childerr', 'consterr'):
            res.n('C13', 'nested errors passed on unchanged'); return
        if nested:
            rep.append(('C13', 'nested error replaced', 'an error reported by nested code is replaced by %s' % E.pv(err)[:120])); return
        code = self.M.get(E, o[1], err, 'error_code'); code = E.pv(code).strip('"') if code is not None else '?'
        cname = self.codes.get(code, code)
        want = spec.check_err(R, fn); hidden = '?' in want; want.discard('?')
        res.n('C07', 'rejecting outcomes'); res.n('C08', 'rejecting outcomes'); res.n('C06', 'rejecting outcomes')
        ok = not want or cname in want or cname == 'INTERNAL_COMPILER_ERROR' and (None in want or hidden) or cname in LIMIT
        if not ok:
            if self.debug: print(name, cname, want, E.pfacts(o[1].facts))
            if want == {None}: m = 'rejects (%s) what must be accepted' % cname
            else: m = 'rejects with %s instead of %s' % (cname, ', '.join(sorted(map(str, want))))
            rep.append((self.err_props(cname, want), m, m))
        elif hidden and cname in want:
            m = 'rejects with %s what must sometimes be accepted, without looking' % cname
            rep.append((self.err_props(cname, set()), m, m))
        if cname == 'INTERNAL_COMPILER_ERROR' and None in want and self.really(E, o, R):
            rep.append((self.really(E, o, R), 'internal error', 'fails with an internal compiler error on acceptable input'))
        if cname in LIMIT:
            res.n('C09', 'limit errors examined')
            n = sum(1 for e in o[1].events() if e[0] == 'push')     # quantities are recorded up to a constant: those counted one by one
            if not any(k[0] == 'rng' and v[0] is not None and v[0] >= 256 - n for k, v in o[1].facts.items()):
                rep.append(('C09', 'premature ' + cname, 'the limit error %s is raised for a program within the limits' % cname))
        # the error points at its place
        span = self.M.get(E, o[1], err, 'span')
        res.n('C13', 'errors created')
        if cname != 'INTERNAL_COMPILER_ERROR':
            t = R.txt(span) if span is not None else '?'
            if not t.endswith('.span') and 'span' not in t or 'n.' not in t and 'n)' not in t and 'init' not in t:
                rep.append(('C13', 'no span %s' % cname, 'the error %s does not carry the position of the construct (span %s)' % (cname, t[:80])))
    def really(self, E, o, R): return None
    PROPS = dict(CANNOT_REASSIGN_IMMUTABLE_VARIABLE='C06', VARIABLE_NOT_DECLARED='C07', VARIABLE_NOT_INITIALIZED='C07', FUNCTION_ALREADY_DECLARED='C07',
                 CLASS_ALREADY_DECLARED='C07', FUNCTION_CANNOT_HAVE_DUPLICATE_ARGS='C07')
    def err_props(self, got, want):
        s = {self.PROPS.get(x, 'C08') for x in set(want) | {got} if x and x != 'INTERNAL_COMPILER_ERROR'}
        return tuple(sorted(s)) or ('C08',)

    # ---------------------------------------------------------------- panics
    def infeasible(self, E, o):
        st = o[1]; what = o[2]
        if what[0] == 'index' and what[1] == 'slice start' and self.from_exit_list(E, what[3] if len(what) > 3 else None):
            return 'positions in exit lists lie inside the code (each recorded position is checked under C02)'
        kv = self.ctxkind(E, st)
        for k, v in st.facts.items():
            if v is True and ('nomatch' in k[:2]):
                if has(k, ('str', 'self')) and kv in ('Method', 'Constructor'): return 'methods and constructors declare self (checked under C08)'
                if has(k, ('str', '#export')) and kv == 'Module': return 'modules declare their export object (checked under C16)'
        vs = self.P.variants(compiler.SYN); names = [x['n'] for x in vs]
        for k, v in st.facts.items():
            if k[0] == 'var' and E.tlist[k[1]][0] == 'nodeof' and 'associated_items' in E.pt(k[1]):
                fd, od = names.index('FnDecl'), names.index('OpDecl')
                if v in (fd, od): continue
                if isinstance(v, int) or (fd in v and od in v): return 'the parser puts only functions and operators into classes (checked under C19)'
        return None
    def from_exit_list(self, E, v):
        if v is None or v[0] != 'i' or len(v[2]) != 1: return False
        t = E.tlist[v[2][0][0]]
        if t[0] != 'elem': return False
        q = E.tlist[t[1]]
        return (q[0] == 'init' and q[1].endswith('exit_points')) or (q[0] == 'grow' and str(q[1]).startswith(('exit', 'cexit')))
    def ctxkind(self, E, st):
        for sid, t in enumerate(E.tlist):
            if t == ('init', 'c.compiler_stack.stack^.kind'):
                x = st.facts.get(('var', sid)); vs = self.P.variants(E.symty[sid])
                return vs[x]['n'] if isinstance(x, int) and vs else None
        return None

    # ---------------------------------------------------------------- nested visits
    def sites(self, name, E, R, chain, rep):
        res = self.res; init = R.init
        T0 = ('i', 0, ((R.T0, 1),)) if R.T0 is not None else None
        c0 = self.M.get(E, R.st, init, 'compiler_stack', 'stack', 'last', 'scope_stack', 'stack', 'last', 'call_context', 'depth')
        for nm, kd, vt, depth, tb, cd, stk, seg in R.sites:
            if vt.endswith('LitIdent') or 'FnKind' in vt or 'OpKind' in vt: continue
            res.n('C03', 'nested visits checked against the temporaries recorded'); res.n('C04', 'nested visits checked for chain nesting')
            df = None if tb is None or depth is None else lin_add(depth, tb, -1)
            if df is None or df != I(0) and E.bounds(R.st, df) != (0, 0):
                rep.append(('C03', 'temporaries at %s' % nm, 'while %s is compiled %s value(s) are in flight but %s are recorded' %
                            (nm, E.pv(lin_sub0(depth, T0))[:60], E.pv(lin_sub0(tb, T0))[:60])))
            first = chain and nm in (R_first(R), )
            if cd is None: continue
            inchain = E.pv(cd) != '0' and lin_const(cd) != 0
            if chain and self.is_target(nm, R):
                if not inchain: rep.append((('C04',), 'chain %s' % nm, 'a null-propagation inside %s leaves only that part of the access chain' % nm))
                elif c0 is not None and lin_add(cd, c0, -1) != I(1): rep.append((('C04', 'C17'), 'chain depth %s' % nm, 'the chain depth while %s is compiled is %s' % (nm, E.pv(cd)[:60])))
                elif lin_add(depth, T0, -1) != I(0): rep.append((('C01', 'C04'), 'chain stack %s' % nm, 'the head of an access chain is evaluated on top of other values'))
            elif inchain:
                rep.append((('C04', 'C02'), 'chain %s' % nm, 'a null-propagation inside %s leaves the whole surrounding access chain' % nm))
    def is_target(self, nm, R):
        return nm in ('n.%s.0.%s' % (R.root, f) for f in ('expression', 'target'))

    # ---------------------------------------------------------------- jumps resolved later
    def groups(self, name, E, R, paths, chain, rep):
        """exit lists grown by nested code, their patches and targets"""
        res = self.res; st = R.st
        patched = {}
        def walk(evs, loop):
            for e in evs:
                if e[0] == 'loop':
                    for a in E.reps[e[1]]['alts']: walk(a['ev'], (e[1], e[2], len(E.reps[e[1]]['alts'])))
                elif e[0] == 'patch': patched.setdefault(self.group_of(E, e[1]), []).append((e, loop))
        walk(st.events(), None)
        children = {}
        for s in R.sites: children[s[7][1]] = s
        # loop exits
        for sid, t in enumerate(list(E.tlist)):
            if t[0] == 'grow' and str(t[1]).startswith('exit') and t[2] in children and self.in_run(R, t[2]):
                j = int(str(t[1])[4:]); site = children[t[2]]
                if not self.belongs(E, R, sid, site, j): continue
                nm = site[0]
                if j < 2 and kind_of(R) == 'node':
                    if ('g', sid) in patched: rep.append((('C02', 'C17'), 'foreign exits %s' % nm, 'jumps that leave an enclosing loop from %s are resolved by this construct' % nm))
                    continue
                res.n('C02', 'exit groups checked')
                ps = patched.get(('g', sid), [])
                if len(ps) != 1 or ps[0][1] is None or ps[0][1][1] != E.slen(('sym', sid, '', 0, ())):
                    rep.append((('C02',), 'exits of %s' % nm, 'the jumps that leave the loop from %s are %s' % (nm, 'never resolved' if not ps else 'resolved %d times or only in part' % len(ps)))); continue
                self.exit_target(name, E, R, site, ps[0][0], j, rep)
        # continue
        for s in R.sites:
            desc = s[7][6]
            for ci, (k, scs) in enumerate(desc):
                if ci != len(desc) - 1: continue
                for j, (kk, ep, vs, sc) in enumerate(scs):
                    if ci == 0 and j == 0: continue
                    if not self.M.is_loop(E, st, kk): continue
                    self.entry(name, E, R, s, ep, sc, rep)
        if chain: self.chain_groups(name, E, R, patched, children, rep)
    def belongs(self, E, R, sid, site, j):
        """is this list one the construct's own loop scope had during the visit"""
        desc = site[7][6]; scs = desc[-1][1]
        if len(desc) != 1 or not 0 <= j - 1 < len(scs): return False
        return j == 1 or (self.M.is_loop(E, R.st, scs[j - 1][0]) is True and not any(self.M.is_loop(E, R.st, x[0]) for x in scs[j:]))
    def in_run(self, R, n):
        return any(e[0] == 'visit' and e[1] == n for e in R.walk(R.st.events()))
    def group_of(self, E, pos):
        if pos[0] == 'i' and pos[1] == 0 and len(pos[2]) == 1 and pos[2][0][1] == 1:
            t = E.tlist[pos[2][0][0]]
            if t[0] == 'elem': return ('g', t[1])
        return ('p', pos)
    def level_stack(self, E, R, site, j):
        """the operand stack a break finds: the one at the visit, cut to the level its loop recorded"""
        scs = site[7][6][-1][1]
        sc = scs[j - 1][3] if j - 1 < len(scs) else None
        stk = site[6]
        lv = None
        for f in sorted(self.levels):
            v = self.M.get(E, R.st, sc, f) if sc is not None else None
            if v is not None: lv = v
        if lv is None: return None, None
        out = []; c = I(0)
        for x in stk:
            if c == lv: break
            n = x[1] if x[0] in ('base', 'many') else I(1)
            out.append(x); c = lin_add(c, n)
        return (tuple(out) if c == lv else None), lv
    def exit_target(self, name, E, R, site, ev, j, rep):
        nm = site[0]
        off, ty = R.D.untrunc(ev[2], 'i16')
        tgt = lin_add(lin_add(off, ev[1]), I(2))
        if ty: R.X.ob('C09', 'jump', 'forward')
        if ev[3] != bytecode.ENDIAN: rep.append(('C10', 'endian', 'a jump offset is patched in %s byte order' % ev[3]))
        stk, lv = self.level_stack(E, R, site, j)
        if stk is None:
            rep.append((('C03', 'C01'), 'level of %s' % nm, 'the stack level recorded for the loop around %s is %s, not one the stack has there' % (nm, E.pv(lv)[:60] if lv else 'missing'))); return
        idx = {}
        for i, it in enumerate(R.items): idx.setdefault(it['pos'], i)
        if tgt == R.end: at = len(R.items)
        elif tgt in idx: at = idx[tgt]
        else:
            rep.append(('C02', 'exit target %s' % nm, 'the jumps that leave the loop from %s do not land on an instruction' % nm)); return
        X = Exec(E, R.D, R.st, None, R)
        try: ps = X.run(R.items, R.end, stk, Trace(), at)
        except Bad as b:
            rep.append((b.prop, 'after leaving from %s: %s' % (nm, b.what), 'after leaving the loop from %s: %s' % (nm, b.what))); return
        for b in X.soft: rep.append((b.prop, 'after leaving from %s: %s' % (nm, b.what), 'after leaving the loop from %s: %s' % (nm, b.what)))
        for kd, v, s2, tr in ps:
            got = tuple(s2)[len(R.X.norm(tuple(R.base))):]
            bad_ev = [e for e in tr.ev if e[0] not in ('close',) and not (e[0] == 'rep' and all(all(z[0] == 'close' for z in a[1]) for a in e[2]))]
            if kd != 'end' or bad_ev: rep.append((('C02', 'C04'), 'exit path %s' % nm, 'leaving the loop from %s does not lead to its end (%s)' % (nm, bad_ev[:2] or kd)))
            elif len(got) != 1: rep.append((('C01', 'C03'), 'exit stack %s' % nm, 'leaving the loop from %s leaves %d value(s) instead of one' % (nm, len(got))))
            elif got != (lang.UNIT,): rep.append((('C04', 'C01'), 'exit value %s' % nm, 'leaving the loop from %s yields %s instead of unit' % (nm, got)))
    def entry(self, name, E, R, site, ep, sc, rep):
        res = self.res; nm = site[0]
        if ep is not None and ep[0] == 's':
            x = R.st.facts.get(('var', ep[1]))
            ep = ('adt', '', x, (E.symfield(ep[1], 1, 0),)) if isinstance(x, int) else None
        if ep is None or ep[0] != 'adt': return
        if ep[2] == 0:
            rep.append(('C08', 'continue in %s' % nm, 'continue is rejected inside %s: the loop records no place to go on from' % nm)); return
        res.n('C02', 'loop entry points checked')
        pos = ep[3][0]
        heads = [it['pos'] for it in R.items if it.get('head')]
        if pos not in heads:
            rep.append((('C02', 'C04'), 'entry of %s' % nm, 'continue inside %s goes to a place that is not the start of the next round' % nm)); return
        lv = None
        for f in sorted(self.levels):
            v = self.M.get(E, R.st, sc, f)
            if v is not None: lv = v
        want = R.X.profile.get(pos)
        stk = None
        c = I(0); out = []
        for x in site[6]:
            if c == lv: break
            out.append(x); c = lin_add(c, x[1] if x[0] in ('base', 'many') else I(1))
        if c != lv or want is not None and R.X.prof(tuple(out)) != want:
            rep.append((('C03', 'C01'), 'entry stack %s' % nm, 'continue inside %s reaches the start of the loop with another stack depth' % nm))
    def chain_groups(self, name, E, R, patched, children, rep):
        res = self.res; M = self.M; st = R.st
        c0 = M.get(E, st, R.init, 'compiler_stack', 'stack', 'last', 'scope_stack', 'stack', 'last', 'call_context', 'depth')
        top = M.get(E, st, M.ctx(E, st), 'scope_stack', 'stack', 'last')
        final = E.seqof(M.get(E, st, top, 'call_context', 'exit_points'))
        initial = E.seqof(M.get(E, st, R.init, 'compiler_stack', 'stack', 'last', 'scope_stack', 'stack', 'last', 'call_context', 'exit_points'))
        outer = E.decide(st, E.cmp('Eq', c0, I(0)))
        ids = [s[1] for s in initial[1] if s[0] == 'sym']
        for sid, t in enumerate(list(E.tlist)):
            if t[0] == 'grow' and t[1] == 'cexit' and self.in_run(R, t[2]) and not (t[2] in children and children[t[2]][7][5] == I(0)): ids.append(sid)
        left = [s[1] for s in final[1] if s[0] == 'sym']
        for sid in ids:
            res.n('C02', 'chain exit groups checked')
            what = 'of nested code' if E.tlist[sid][0] == 'grow' else 'recorded before'
            ps = patched.get(('g', sid), [])
            if outer is None and E.decide(st, E.eq0(E.slen(('sym', sid, '', 0, ())))) is True: continue
            if outer is not False:
                if len(ps) != 1 or ps[0][1] is None or ps[0][1][1] != E.slen(('sym', sid, '', 0, ())):
                    rep.append((('C02',), 'chain exits %s' % what, 'the jumps %s that leave the access chain are %s at its end' % (what, 'not resolved' if not ps else 'resolved wrongly'))); continue
                ev = ps[0][0]; off, ty = R.D.untrunc(ev[2], 'i16')
                if ty: R.X.ob('C09', 'jump', 'forward')
                if lin_add(lin_add(off, ev[1]), I(2)) != R.end: rep.append((('C02', 'C04'), 'chain target %s' % what, 'leaving an access chain does not go to its end'))
                if sid in left: rep.append((('C02', 'C17'), 'chain exits kept %s' % what, 'resolved jumps stay recorded after the access chain has ended'))
            else:
                if ps: rep.append((('C02', 'C04'), 'chain exits early %s' % what, 'jumps out of the access chain are resolved before the chain ends'))
                if sid not in left: rep.append((('C02',), 'chain exits lost %s' % what, 'jumps out of the access chain are forgotten before the chain ends'))
        dep = M.get(E, st, top, 'call_context', 'depth')
        if dep is None or lin_add(dep, c0, -1) != I(0): rep.append((('C17', 'C04'), 'chain depth', 'the chain depth after the construct is %s instead of %s' % (E.pv(dep)[:60] if dep else '?', E.pv(c0))))

    # ---------------------------------------------------------------- bookkeeping
    def restored(self, name, E, R, chain, rep, kind):
        res = self.res; M = self.M; st = R.st
        get = lambda v, *p: M.get(E, st, v, *p)
        a = get(R.init, 'compiler_stack', 'stack'); b = get(st.mem[('R', 'compiler')], 'compiler_stack', 'stack')
        res.n('C17', 'final states compared with the initial one')
        if [s[0] for s in E.seqof(a)[1]] != [s[0] for s in E.seqof(b)[1]]:
            rep.append(('C17', 'contexts', 'the stack of functions being compiled is not as before')); return
        ca = get(a, 'last'); cb = get(b, 'last')
        sa, sb = E.seqof(get(ca, 'scope_stack', 'stack')), E.seqof(get(cb, 'scope_stack', 'stack'))
        if [s[0] for s in sa[1]] != [s[0] for s in sb[1]]:
            rep.append(('C17', 'scopes', '%d scope(s) are open after the construct instead of those before' % (len(sb[1]) - 1))); return
        ta, tb = sa[1][-1][1], sb[1][-1][1]
        eq = lambda x, y: x == y or (x is not None and y is not None and E.decide(st, E.eqv(st, x, y)) is True)
        for v1, v2, f, what in ((ca, cb, 'kind', 'the kind of the function being compiled'), (ca, cb, 'temporary_count', 'the number of temporaries recorded'),
                                (ta, tb, 'depth', 'the depth of the scope'), (ta, tb, 'kind', 'the kind of the scope'), (ta, tb, 'entry_point', 'the entry point of the scope'),
                                (ta, tb, 'temporary_count', 'the stack level of the scope')):
            x, y = get(v1, f), get(v2, f)
            if x is None and y is None: continue
            res.n('C17', 'fields compared')
            if not eq(x, y): rep.append((('C17',) + (('C03',) if 'temporar' in what else ()), f, '%s is %s after the construct' % (what, E.pv(y)[:80])))
        if not chain:
            for f in ('depth', 'exit_points'):
                x, y = get(ta, 'call_context', f), get(tb, 'call_context', f)
                res.n('C17', 'fields compared')
                if not eq(x, y): rep.append((('C17', 'C04'), 'call_context ' + f, 'the access chain in progress is not as before the construct (%s)' % f))

    # ---------------------------------------------------------------- slots
    def slots(self, name, E, R, rep):
        """each new variable takes the first slot above all those in use"""
        res = self.res; M = self.M; st = R.st
        ca = M.get(E, st, R.init, 'compiler_stack', 'stack', 'last')
        ss = M.get(E, st, ca, 'scope_stack', 'stack')
        top0 = M.get(E, st, ss, 'last', 'slot_count')
        below = None
        for sid, t in enumerate(E.tlist):
            if t[0] == 'sumof': below = sid
        maxv = M.get(E, st, M.ctx(E, st), 'scope_stack', 'slot_count')
        G = {t[2]: ('i', 0, ((sid, 1),)) for sid, t in enumerate(E.tlist) if t[0] == 'grow' and t[1] == 'slots'}
        low = ('i', 0, ((below, 1),)) if below is not None else I(0)
        def total(mem):
            """slots in use in a compiler state: those of all open scopes"""
            sv = E.seqof(M.get(E, st, mem.get(('R', 'compiler')), 'compiler_stack', 'stack', 'last', 'scope_stack', 'stack'))
            t = low
            for x in sv[1]:
                if x[0] == 'e': t = lin_add(t, M.get(E, st, x[1], 'slot_count'))
            return t
        def fields(v):
            f = {n: v[3][i] for i, (n, t) in enumerate(E.T[v[1]]['variants'][0]['f'])} if v[0] == 'adt' and v[1] in E.T else {}
            return f if 'slot' in f else None
        def walk(evs, cur, K):
            own = I(0)
            for e in evs:
                if e[0] == 'visit' and e[2] == compiler.IDT and e[1] in G: cur = lin_add(cur, G[e[1]])
                elif e[0] == 'push':
                    f = fields(e[2])
                    if f is None: continue
                    s = f['slot']; nm = R.txt(f.get('name'))
                    res.n('C16', 'declarations checked'); res.n('C09', 'declarations checked')
                    if s != cur: rep.append(('C16', 'slot of %s' % nm, 'the variable %s is given slot %s instead of the first free one %s' % (nm, R.txt(s)[:120], R.txt(cur)[:120])))
                    else:
                        hi = self.slot_hi(E, R, e, s)
                        if hi is None or hi > 255: rep.append(('C09', 'slot of %s' % nm, 'the slot of %s may exceed what a one-byte operand can hold' % nm))
                        if K is None and not self.has_lv(E, maxv):
                            if not self.at_least(E, st, lin_add(lin_add(maxv, s, -1), I(-1))): rep.append(('C16', 'slot count of %s' % nm, 'the slot of %s may lie outside the slots the function reserves' % nm))
                    cur = lin_add(cur, I(1))
                    if ('seg', 1, I(0)) in e[1][1][-2:-1] or self.scope_index(e[1][1]) == 1: own = lin_add(own, I(1))
                elif e[0] == 'loop':
                    r = E.reps[e[1]]
                    if not any(x[0] in ('push', 'visit') for a in r['alts'] for x in R.walk(a['ev'])): continue
                    p0 = total(r['pre']); per = set()
                    for a in r['alts']:
                        u2, o2 = walk(a['ev'], p0, r['K'])
                        per.add(lin_const(o2))
                        e2 = total(a['mem'])
                        if any(x[0] == 'push' and fields(x[2]) for x in R.walk(a['ev'])) and not self.at_least(E, st, lin_add(e2, u2, -1)):
                            rep.append(('C16', 'slots of a round', 'slots taken in one round of a loop are free again in the next'))
                    k = r['K'][2][0][0]; c = dict(p0[2]).get(k, 0)
                    if len(per) == 1 and None not in per and r['N'] is not None: own = lin_add(own, lin_scale(r['N'], per.pop()))
                    cur = p0
                    if c and r['N'] is not None: cur = lin_add(lin_add(p0, ('i', 0, ((k, c),)), -1), lin_scale(r['N'], c))
            return cur, own
        start = lin_add(top0, low)
        cur, own = walk(st.events(), start, None)
        end = total(st.mem)
        if not self.has_lv(E, end) and not self.at_least(E, st, lin_add(lin_add(end, start, -1), own, -1)):
            rep.append(('C16', 'slots freed', 'slots of variables that are still live are free after the construct'))
    def scope_index(self, path):
        """position of the scope a variable was pushed into, among the segments of the scope stack"""
        segs = [x[1] for x in path if isinstance(x, tuple) and x[0] == 'seg']
        return segs[-1] if len(segs) >= 2 else None
    def at_least(self, E, st, v):
        """v >= 0, where growth of the slot count by nested code is never negative"""
        g = [x for x in v[2] if E.tlist[x[0]][0] == 'grow' and x[1] > 0]
        for m in range(1 << len(g)):
            w = v
            for i, x in enumerate(g):
                if m >> i & 1: w = lin_add(w, ('i', 0, (x,)), -1)
            lo, _ = E.bounds(st, w)
            if lo is not None and lo >= 0: return True
        return False
    def has_lv(self, E, v):
        return v is None or v[0] != 'i' or any(E.tlist[s][0] in ('lv', 'grow') for s, c in v[2]) and any(E.tlist[s][0] == 'lv' for s, c in v[2])
    def slot_hi(self, E, R, e, s):
        lo, hi = E.bounds(R.st, s)
        if hi is not None: return hi
        for k, v in R.st.facts.items(): pass
        # inside a repeated group the limit is among the facts of the round
        for ev in R.st.events():
            if ev[0] == 'loop':
                for a in E.reps[ev[1]]['alts']:
                    if e in a['ev']:
                        st = R.st.fork(); st.facts = dict(R.st.facts); st.facts.update(a['facts'])
                        lo, hi = E.bounds(st, s)
                        if hi is not None: return hi
        return None

    # ---------------------------------------------------------------- operand widths
    def operands(self, name, E, R, rep):
        res = self.res
        for prop, op, v in R.X.obs:
            res.n('C09', 'narrowed operands examined')
            if op == 'jump':
                res.bad('C09', 'the offset is narrowed to 16 bits', 'the offset of a %s jump is narrowed to 16 bits without a check' % v, ('%s jumps' % v, 'Assembler', 'dice-compiler/src/assembler.rs')); continue
            if op == 'captures':
                # the index of a capture fits a byte if the function has at most 256 of them, which is checked here or where they are added
                hi = E.bounds(R.st, v)[1] if v is not None and v[0] == 'i' else 0
                if (hi is None or hi > 256) and not self.captures_limited(): rep.append(('C09', 'captures', 'a closure is created without a check that the indices of its captures fit a byte'))
                continue
            if self.byte_value(E, R, v): continue
            rep.append(('C09', 'operand %s %s' % (op, short_name(R.txt(v))), 'the operand %s of %s is narrowed to one byte without a check' % (R.txt(v)[:100], op)))
    def captures_limited(self):
        if not hasattr(self, 'caplim'):
            self.caplim = any('TOO_MANY_UPVALUES' in json.dumps(f['blocks']) for n, f in self.P.F.items() if f.get('crate') == 'dice_compiler' and 'Assembler' not in n and 'blocks' in f)
        return self.caplim
    def byte_value(self, E, R, v):
        lo, hi = E.bounds(R.st, v)
        if lo is not None and hi is not None and lo >= 0 and hi <= 255: return True
        if v[0] == 'i' and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
            t = E.tlist[v[2][0][0]]
            if t[0] == 'f':
                ty = E.deref_ty(E.symty[t[1]]) or ''
                if ty.endswith('ScopeVariable') or ty.endswith('UpvalueDescriptor'): return True    # slots and capture indices, limited where they are created
                if E.tlist[t[1]][0] == 'resolve': return True
        for s, nm, f in R.declared:
            if s == v: return True    # checked with its declaration
        return False

def lin_sub0(a, b):
    if a is None: return None
    return lin_add(a, b, -1) if b is not None else a
def R_first(R): return None
def kind_of(R): return 'root' if R.root == 'program' else 'node'
def has(x, v):
    if x == v: return True
    return isinstance(x, tuple) and any(has(y, v) for y in x)
def describe(w):
    return ' '.join(str(x) for x in w if isinstance(x, str))
def short_name(t): return re.sub(r'\[.*', '', t)[:60]

def run_nodes(M, res, codes, only=None, limit=contextlib.nullcontext):
    C = Checker(M, res, codes); C.limit = limit
    order = [v['n'] for v in M.P.variants(compiler.SYN)]
    order.sort(key=lambda n: n not in ('Break', 'Continue'))
    for var in (only or order):
        ref = getattr(lang, var, None)
        if ref is None: res.undecided[var] = 'no reference semantics'; continue
        def go(var=var): return M.run_node(var, want_errors=True)
        idx = [i for i, v in enumerate(M.P.variants(compiler.SYN)) if v['n'] == var][0]
        def rf(S, E, ref=ref, idx=idx): ref(S, spec.V(S, E.proj(S.st, ('s', E.node), 0, idx)))
        C.root(var, go, rf, M.visits[compiler.IDT], chain=var in CHAIN)
    if only is None: run_kinds(M, res, C)
    return C

def kind_setup(M, variant, operator=None, small=False):
    def field(E, st, v, name):
        i = [j for j, (n, t) in enumerate(M.P.variants(E.symty[v[1]])[0]['f']) if n == name]
        return E.proj(st, v, i[0], 0) if i else None
    def f(E, st):
        if operator:
            o = field(E, st, E.n, 'operator')
            st.facts[('var', o[1])] = [i for i, v in enumerate(M.P.variants(E.symty[o[1]])) if v['n'] == operator][0]
        if small:
            # the parts an operator's name does not depend on, explored in full for the first operator
            E.assume(st, E.eq0(E.slen(E.seqof(field(E, st, E.n, 'args'))[1][0])), True)
            r = field(E, st, E.n, 'return_'); E.assume(st, ('c', 'isvar', r[1], 0), True)
        vs = M.P.variants(E.symty[E.rkind[1]])
        st.facts[('var', E.rkind[1])] = [i for i, v in enumerate(vs) if v['n'] == variant][0]
        if 'FunctionBlockKind' in E.symty[E.rkind[1]]:
            # a function starts with an empty operand stack (checked where functions are created)
            E.assume(st, E.eq0(M.get(E, st, M.ctx(E, st), 'temporary_count')), True)
            # and no variables
            ss = M.get(E, st, M.ctx(E, st), 'scope_stack', 'stack')
            q = E.seqof(ss)
            for g in q[1]:
                if g[0] == 'sym': E.assume(st, E.eq0(E.slen(g)), True)
            E.assume(st, E.eq0(M.get(E, st, M.ctx(E, st), 'scope_stack', 'stack', 'last', 'slot_count')), True)
            # and is compiled in a context of its own kind
            k = M.get(E, st, M.ctx(E, st), 'kind'); ks = [x['n'] for x in M.P.variants(E.symty[k[1]])]
            if variant in ks: st.facts[('var', k[1])] = ks.index(variant)
    return f
KINDS = (('::BlockKind)', 'block', 'BlockKind'), ('::FunctionBlockKind<', 'function body', 'FunctionBlockKind'), ('::FnKind)', 'function', 'FnDeclKind'), ('::OpKind)', 'operator', 'OpDeclKind'))
def run_kinds(M, res, C, only=None, full=False):
    for suf, name, ref in KINDS:
        if only and name not in only: continue
        vt = [v for v in M.visits if v.startswith('(') and suf in v]
        if not vt: res.undecided[name] = 'no visitor of this kind'; continue
        vt = vt[0]; fn = getattr(lang, ref)
        kt = vt.split(', ', 1)[1][:-1]
        ops = M.P.variants('dice_syntax::ast::node::OverloadedOperator') if name == 'operator' else [None]
        for var in M.P.variants(kt):
            for op in ops or [None]:
                def go(var=var, op=op): return M.run_tuple(vt, kind_setup(M, var['n'], op['n'] if op else None, not full and op is not None and op is not ops[0]))
                def rf(S, E): fn(S, spec.V(S, E.n), spec.V(S, E.rkind))
                C.root(name, go, rf, M.visits[vt], tag=var['n'] if op is None else '%s, %s' % (var['n'], op['n']))

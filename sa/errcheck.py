"""C12: error codes, messages, notes and the tags their placeholders need; C13: error builders keep what they are given."""
import os, re, traceback
import models
from engine import *

ERR = 'dice_core::error::Error'; TAGS = 'dice_core::error::tag::Tags'; CTX = 'dice_core::error::context::Context'
CODES = 'dice_core::error::codes::'; NOTES = 'dice_core::error::context::'
class Undecided(Exception): pass

# ---------------------------------------------------------------- the shipped messages
def messages(path):
    """id -> set of placeholders of the messages of a Fluent file, and the ids given twice"""
    out = {}; twice = []; cur = None
    for l in open(path, encoding='utf-8'):
        l = l.rstrip('\r\n')
        m = re.match(r'([A-Za-z][A-Za-z0-9_-]*) *=(.*)$', l)
        if m:
            cur = m.group(1)
            if cur in out: twice.append(cur)
            out[cur] = m.group(2)
        elif cur is not None and re.match(r'\s+\S', l) and not re.match(r'\s*[}.\[*]', l): out[cur] += ' ' + l.strip()
        elif l.strip() == '' or l.startswith('#'): 
            if l.startswith('#'): cur = None
        elif l[:1].isspace(): pass
        else: cur = None
    res = {}
    for k, v in out.items():
        t = re.sub(r'\{\s*"[^"]*"\s*\}', '', v); ph = set(re.findall(r'\{\s*\$([A-Za-z][A-Za-z0-9_-]*)', t))
        bare = re.sub(r'\{[^{}]*\}', '', t)
        if '{' in bare or '}' in bare: continue           # not a message: the loader drops or rejects it
        if v.strip() == '': continue
        res[k] = ph
    return res, twice

# ---------------------------------------------------------------- values of interest flowing through a function
EMPTY = frozenset()
class Flow:
    """which errors (code, tags, notes) a function can return or store, by dataflow over its MIR"""
    def __init__(self, P):
        self.P = P; self.memo = {}; self.busy = set(); self.final = {}; self.replaced = set(); self.sites = {}; self.steps = 0
        self.rel = self.relevant()
    def callee(self, op):
        v = op[1].get('v') if op[0] == 'k' else None
        return v if v and v.get('fn') else None
    def relevant(self):
        """functions through which values of interest can come"""
        direct = {}; calls = {}
        for n, f in self.P.F.items():
            cs = set(); hit = f['locals'][0].find('core::error::') >= 0 or f['locals'][0] in ('&str', "&'static str") and bool(f.get('crate')) and f['argc'] <= 3
            for b in f['blocks']:
                t = b['t']
                if t[0] == 'call':
                    c = self.callee(t[1])
                    if c:
                        cs.add(c.get('inst') or c['fn'])
                        if c['fn'] in (ERR + '::new', CTX + '::new', TAGS + '::new') or c['fn'].startswith((ERR + '::with', ERR + '::push', TAGS + '::', CTX + '::with')): hit = True
                for s in b['s']:
                    if s[0] == '=' and s[2][0] == 'agg' and isinstance(s[2][1], list) and s[2][1][0] == 'closure': cs.add(s[2][1][1])
            direct[n] = hit; calls[n] = cs
        rel = {n for n, h in direct.items() if h}
        ch = True
        while ch:
            ch = False
            for n, cs in calls.items():
                if n not in rel and cs & rel and ('core::error' in ' '.join(self.P.F[n]['locals'][:1]) or self.P.F[n]['locals'][0] == '&str' or self.P.F[n].get('closure')): rel.add(n); ch = True
        self.made = {n for n, h in direct.items() if h}
        return rel
    # -- values
    def const(self, c):
        v = c.get('v') or {}
        while 'ref' in v and isinstance(v['ref'], dict): v = v['ref']
        if 'str' in v: return frozenset([('str', v['str'])])
        if v.get('closure') or 'closure' in v: return frozenset([('clo', v['closure'] if isinstance(v['closure'], str) else str(v['closure']), ())])
        if 'fn' in v: return frozenset([('fnp', v.get('inst') or v['fn'], v['fn'])])
        n = c.get('name')
        if n and n in self.P.C: return self.const({'v': self.P.C[n].get('v')})
        if v.get('static') in self.P.C: return self.const({'v': self.P.C[v['static']].get('v')})
        if 'promoted' in c: return self.promoted(c)
        return EMPTY
    def promoted(self, c):
        n = '%s#promoted%s' % (c.get('owner'), c['promoted'])
        return self.run(n, ()) if n in self.P.F else EMPTY
    def read(self, st, pl):
        v = st.get(pl[0], EMPTY)
        for p in pl[1]:
            out = set()
            for a in v:
                if p[0] == '*' and a[0] == 'ref': out |= st.get(a[1], EMPTY)
                elif p[0] == 'f' and a[0] == 'clo': out |= a[2][p[1]] if p[1] < len(a[2]) else EMPTY
                elif p[0] == 'f' and a[0] == 'tup': out |= a[1][p[1]] if p[1] < len(a[1]) else EMPTY
                elif p[0] == 'f' and a[0] == 'arg': pass
                else: out.add(a)
            v = frozenset(out)
        return v
    def op(self, st, o):
        if o[0] in 'cm': return self.read(st, o[1])
        if o[0] == 'k': return self.const(o[1])
        return EMPTY
    def interesting(self, v): return frozenset(a for a in v if a[0] in ('err', 'tags', 'ctx'))
    def note(self, fn, v, how):
        for a in v:
            if a[0] == 'tup':
                for x in a[1]: self.note(fn, x, how)
            if a[0] == 'err': self.final.setdefault((fn, how), set()).add(a)
    # -- functions
    def run(self, fn, args, depth=0):
        key = (fn, args)
        if key in self.memo: return self.memo[key]
        if key in self.busy or depth > 24: return EMPTY
        self.busy.add(key)
        try: r = self.body(fn, args, depth)
        finally: self.busy.discard(key)
        self.memo[key] = r
        return r
    def body(self, fn, args, depth):
        f = self.P.F[fn]; B = f['blocks']
        st0 = {}
        for i, a in enumerate(args): st0[i + 1] = a
        ins = {0: st0}; work = [0]; ret = set(); n = 0
        while work:
            b = work.pop(0); n += 1; self.steps += 1
            if n > 40 * len(B) + 200: raise Undecided('does not settle in ' + fn)
            st = dict(ins[b])
            for s in B[b]['s']: self.stmt(fn, st, s)
            t = B[b]['t']; k = t[0]; succ = []
            if k == 'goto': succ = [t[1]]
            elif k == 'switch': succ = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop': succ = [t[1]]
            elif k == 'assert': succ = [x for x in t[1:] if isinstance(x, int)][-1:]
            elif k == 'return': ret |= st.get(0, EMPTY)
            elif k == 'call':
                v = self.call(fn, st, t, depth, (fn, B[b].get('l')))
                d = t[3]; 
                if not d[1]: st[d[0]] = v
                elif v: st[d[0]] = st.get(d[0], EMPTY) | v
                succ = [t[4]] if len(t) > 4 and t[4] is not None else []
            for s in succ:
                old = ins.get(s)
                if old is None: ins[s] = dict(st); work.append(s); continue
                ch = False
                for l, v in st.items():
                    o = old.get(l, EMPTY)
                    if not v <= o:
                        u = o | v
                        if len(u) > 60: u = frozenset(list(u)[:60]); self.wide = True
                        if u != o: old[l] = u; ch = True
                if ch and s not in work: work.append(s)
        ret = frozenset(ret)
        self.note(fn, ret, 'returned')
        return ret
    def stmt(self, fn, st, s):
        if s[0] != '=': return
        pl, rv = s[1], s[2]; k = rv[0]; v = EMPTY
        if k == 'use': v = self.op(st, rv[1])
        elif k == 'ref':
            if rv[1][1] == []: v = frozenset([('ref', rv[1][0])])
            else:
                base = st.get(rv[1][0], EMPTY)
                v = frozenset([a for a in base if a[0] == 'ref']) if rv[1][1] == [['*']] and any(a[0] == 'ref' for a in base) else self.read(st, rv[1])
        elif k == 'cast': v = self.op(st, [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ('c', 'm', 'k')][0]) if any(isinstance(x, list) and x and x[0] in ('c', 'm', 'k') for x in rv[1:]) else EMPTY
        elif k == 'agg':
            kind = rv[1]; vals = [self.op(st, o) for o in rv[2]]
            if isinstance(kind, list) and kind[0] == 'closure': v = frozenset([('clo', kind[1], tuple(self.deref(st, x) for x in vals))])
            elif kind == 'tuple' or isinstance(kind, list) and kind[0] == 'tuple': v = frozenset([('tup', tuple(vals))]) if any(vals) else EMPTY
            else:
                v = frozenset().union(*[self.interesting(x) | frozenset(a for a in x if a[0] in ('str', 'tup') and kind[0] == 'adt' and kind[1].startswith('core::')) for x in vals]) if vals else EMPTY
                if isinstance(kind, list) and kind[0] == 'adt' and not kind[1].startswith(('core::', 'alloc::', 'std::')):
                    self.note(fn, v, 'stored'); v = EMPTY if kind[1] not in () else v
        if not pl[1]: st[pl[0]] = v
        elif v:
            for a in st.get(pl[0], EMPTY):
                if a[0] == 'ref': st[a[1]] = st.get(a[1], EMPTY) | v
            st[pl[0]] = st.get(pl[0], EMPTY) | v
    def deref(self, st, v, n=0):
        out = set()
        for a in v:
            if a[0] == 'ref' and n < 3: out |= self.deref(st, st.get(a[1], EMPTY), n + 1)
            elif a[0] != 'ref': out.add(a)
        return frozenset(out)
    def one(self, v):
        x = [a for a in v if a[0] in ('str', 'arg', 'any')]
        return x or [('any',)]
    def keys(self, v):
        x = [a[1] for a in v if a[0] == 'tags']
        return x or [None]
    def invoke(self, v, params, depth, site):
        """the values a closure or function value yields"""
        out = set()
        for a in v:
            if a[0] == 'clo' and a[1] in self.P.F:
                f = self.P.F[a[1]]; out |= self.run(a[1], (frozenset([a]),) + tuple(params[:f['argc'] - 1]) + (EMPTY,) * max(0, f['argc'] - 1 - len(params)), depth + 1)
            elif a[0] == 'fnp': out |= self.named(a[2], a[1], params, {}, depth, site)
        return frozenset(out)
    def call(self, fn, st, t, depth, site):
        c = self.callee(t[1])
        args = [self.op(st, o) for o in t[2]]
        if c is None: return frozenset().union(*[self.interesting(self.deref(st, a)) for a in args]) if args else EMPTY
        name = c['fn']; inst = c.get('inst') or name
        if name == TAGS + '::push':
            for a in args[0]:
                if a[0] != 'ref': continue
                new = set()
                for t0 in st.get(a[1], EMPTY):
                    if t0[0] != 'tags': new.add(t0); continue
                    for k in self.one(self.deref(st, args[1])): new.add(('tags', (t0[1] | {k[1]}) if t0[1] is not None and k[0] == 'str' else None))
                st[a[1]] = frozenset(new)
            return EMPTY
        mods = {a[1]: st.get(a[1], EMPTY) for x in args for a in x if a[0] == 'ref'}
        args = [self.deref(st, a) for a in args]
        return self.named(name, inst, args, c, depth, site)
    def named(self, name, inst, args, c, depth, site):
        fn = site[0]
        if name == ERR + '::new':
            self.sites.setdefault(site, set()).update(self.one(args[0])); return frozenset(('err', k, EMPTY, EMPTY, site) for k in self.one(args[0]))
        if name == TAGS + '::new': return frozenset([('tags', EMPTY)])
        if name.endswith('default::Default::default') and inst.find('Tags') >= 0: return frozenset([('tags', EMPTY)])
        if name == CTX + '::new': return frozenset(('ctx', k, EMPTY, site) for k in self.one(args[0]))
        if name == CTX + '::with_tags': return frozenset(('ctx', a[1], k, a[3]) for a in args[0] if a[0] == 'ctx' for k in self.keys(args[1]))
        if name == ERR + '::with_tags': return self.retag(args[0], self.keys(args[1]), fn)
        if name == ERR + '::push_context': return self.context(args[0], args[1])
        if name.startswith(ERR + '::with_') or name == ERR + '::push_trace': return args[0]
        if 'ResultExt' in name and name.endswith('::with_tags'): return self.retag(args[0], self.keys(self.invoke(args[1], (), depth, site)), fn)
        if 'ResultExt' in name and name.endswith('::push_context'): return self.context(args[0], self.invoke(args[1], (), depth, site))
        if 'ResultExt' in name: return args[0] if args else EMPTY
        meth = name.split('::')[-1]
        if re.search(r'function::(Fn|FnMut|FnOnce)', name) and args:
            ps = []
            for a in args[1] if len(args) > 1 else ():
                if a[0] == 'tup': ps = list(a[1])
            return self.invoke(args[0], ps, depth, site)
        if inst in self.P.F and (inst in self.rel or any(args)) and not inst.startswith(('core::', '<core::', 'alloc::', '<alloc::', 'std::', '<std::')):
            f = self.P.F[inst]; a = tuple(args)
            if f['argc'] == len(a):
                if inst not in self.rel: 
                    for x in a: self.note(site[0], x, 'passed on')
                    return EMPTY
                if f.get('crate') and not self.returns(inst):
                    for x in a: self.note(site[0], x, 'passed on')
                    a = tuple(x if any(y[0] in ('clo', 'fnp', 'str') for y in x) else EMPTY for x in a)
                return self.run(inst, a, depth + 1)
        # library code: hands on what it is given, calls the closures it is given
        out = set()
        for a in args: out |= self.interesting(a) | frozenset(x for x in a if x[0] == 'tup' or x[0] == 'str' and meth in ('into', 'from', 'clone', 'deref', 'as_ref', 'borrow', 'unwrap_or', 'unwrap', 'copied', 'cloned', 'branch', 'from_residual', 'from_output', 'expect'))
        p = frozenset(x for x in out)
        if meth in ('map_err', 'or_else', 'unwrap_or_else', 'map_or_else', 'inspect_err', 'map', 'and_then'):
            for a in args[1:]:
                clo = frozenset(x for x in a if x[0] in ('clo', 'fnp'))
                if clo:
                    r = self.invoke(clo, (p,), depth, site)
                    if meth == 'map_err': out = set(x for x in r)
                    else: out |= r
            return frozenset(out)
        for a in args:
            clo = frozenset(x for x in a if x[0] in ('clo', 'fnp'))
            if clo: out |= self.invoke(clo, (p,), depth, site)
        return frozenset(out)
    def returns(self, inst): return 'core::error::' in self.P.F[inst]['locals'][0] or self.P.F[inst]['locals'][0] in ('&str', "&'static str")
    def retag(self, v, keys, fn):
        out = set()
        for a in v:
            if a[0] != 'err': continue
            self.replaced.add((a[4], a[2], fn))
            for k in keys: out.add(('err', a[1], k, a[3], a[4]))
        return frozenset(out)
    def context(self, v, ctx):
        cs = [a for a in ctx if a[0] == 'ctx'] or [None]
        return frozenset(('err', a[1], a[2], a[3] | ({c} if c else EMPTY), a[4]) for a in v if a[0] == 'err' for c in cs)

class Check:
    def __init__(self, P, res, lim, repo):
        self.P = P; self.res = res; self.lim = lim; self.repo = repo
    def where(self, root, fn, line=None):
        f = self.P.F.get(fn) or self.P.C.get(fn) or {}; return (root, fn, '%s:%s' % (f.get('file', '?'), line or f.get('line', '?')))
    def guard(self, root, body, *props):
        try:
            with self.lim(): return body()
        except Exception:
            self.res.undecide(root, 'analysis: ' + traceback.format_exc(limit=-2)[-300:], *(props or ('C12',))); return None
    def run(self):
        self.guard('messages', self.tables); self.guard('errors raised', self.raised); self.guard('uncompiled parts', self.text); self.builders(); self.localizing(); self.reporting(); self.spans()

    # ---------------------------------------------------------------- tables
    def tables(self):
        base = os.path.join(self.repo, 'data', 'locales', 'en-US'); self.msg = {}; self.file = {}
        if not os.path.isdir(base): raise Undecided('no shipped locale')
        for f in sorted(os.listdir(base)):
            if not f.endswith('.ftl'): continue
            m, twice = messages(os.path.join(base, f))
            for k in list(m):
                if k in self.msg: twice.append(k)
            for k in twice: self.res.bad('C12', 'twice ' + k, 'the message %s is given twice' % k, ('messages', f, 'data/locales/en-US/' + f))
            self.msg.update(m)
            for k in m: self.file[k] = f
        codes = {}; st = [(n, c) for n, c in sorted(self.P.C.items()) if (n.startswith(CODES) or n.startswith(NOTES)) and isinstance((c.get('v') or {}).get('str'), str)]
        if not any(n.startswith(CODES) for n, c in st): raise Undecided('no error codes found')
        for n, c in st:
            v = c['v']['str']; what = 'error code' if n.startswith(CODES) else 'note'; short = n.split('::')[-1]; w = ('messages', n, '%s:%s' % (c.get('file'), c.get('line')))
            self.res.n('C12', what + 's')
            if v in codes: self.res.bad('C12', 'shared ' + short, '%s and %s have one code, %s' % (codes[v], short, v), w)
            codes.setdefault(v, short)
            if v not in self.msg: self.res.bad('C12', 'message ' + short, 'the %s %s (%s) has no message in the shipped locale' % (what, v, short), w)
        self.res.decide('messages', 'C12')
    # ---------------------------------------------------------------- errors raised
    def complete(self, key, a, root, w, sink):
        if a[1][0] != 'str': return 'code'
        code = a[1][1]; short = code
        if code not in self.msg: self.res.bad('C12', 'message ' + code, 'an error is raised with the code %s, which has no message' % code, w)
        elif a[2] is None: return 'tags'
        else:
            for x in sorted(self.msg[code] - a[2]): self.res.bad('C12', '%s %s in %s' % (code, x, key), 'the error %s is raised without the tag %s its message uses' % (code, x), w)
        for c in a[3]:
            if c[1][0] != 'str': return 'note'
            if c[1][1] not in self.msg: self.res.bad('C12', 'message ' + c[1][1], 'a note %s has no message' % c[1][1], w)
            elif c[2] is None: return 'tags'
            else:
                for x in sorted(self.msg[c[1][1]] - c[2]): self.res.bad('C12', '%s %s in %s' % (c[1][1], x, key), 'the note %s is added without the tag %s its message uses' % (c[1][1], x), w)
        return None
    def raised(self):
        F = Flow(self.P); self.flow = F
        own = [n for n, f in self.P.F.items() if n in F.rel and not n.startswith(('core::', '<core::result::Result', 'alloc::', 'std::', ERR, CTX, TAGS)) and '#' not in n]
        for n in sorted(own):
            f = self.P.F[n]
            if f.get('closure'): continue
            F.run(n, tuple(frozenset([('arg', i)]) if f['locals'][i].endswith('str') else EMPTY for i in range(1, f['argc'] + 1)))
        called = set()
        for n, f in self.P.F.items():
            for b in f['blocks']:
                if b['t'][0] == 'call':
                    c = F.callee(b['t'][1])
                    if c: called.add(c.get('inst') or c['fn'])
        replaced = {(s, k) for s, k, fn in F.replaced}; bysite = {}
        for (fn, how), v in F.final.items():
            ret = self.P.F[fn]['locals'][0]
            part = ret in (ERR, TAGS, CTX) and fn in called and how == 'returned'    # judged where it is used
            clo = self.P.F[fn].get('closure') and how == 'returned'
            for a in v: bysite.setdefault(a[4], set()).add((a, fn, how, bool(part or clo)))
        for site, alts in sorted(bysite.items(), key=str):
            fn, line = site; root = 'error raised in ' + fn.split('::{')[0]; w = self.where(root, fn, line); bad = None; n = 0
            for a, at, how, part in sorted(alts, key=str):
                if part and any(not p for _, _, _, p in alts): continue
                if (site, a[2]) in replaced and any(b[0][2] != a[2] for b in alts):
                    if any(self.msg.get(a[1][1], set()) - a[2] for _ in (0,) if a[1][0] == 'str' and a[2] is not None): continue
                if a[1][0] != 'str' and any(b[0][1][0] == 'str' for b in alts): continue
                n += 1; r = self.complete(fn.split('::')[-1] if '{' not in fn else fn.split('::{')[0].split('::')[-1], a, root, w, how)
                bad = bad or r
            if bad: self.res.undecide('%s:%s' % (root, line), {'code': 'its code is not a constant', 'tags': 'its tags have computed names', 'note': 'its note is not a constant'}[bad], 'C12')
            elif n: self.res.decide('%s:%s' % (root, line), 'C12')
            self.res.n('C12', 'places an error is raised'); self.res.n('C12', 'forms of errors followed', n)
            self.res.sample('C12', {'place': '%s:%s' % (self.P.F[fn].get('file'), line), 'codes': sorted({a[0][1][1] for a in alts if a[0][1][0] == 'str'})})
        # every place in the program text that makes an error must have been followed
        for n, f in self.P.F.items():
            if n.startswith(('core::', 'alloc::', 'std::')): continue
            for b in f['blocks']:
                if b['t'][0] != 'call': continue
                c = F.callee(b['t'][1])
                if c and c['fn'] == ERR + '::new' and (n, b.get('l')) not in bysite and (n, b.get('l')) not in F.sites: self.res.undecide('error made in %s:%s' % (f.get('file'), b.get('l')), 'not reached by the flow analysis', 'C12')
                elif c and c['fn'] == ERR + '::new' and (n, b.get('l')) not in bysite: self.res.undecide('error made in %s:%s' % (f.get('file'), b.get('l')), 'lost by the flow analysis', 'C12')

    # ---------------------------------------------------------------- parts of the repository that do not compile: by their syntax
    TOK = re.compile(r'//[^\n]*|/\*.*?\*/|r#*"|b?"(?:\\.|[^"\\])*"|\'(?:\\.[^\']*|[^\'\\])\'|\'\w+|\w+|=>|::|->|[^\s\w]', re.S)
    def tokens(self, src):
        out = []; pos = 0
        while True:
            m = self.TOK.search(src, pos)
            if not m: return out
            t = m.group(); pos = m.end()
            if t.startswith(('//', '/*')): continue
            if re.fullmatch(r'r#*"', t):
                e = src.find('"' + t[1:-1], pos); e = len(src) if e < 0 else e + len(t) - 1; t = src[m.start():e]; pos = e
            out.append((t, src.count('\n', 0, m.start()) + 1))
    def group(self, ts, i):
        """index after the bracket group that opens at i"""
        d = 0
        for j in range(i, len(ts)):
            if ts[j][0] in '([{' and len(ts[j][0]) == 1: d += 1
            elif ts[j][0] in ')]}' and len(ts[j][0]) == 1:
                d -= 1
                if d == 0: return j + 1
        return len(ts)
    def tagkeys(self, ts, i, j):
        """names given in tags! { .. } when that is all of ts[i:j]; None if it is something else"""
        if j - i < 4 or ts[i][0] == '|': 
            k = i
            while k < j and ts[k][0] != 'tags': k += 1
            i = k
        if i + 2 >= j or ts[i][0] != 'tags' or ts[i + 1][0] != '!' or self.group(ts, i + 2) != j: return None
        keys = set(); d = 0
        for k in range(i + 2, j):
            t = ts[k][0]
            if t in ('(', '[', '{'): d += 1
            elif t in (')', ']', '}'): d -= 1
            elif t == '=>' and d == 1: keys.add(ts[k - 1][0])
        return keys
    def chain(self, ts, i, vals, new):
        """follows the method calls after the expression ending before i -> (tags or None, notes, end)"""
        tags = set(); notes = []
        while i + 2 < len(ts) and ts[i][0] == '.' and ts[i + 2][0] == '(':
            e = self.group(ts, i + 2); m = ts[i + 1][0]
            if m == 'with_tags': tags = self.tagkeys(ts, i + 3, e - 1)
            elif m == 'push_context':
                k = i + 3
                while k < e and not (ts[k][0] == 'Context' and ts[k + 1][0] == '::' and ts[k + 2][0] == 'new'): k += 1
                if k < e:
                    g = self.group(ts, k + 3); t, _, _ = self.chain(ts, g, vals, new); notes.append((vals.get(ts[k + 4][0]), t))
                else: notes.append((None, None))
            elif m not in ('with_span', 'with_source', 'push_trace', 'into', 'clone'): break
            i = e
        return tags, notes, i
    def text(self):
        names = {n.split('::')[-1]: c['v']['str'] for n, c in self.P.C.items() if (n.startswith(CODES) or n.startswith(NOTES)) and isinstance((c.get('v') or {}).get('str'), str)}
        crates = {f.get('crate') for f in self.P.F.values()} | {'fuzz'}
        for d in sorted(os.listdir(self.repo)):
            if d.replace('-', '_') in crates or not os.path.isfile(os.path.join(self.repo, d, 'Cargo.toml')): continue
            for dp, dn, fn in os.walk(os.path.join(self.repo, d, 'src')):
                for f in sorted(fn):
                    if not f.endswith('.rs'): continue
                    path = os.path.join(dp, f); rel = os.path.relpath(path, self.repo); ts = self.tokens(open(path, encoding='utf-8').read())
                    for i in range(len(ts) - 5):
                        if not (ts[i][0] == 'Error' and ts[i + 1][0] == '::' and ts[i + 2][0] == 'new' and ts[i + 3][0] == '('): continue
                        e = self.group(ts, i + 3); code = names.get(ts[e - 2][0]); line = ts[i][1]; root = 'error raised in %s:%s' % (rel, line); w = (root, rel, '%s:%s' % (rel, line)); self.res.n('C12', 'places in parts that do not compile')
                        if code is None: self.res.undecide(root, 'its code is not a constant', 'C12'); continue
                        if code not in self.msg: self.res.bad('C12', 'message ' + code, 'an error is raised with the code %s, which has no message' % code, w); continue
                        tags, notes, end = self.chain(ts, e, names, False); bound = i > 0 and ts[i - 1][0] == '=' or end < len(ts) and ts[end][0] == '.'
                        fnname = next((ts[k + 1][0] for k in range(i, -1, -1) if ts[k][0] == 'fn'), '?'); missing = sorted(self.msg[code] - (tags or set()))
                        if missing and (tags is None or bound): self.res.undecide(root, 'its tags are not given where it is made', 'C12'); continue
                        for x in missing: self.res.bad('C12', '%s %s in %s' % (code, x, fnname), 'the error %s is raised without the tag %s its message uses' % (code, x), w)
                        for c, t in notes:
                            if c is None or t is None: continue
                            for x in sorted(self.msg.get(c, set()) - t): self.res.bad('C12', '%s %s in %s' % (c, x, fnname), 'the note %s is added without the tag %s its message uses' % (c, x), w)
                        self.res.decide(root, 'C12')
    # ---------------------------------------------------------------- builders
    def engine(self):
        E = Engine(self.P, 2000000); models.install(E); return E
    def fields(self, ty): return [n for n, t in self.P.T[ty]['variants'][0]['f']]
    def symbolic(self, E, ty):
        return ('adt', ty, 0, tuple(E.mk(('init', n), t) for n, t in self.P.T[ty]['variants'][0]['f']))
    def unwrap(self, E, st, v):
        v = E.freeze(st, v)
        while v is not None and v[0] == 'adt' and v[2] == 1 and 'option::Option' in v[1]: v = v[3][0]
        return v
    def builders(self):
        for ty, pre in ((ERR, ERR), (CTX, CTX)):
            if ty not in self.P.T: continue
            fs = self.fields(ty)
            for n, f in sorted(self.P.F.items()):
                if not n.startswith(pre + '::') or '#' in n or '{' in n or f.get('closure'): continue
                meth = n[len(pre) + 2:]
                if not (meth == 'new' or meth.startswith('with_') or meth.startswith('push_')) or f['locals'][0] != ty: continue
                root = '%s::%s' % (ty.split('::')[-1], meth); w = self.where(root, n)
                def body():
                    E = self.engine(); st = State(); old = self.symbolic(E, ty); args = []
                    for i in range(1, f['argc'] + 1): args.append(old if f['locals'][i] == ty else E.mk(('arg', i), f['locals'][i]))
                    return E, E.call_body_rec(st, n, args, 0), old, args
                r = self.guard(root, body, 'C12', 'C13')
                if r is None: continue
                E, outs, old, args = r; notes = [x for x in E.notes if x not in ('widened', 'loop-sym-override')]
                if E.unknown or notes or not outs: self.res.undecide(root, 'unmodelled: ' + ', '.join(sorted(map(str, list(E.unknown) + notes)))[:200], 'C12', 'C13'); continue
                self.res.decide(root, 'C12', 'C13')
                for o in outs:
                    if o[0] != 'ret': continue
                    st = o[1]; v = o[2]
                    for i, nm in enumerate(fs):
                        self.res.n('C13', 'fields of errors built'); got = E.freeze(st, v[3][i]) if v is not None and v[0] == 'adt' and v[1] == ty else None
                        if got is None: self.res.undecide(root, 'an unknown result', 'C12', 'C13'); break
                        tgt = [j for j in range(1, f['argc'] + 1) if f['locals'][j] != ty]
                        prop = 'C13' if nm in ('span', 'source_code', 'trace') else 'C12'
                        short = {'with_span': 'span', 'with_source': 'source_code', 'with_tags': 'tags', 'push_trace': 'trace', 'push_context': 'context'}.get(meth)
                        if meth == 'new':
                            want = {'error_code': 1, 'msg_id': 1, 'kind': 2}.get(nm)
                            if want and self.unwrap(E, st, got) != E.freeze(st, args[want - 1]): self.res.bad(prop, root + ' ' + nm, 'a new error does not carry the %s it is given' % nm, w)
                            continue
                        if short is None: continue
                        if nm == short:
                            if meth.startswith('with_'):
                                if nm == 'source_code' and got == E.freeze(st, old[3][i]) and old[3][i][0] == 's' and st.facts.get(('var', old[3][i][1])) == 1: continue    # keeps the source it has
                                if self.unwrap(E, st, got) != self.unwrap(E, st, args[tgt[0] - 1]): self.res.bad(prop, root + ' ' + nm, '%s does not set the %s it is given' % (meth, nm), w)
                            else:
                                s = E.seqof(got); k = E.freeze(st, args[tgt[0] - 1])
                                if s is None or not any(x[0] == 'e' and E.freeze(st, x[1]) == k for x in s[1]): self.res.bad(prop, root + ' ' + nm, '%s does not add what it is given' % meth, w)
                                elif not any(x[0] == 'sym' for x in s[1]): self.res.bad(prop, root + ' ' + nm, '%s drops what was added before' % meth, w)
                        elif not self.same(E, st, got, old[3][i]): self.res.bad(prop, root + ' ' + nm, '%s changes the %s' % (meth, nm), w)
        for n, f in sorted(self.P.F.items()):
            if not n.startswith(TAGS + '::push') or '#' in n: continue
            root = 'Tags::push'; w = self.where(root, n)
            def body():
                E = self.engine(); st = State(); st.mem[('R', 't')] = self.symbolic(E, TAGS); old = st.mem[('R', 't')][3][0]
                args = [('ref', ('R', 't'), ())] + [E.mk(('arg', i), f['locals'][i]) for i in range(2, f['argc'] + 1)]
                return E, E.call_body_rec(st, n, args, 0), args, old
            r = self.guard(root, body)
            if r is None: continue
            E, outs, args, old = r
            if E.unknown or not outs: self.res.undecide(root, 'unmodelled: ' + ', '.join(sorted(map(str, E.unknown)))[:200], 'C12'); continue
            self.res.decide(root, 'C12')
            for o in outs:
                if o[0] != 'ret': continue
                st = o[1]; s = E.seqof(st.mem[('R', 't')][3][0]); es = [E.freeze(st, x[1]) for x in s[1] if x[0] == 'e'] if s else []
                k = E.freeze(st, args[1]); self.res.n('C12', 'tags recorded')
                if not any(e[0] == 'tup' and e[1][0] == k for e in es): self.res.bad('C12', root, 'a tag is not recorded under the name given', w)
                elif not any(x[0] == 'sym' for x in s[1]): self.res.bad('C12', root, 'recording a tag drops the tags recorded before', w)
    def spans(self):
        """a span made of a range or of two spans covers them"""
        S = ERR.rsplit('::', 2)[0] + '::span::Span'
        if S not in self.P.T or [n for n, t in self.P.T[S]['variants'][0]['f']] != ['start', 'end']: return
        for n, f in sorted(self.P.F.items()):
            if f['locals'][0] != S or f.get('closure') or '#' in n: continue
            add = n.endswith('::add') and f['argc'] == 2; new = n == S + '::new' and f['argc'] == 1 and f['locals'][1].startswith('core::ops::range::Range<')
            if not (add or new): continue
            root = 'Span ' + ('+' if add else 'new') + (' (%s, %s)' % tuple('&' * f['locals'][i].startswith('&') + 'Span' for i in (1, 2)) if add else ''); w = self.where(root, n)
            def body():
                E = self.engine(); st = State(); ins = []; args = []
                for i in range(1, f['argc'] + 1):
                    ty = f['locals'][i]; bare = ty.lstrip('&')
                    v = ('adt', bare, 0, (E.mk(('init', '%d.start' % i), 'usize'), E.mk(('init', '%d.end' % i), 'usize'))); ins.append(v)
                    if ty.startswith('&'): st.mem[('R', i)] = v; v = ('ref', ('R', i), ())
                    args.append(v)
                outs = E.call_body_rec(st, n, args, 0)
                if E.unknown or not outs: raise Exception('unmodelled: ' + ', '.join(sorted(map(str, E.unknown)))[:200])
                for o in outs:
                    if o[0] != 'ret': continue
                    st = o[1]; v = E.freeze(st, o[2]); self.res.n('C13', 'spans combined')
                    if v[0] != 'adt' or v[1] != S or not all(x[0] in 'is' for x in v[3]): raise Exception('an unknown span')
                    for k, nm in ((0, 'start'), (1, 'end')):
                        for a in ins:
                            c = E.cmp('Le', v[3][k], a[3][k]) if k == 0 else E.cmp('Ge', v[3][k], a[3][k])
                            if E.decide(st, c) is not True: self.res.bad('C13', root + ' ' + nm, 'a span made by %s does not reach from the first start to the last end of what it is made of' % n.split(' as ')[0].strip('<').split('::')[-1], w)
                self.res.decide(root, 'C13')
            self.guard(root, body, 'C13')
    def same(self, E, st, a, b):
        a = E.freeze(st, a); b = E.freeze(st, b)
        if a == b: return True
        s, t = E.seqof(a), E.seqof(b)
        return s is not None and t is not None and s[1] == t[1]
    # ---------------------------------------------------------------- the text of a report
    def reporting(self):
        """the message, notes and position shown are those of the error reported"""
        LOC = 'dice_core::error::localization::'; entries = []; union = set()
        for n, f in sorted(self.P.F.items()):
            if f.get('crate') != 'dice_core' or f.get('closure') or '#' in n or 'dice_core::error::fmt::' not in n: continue
            ks = [i for i in range(1, f['argc'] + 1) if f['locals'][i] == '&' + ERR]
            calls = [self.callee_name(b['t'][1]) or '' for b in f['blocks'] if b['t'][0] == 'call']
            entry = 'ErrorFormatter' in (f.get('trait') or '')
            if not ks or not (entry or any(c.startswith(LOC + 'localize') or c.endswith('LineIndex::position_of') for c in calls)): continue
            short = re.sub(r'::<.*$', '', n).split('::')[-1]; root = 'report ' + short; w = self.where(root, n)
            def body():
                E = self.engine(); st = State(); old = list(self.symbolic(E, ERR)[3]); fs = self.fields(ERR); one = {}
                for nm, ty in (('context', CTX), ('trace', 'dice_core::error::trace::ErrorTrace')):
                    if nm in fs and ty in self.P.T:
                        v = ('adt', ty, 0, tuple(E.mk(('init', nm, x), t) for x, t in self.P.T[ty]['variants'][0]['f'])); one[nm] = dict(zip(self.fields(ty), v[3]))
                        old[fs.index(nm)] = ('seq', (('e', v),))
                st.mem[('R', 'err')] = ('adt', ERR, 0, tuple(old))
                def hook(E, st, c, args, dty, d, wh):
                    cf = c.get('fn') or ''; inst = c.get('inst') or ''; meth = c.get('meth') or cf.split('::')[-1]
                    if inst.startswith(LOC + 'localize'):
                        st.event(('lookup', meth, E.freeze(st, args[0]), E.freeze(st, args[1]))); return [('ret', st, E.fresh(st, 'text', dty))]
                    if cf.endswith('Source::line_index'): return [('ret', st, E.mk(('index', E.freeze(st, args[0])), dty))]
                    if cf.endswith('Source::path'): return [('ret', st, E.mk(('path', E.freeze(st, args[0])), dty))]
                    if cf.endswith('LineIndex::position_of'):
                        a = (E.freeze(st, args[0]), E.freeze(st, args[1])); st.event(('position',) + a); return [('ret', st, E.mk(('pos',) + a, dty))]
                    if cf.endswith('LineIndex::lines'):
                        a = (E.freeze(st, args[0]), E.freeze(st, args[1])); st.event(('lines',) + a); return [('ret', st, E.fresh(st, 'lines', dty))]
                    it = E.strip(st, args[0]) if args else None
                    if it is not None and it[0] == 's' and E.tlist[it[1]][0] in ('n',) and 'lines' in str(E.tlist[it[1]]):
                        if meth == 'next': return [('ret', st, ('adt', dty, 0, ()))]
                        if meth == 'into_iter': return [('ret', st, args[0])]
                        if meth == 'collect': return [('ret', st, ('seq', ()))]
                    if 'fmt::rt::Argument' in cf and meth.startswith('new_') and args: st.event(('show', E.freeze(st, args[0])))
                    if 'core::fmt' in cf or 'alloc::fmt' in cf or 'colored' in cf + inst or 'Colorize' in cf or meth in ('write_fmt', 'write_str', 'must_use', 'to_string', 'write_char'):
                        if dty.startswith('core::result::Result<()'): return [('ret', st, ('adt', dty, 0, (UNIT,)))]
                        return [('ret', st, E.fresh(st, 'text', dty))]
                    return None
                E.hooks = [hook]; E.generic_rounds = 2
                args = [('ref', ('R', 'err'), ()) if i in ks else E.mk(('arg', i), f['locals'][i]) for i in range(1, f['argc'] + 1)]
                return E, E.call_body_rec(st, n, args, 0), dict(zip(fs, old)), one, [a for i, a in enumerate(args) if f['locals'][i + 1] == '&dice_core::source::Source']
            r = self.guard(root, body, 'C12', 'C13')
            if r is None: continue
            E, outs, old, one, srcs = r; notes = [x for x in E.notes if x not in ('widened', 'loop-sym-override')]
            if E.unknown or notes or not outs: self.res.undecide(root, 'unmodelled: ' + ', '.join(sorted(map(str, list(E.unknown) + notes)))[:200], 'C12', 'C13'); continue
            if entry: entries.append((root, w))
            # what a report shows it shows every time (writing succeeds, there is one note and one place called from)
            kinds = []
            for o in outs:
                if o[0] != 'ret': continue
                x = E.strip(o[1], o[2])
                if x is not None and x[0] == 'adt' and x[2] != 0: continue
                kinds.append((o[1], {'message' if 'code' in e[1] else 'note' for e in o[1].events() if e[0] == 'lookup'} |
                              {self.place_kind(E, old, tr_of, e[2]) for tr_of in [one.get('trace', {})] for e in o[1].events() if e[0] == 'position'}))
            some = set().union(*[k for _, k in kinds]) if kinds else set()
            if entry: some.add('message')
            for c in calls:
                if c.startswith(LOC + 'localize'): some.add('message' if 'code' in c else 'note')
            if not entry and any(c.endswith('LineIndex::position_of') for c in calls) and not some & {'position', 'trace', None} and 'lines' not in str(calls): some.add('position')
            if entry: union |= some
            src = old.get('source_code')
            for st, k in kinds:
                self.res.n('C12', 'paths of a report')
                for what in sorted(some - {None}):
                    if what in k or None in k and what in ('position', 'trace'): continue
                    if what == 'position' and src is not None and src[0] == 's' and st.facts.get(('var', src[1])) != 1 and entry: continue
                    self.res.bad('C13' if what in ('position', 'trace') else 'C12', root + ' without ' + what, 'a report may leave out the %s' % {'message': 'message of its error code', 'note': 'notes', 'position': 'position', 'trace': 'places called from'}[what], w)
            for o in outs:
                if o[0] != 'ret': continue
                st = o[1]; ctx = one.get('context', {}); tr = one.get('trace', {}); shown = []
                for e in st.events():
                    if e[0] == 'lookup':
                        self.res.n('C12', 'message lookups'); note = 'code' not in e[1]
                        a, b = (ctx.get('msg_id'), ctx.get('tags')) if note else (old['error_code'], old['tags'])
                        if not self.eq(E, st, e[2], a): self.res.bad('C12', root + ' code', 'the text looked up is not that of the %s' % ('note' if note else 'error code'), w)
                        if not self.eq(E, st, e[3], b): self.res.bad('C12', root + ' tags', 'the text is not given the tags of the %s' % ('note' if note else 'error'), w)
                    if e[0] == 'position':
                        self.res.n('C13', 'positions looked up'); k = 'trace' if short == 'fmt_trace' or entry and self.place_kind(E, old, tr, e[2]) == 'trace' else 'error'
                        sp = tr.get('span') if k == 'trace' else old['span']; so = tr.get('source') if k == 'trace' else None
                        want = E.symfield(sp[1], 'start') if False else None
                        t = self.origin(E, e[2]); 
                        if t is not None and t != (E.pv(sp) + '.start') and t.startswith('init('): self.res.bad('C13', root + ' place', 'the position reported is that of %s, not of the start of the span' % t, w)
                        x = self.origin(E, e[1])
                        want = ['index(%s)' % (E.pv(so) if so is not None else E.pv(E.freeze(st, srcs[0])) if srcs else '')]
                        if srcs or so is not None:
                            if x is not None and x.startswith('index(') and 'init(' in x + E.pv(so or ('i', 0, ())) and so is not None and E.pv(so) not in x: self.res.bad('C13', root + ' source', 'the position is looked up in another source', w)
                    if e[0] == 'show' and is_i(e[1]):
                        p = self.origin(E, ('i', 0, e[1][2]))
                        if p and 'pos(' in p and p.endswith(('.line', '.column_utf16')): shown.append((p.rsplit('.', 1)[1], e[1][1]))
                if short in ('fmt_position', 'fmt_trace') and shown:
                    self.res.n('C13', 'positions shown')
                    if shown[:2] != [('line', 1), ('column_utf16', 1)]: self.res.bad('C13', root + ' shown', 'a report shows %s, not the line and column counted from one' % ', '.join('%s%+d' % x for x in shown), w)
            self.res.decide(root, 'C12', 'C13')
        fs = self.fields(ERR)
        for f, what, p in (('context', 'note', 'C12'), ('trace', 'trace', 'C13'), ('span', 'position', 'C13')):
            if entries and f in fs and what not in union and None not in union and not [r for r, _ in entries if r in self.res.undecided]:
                self.res.bad(p, 'no report shows ' + what, 'no report shows the %s of an error' % {'note': 'notes', 'trace': 'places called from', 'position': 'position'}[what], entries[-1][1])
    def localizing(self):
        """the text of a message is looked up under the identifier given, with every tag under its own name"""
        TAGS = 'dice_core::error::tag::Tags'
        if TAGS not in self.P.T: return
        for n, f in sorted(self.P.F.items()):
            ats = f['locals'][1:f['argc'] + 1]
            if f.get('crate') != 'dice_core' or f.get('closure') or '#' in n or '&' + TAGS not in ats or '&str' not in ats or f['locals'][0] != 'alloc::string::String': continue
            short = re.sub(r'::<.*$', '', n).split('::')[-1]; root = 'text of ' + short; w = self.where(root, n)
            def body():
                E = self.engine(); st = State(); pair = ('tup', (E.mk(('init', 'name'), '&str'), E.mk(('init', 'value'), 'alloc::string::String')))
                st.mem[('R', 'tags')] = ('adt', TAGS, 0, (('seq', (('e', pair),)),))
                def table(x, dty): return ('s', E.sym(('map', tuple(x)), dty))
                def held(v):
                    t = E.tlist[v[1]] if v is not None and v[0] == 's' else ('',)
                    return t[1] if t[0] == 'map' else None
                def hook(E, st, c, args, dty, d, wh):
                    cf = c.get('fn') or ''; meth = c.get('meth') or cf.split('::')[-1]; tr = c.get('trait') or cf
                    if 'Map<' in dty and meth in ('new', 'with_capacity', 'default'): return [('ret', st, table((), dty))]
                    if 'Map<' in dty and meth in ('collect', 'from_iter'):
                        r = models.m_collect(E, st, c, args, 'alloc::vec::Vec<?>', d, wh); out = []
                        for k, s, v in r or ():
                            if k == 'ret':
                                q = E.seqof(v); got = []
                                for g in q[1] if q else ():
                                    x = E.strip(s, g[1]) if g[0] == 'e' else None
                                    if x is None or x[0] != 'tup': E.note('arguments-unknown', 'x'); break
                                    got.append((E.freeze(s, x[1][0]), E.freeze(s, x[1][1])))
                                v = table(got, dty)
                            out.append((k, s, v))
                        return out if r is not None else None
                    if 'Map::<' in cf and meth == 'insert' and len(args) == 3:
                        old = held(E.deref(st, args[0]))
                        if old is None: return None
                        E.write(st, args[0][1], args[0][2], table(old + ((E.freeze(st, args[1]), E.freeze(st, args[2])),), '?'))
                        return [('ret', st, E.fresh(st, 'old', dty))]
                    if 'Loader' in tr and meth.startswith(('lookup', 'try_lookup')):
                        m = held(E.strip(st, args[3])) if len(args) > 3 else ()
                        if m is None: E.note('arguments-unknown', 'x')
                        st.event(('lookup', meth, E.freeze(st, args[2]) if len(args) > 2 else None, m or ())); return [('ret', st, E.mk(('found',), dty))]
                    if meth in ('deref', 'force') and 'lazy' in (c.get('inst') or cf).lower(): return [('ret', st, args[0])]
                    if meth in ('from', 'into') and len(args) == 1 and re.search(r'(FluentValue|Cow)<', dty): return [('ret', st, ('adt', dty, 0, (E.freeze(st, args[0]),)))]
                    return None
                E.hooks = [hook]
                a = [E.mk(('init', 'id'), '&str') if t == '&str' else ('ref', ('R', 'tags'), ()) if t == '&' + TAGS else E.mk(('arg', i), t) for i, t in enumerate(ats)]
                return E, E.call_body_rec(st, n, a, 0)
            r = self.guard(root, body, 'C12')
            if r is None: continue
            E, outs = r; notes = [x for x in E.notes if x not in ('widened', 'loop-sym-override')]
            if E.unknown or notes or not outs: self.res.undecide(root, 'unmodelled: ' + ', '.join(sorted(map(str, list(E.unknown) + notes)))[:200], 'C12'); continue
            def core(v):
                while v is not None and v[0] in ('adt', 'box') and (v[0] == 'box' or len(v[3]) == 1): v = v[1] if v[0] == 'box' else v[3][0]
                return self.origin(E, v) or ''
            def names(t): return set(re.findall(r'init\((id|name|value)\)', t))
            for k, st, v in outs:
                if k != 'ret': continue
                ev = st.events(); look = [e for e in ev if e[0] == 'lookup']
                if not look:
                    if short.startswith('localize'): self.res.bad('C12', root + ' looked up', 'the text of a message is not looked up', w)
                    continue
                self.res.n('C12', 'texts looked up')
                for e in look:
                    if e[2] is not None and names(core(e[2])) != {'id'}: self.res.bad('C12', root + ' identifier', 'the text looked up is not that of the identifier given', w)
                    got = [(names(core(k)), names(core(v))) for k, v in e[3]]
                    if ({'name'}, {'value'}) not in got: self.res.bad('C12', root + ' tags', 'the text of a message is not given the tags by their names', w)
                    if any(g != ({'name'}, {'value'}) for g in got): self.res.bad('C12', root + ' other tags', 'the text of a message is given something else under the name of a tag', w)
            self.res.decide(root, 'C12')
    def place_kind(self, E, old, tr, at):
        t = self.origin(E, at); 
        if t == E.pv(old['span']) + '.start': return 'position'
        if tr.get('span') is not None and t == E.pv(tr['span']) + '.start': return 'trace'
        return None
    def eq(self, E, st, a, b):
        if b is None: return True
        if self.same(E, st, a, b): return True
        x = E.freeze(st, a); y = E.freeze(st, b)
        for v in (x, y):
            pass
        if x[0] == 'adt' and x[3] and self.same(E, st, x[3][0], y): return True
        return E.pv(x) == E.pv(y)
    def origin(self, E, v):
        try: return E.pv(v)
        except Exception: return None
    def callee_name(self, op):
        v = op[1].get('v') if op[0] == 'k' else None
        return (v.get('inst') or v.get('fn')) if v and v.get('fn') else None

"""Which analyses decide which property, and what must have been analysed for an answer to count."""
import signal, traceback, time
import compiler, nodecheck, roots, parsecheck, lexcheck, codec, errcheck, build
from codes import CODES

NODE = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C13', 'C15', 'C16', 'C17', 'C18', 'C21', 'C25', 'C26')

class Timeout(Exception): pass

class limit:
    """bounds the time one root may take"""
    def __init__(self, s): self.s = s
    def __enter__(self):
        def h(*a): raise Timeout('took longer than %d s' % self.s)
        self.old = signal.signal(signal.SIGALRM, h); signal.alarm(self.s)
    def __exit__(self, *a):
        signal.alarm(0); signal.signal(signal.SIGALRM, self.old)

def nodes(P, res, tier):
    M = compiler.CompilerModel(P)
    nodecheck.run_nodes(M, res, CODES, limit=lambda: limit(40 if tier == 'quick' else 200))

def helpers(P, res, tier):
    M = compiler.CompilerModel(P); lim = lambda: limit(60)
    roots.constants(M, res, CODES, lim); roots.captures(M, res, CODES, lim); roots.program(M, res, CODES, lim)

def syntax(P, res, tier):
    parsecheck.Check(P, res, CODES, limit=lambda: limit(100 if tier == 'quick' else 400)).run(tier=tier)

def lexing(P, res, tier):
    lexcheck.check(P, res, CODES, lambda: limit(120))

def encoding(P, res, tier):
    codec.check(P, res, CODES, lambda: limit(60))

def errors(P, res, tier):
    errcheck.Check(P, res, lambda: limit(100), build.REPO).run()

ANALYSES = [
    ('error codes, messages, notes and tags', ('C12', 'C13'), errors),
    ('opcodes, operand readers, listing and accessors', ('C10', 'C11', 'C02', 'C05'), encoding),
    ('lexer against the tokens of the language', ('C20', 'C11', 'C12', 'C13', 'C05'), lexing),
    ('constant table, captures and whole programs', ('C01', 'C03', 'C04', 'C06', 'C08', 'C09', 'C11', 'C13', 'C15', 'C16', 'C17', 'C21', 'C25', 'C26'), helpers),
    ('code emitted per construct', NODE, nodes),
    ('parser functions against the grammar', parsecheck.PROPS + ('C09',), syntax),
]

def run(P, prop, res, tier):
    for name, props, fn in ANALYSES:
        if prop not in props: continue
        try: fn(P, res, tier)
        except Exception:
            res.undecide(name, 'analysis failed: ' + traceback.format_exc(limit=-3)[-600:], *props)

TEXT = {}
def explain(prop):
    return TEXT.get(prop, BASE)
BASE = ('Static analysis of the type-checked program (MIR) of the current tree. For each syntax-tree variant an abstract interpretation of the compiler\'s '
        'visitor over symbolic sequences and symbolic compiler state yields every outcome (emitted byte sequence with its patches, final state, or error); '
        'each emitted sequence is decoded and followed on all paths in lock-step with the reference semantics of the construct. Counts are of this run.')

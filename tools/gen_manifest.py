import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C22': 'line and column of an offset depend on the numeric content of runtime tables (line starts, UTF-16 widths) for arbitrary text; no static rule in reach bounds these values, and checking the arithmetic by its shape would reject equivalent rewrites',
 'C23': 'dice-runtime does not compile at this commit, so there is no type-checked program of the virtual machine to analyse; its behaviour also quantifies over runtime values',
 'C24': 'the module loader is part of dice-runtime, which does not compile at this commit, so there is no type-checked program to analyse',
}
PENDING = {k: 'the check for this property is not built yet' for k in ()}
TECH = {
 'C01': 'abstract interpretation of each visitor over MIR; stack-height typestate of the emitted instruction sequence on all paths',
 'C02': 'abstract interpretation over MIR; jump placeholders as typestate (created, patched once, target an instruction boundary)',
 'C03': 'abstract interpretation over MIR; recorded temporaries compared with the stack height at every nested visit and early exit',
 'C04': 'abstract interpretation over MIR; emitted code followed in lock-step with a reference evaluation order per construct',
 'C05': 'abstract interpretation over MIR plus table agreement (token, operator, instruction, name, spelling)',
 'C06': 'abstract interpretation over MIR; mutability flag dataflow from declaration to assignment outcome',
 'C07': 'abstract interpretation over MIR; declaration state as typestate, lookup order, error outcome per case',
 'C08': 'abstract interpretation over MIR; context conditions of accepting and rejecting outcomes compared with the rule per construct',
 'C09': 'abstract interpretation over MIR; interval check on every narrowing of an emitted operand',
 'C10': 'opcode, operand and name tables of encoder, reader and disassembler interpreted from MIR and compared with each other and with every emitted sequence',
 'C11': 'reachability of panicking operations over the MIR call graph, path conditions for the compiler, reviewed table for the rest',
 'C12': 'uniqueness and cross-reference of error tables (MIR constants against locale resources); interprocedural dataflow of code, tags and notes from every place an error is made to where it leaves',
 'C13': 'abstract interpretation over MIR; provenance of the span and source of each error outcome',
 'C14': 'progress and must-consume dataflow over the parser MIR',
 'C15': 'abstract interpretation over MIR; capture descriptors and closing of captured variables',
 'C16': 'abstract interpretation over MIR; slot arithmetic of declarations over the symbolic scope stack',
 'C17': 'abstract interpretation over MIR; final compiler state compared field by field with the initial one',
 'C18': 'abstract interpretation over MIR; annotation checks present and placed before use on all paths',
 'C19': 'abstract interpretation of parser functions over MIR against a reference grammar',
 'C20': 'the generated byte automaton interpreted from MIR in product with a reference automaton; abstract interpretation of scanners and token stream',
 'C21': 'abstract interpretation over MIR; provenance of every constant operand',
 'C25': 'abstract interpretation over MIR; provenance of names, kinds and values in the member, import and export code of each declaration',
 'C26': 'abstract interpretation over MIR; prologue, receiver and argument slots, body identity and return paths of every function kind',
}
checks = []; na = []
for l in open(H + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in NA: na.append({'property': p, 'reason': NA[p]})
    elif p in PENDING: na.append({'property': p, 'reason': PENDING[p]})
    else:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p, 'technique': TECH[p], 'level': 'other',
                       'level_note': 'static analysis: sound for the constructs it decides up to the models of library calls and the contract that nested visits behave as checked themselves; undecided constructs are listed in the evidence'})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}, open(H + '/MANIFEST.json', 'w'), indent=1)

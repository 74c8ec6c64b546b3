#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

V = "dice-compiler/src/visitor/"
NOTEST = ("The tests that build today exercise only the lexer (eight sample inputs) and line lookup (six); "
          "nothing compiles a program. ")

prop("C01", "Emitted bytecode keeps the operand stack balanced",
  "For every program the compiler accepts, the bytecode it emits for an expression, statement or function body never pops "
  "a value it did not push, leaves exactly one value (its result) on the operand stack on every path that reaches its end, "
  "and reaches every join and loop head with the same stack depth on all paths.",
  ["programs"], "Every accepted program: every syntax-node kind, every operand count, every nesting, every path through the emitted code.",
  NOTEST + "Programs nest without bound, so samples cannot cover every combination of construct and path.",
  [V, "dice-compiler/src/assembler.rs", "dice-bytecode/src/instruction.rs"],
  [("per-node emission code", V), ("emitter methods", "dice-compiler/src/assembler.rs")],
  [("operand stack", "values pushed and popped by emitted instructions", "dice-runtime/src/interpreter/mod.rs")], ["emitted bytecode"])

prop("C02", "Every emitted jump is resolved and lands on an instruction",
  "In the bytecode of every accepted program each jump's offset has been filled in exactly once (no placeholder survives), and its "
  "target is the start of an instruction of the same function: forward jumps land at the end of the construct they skip and loop "
  "back-jumps land on the loop's head.",
  ["programs"], "Every accepted program and every jump instruction in its bytecode.",
  NOTEST + "An unpatched or mis-patched jump only shows for the construct, and often the nesting, that uses it.",
  [V, "dice-compiler/src/assembler.rs", "dice-compiler/src/scope_stack.rs"],
  [("jump emission and patching", "dice-compiler/src/assembler.rs jump/jump_if_*/patch_jump/jump_back"),
   ("loop and call-chain exit lists", "dice-compiler/src/scope_stack.rs")])

prop("C03", "Early exits discard exactly the temporaries in flight",
  "When a return, an error-propagation operator, a break or a continue leaves an expression early, the emitted code discards exactly the values "
  "that enclosing, partially evaluated constructs had already pushed: the returned value is on top of an otherwise clean operand stack, and a loop "
  "left or restarted early has the stack depth it has when left or restarted normally.",
  ["programs"], "Every accepted program; every early-exit construct in every expression position.",
  NOTEST + "The failing combinations are products of an exit construct and an enclosing expression position.",
  [V + "expr_return.rs", V + "expr_error_propagate.rs", V + "expr_break.rs", V + "expr_continue.rs", V + "expr_fn_call.rs", V + "expr_index.rs", V + "expr_super_call.rs"],
  [("count of in-flight temporaries", "dice-compiler/src/compiler_stack.rs temporary_count"), ("clean-up loop before return", V + "expr_return.rs")])

prop("C04", "Sub-expressions are evaluated once, in order, with short-circuiting",
  "For every accepted program the emitted code evaluates each operand of an expression in the language's documented order and exactly once on every path "
  "that needs it: logical and coalescing operators and conditionals evaluate only the branch their condition selects, loops re-evaluate condition and body each "
  "round, a null-propagating chain stops at the first null receiver, and the value of the expression is computed from the operands the source names.",
  ["programs"], "Every accepted program; every expression kind and every outcome of every condition.",
  NOTEST + "Evaluation order and count are only visible with side effects in operands, for each operator and path separately.",
  [V], [("per-node emission code", V)])

prop("C05", "Each operator token denotes one operation from source to bytecode",
  "Each operator spelling of the language (arithmetic, comparison, logical, range, prefix, and compound assignment) is lexed, parsed, compiled, displayed and, where it can be overloaded, "
  "named as the same single operation: no two operators share one, none is swapped with another, and a compound assignment applies the operator it is spelled with.",
  ["inputs", "programs"], "Every operator spelling and every place it can occur.",
  NOTEST + "Only a handful of tokens are lexed by tests; no test checks which operation an operator compiles to.",
  ["dice-syntax/src/lexer/token.rs", "dice-syntax/src/parser/mod.rs", V + "expr_binary_op.rs", V + "expr_assignment.rs", V + "decl_op.rs", "dice-core/src/protocol.rs", "dice-bytecode/src/instruction.rs"],
  [("token to operator tables", "dice-syntax/src/parser/mod.rs"), ("operator to instruction match", V + "expr_binary_op.rs"), ("operator to method-name match", V + "decl_op.rs")])

prop("C06", "Immutable variables cannot be reassigned",
  "Every assignment, plain or compound, to a variable that was not declared mutable is rejected with the reassignment error naming the variable, whether it is a local of the "
  "current function or captured from an enclosing one, and assignment to a variable declared mutable is accepted; imports, parameters, loop variables, functions and "
  "classes are immutable.",
  ["programs"], "Every assignment in every program; every kind of declaration and every capture depth.",
  NOTEST + "No test compiles an assignment.",
  [V + "expr_assignment.rs", "dice-compiler/src/scope_stack.rs", "dice-compiler/src/upvalue.rs", "dice-compiler/src/compiler_stack.rs", V + "decl_var.rs"],
  [("mutability test before emission", V + "expr_assignment.rs"), ("mutability carried into captures", "dice-compiler/src/compiler_stack.rs resolve_upvalue")])

prop("C07", "Undeclared, uninitialised and duplicate names are rejected",
  "Reading a function or class declared in the block before its declaration has executed, assigning to a name that is neither a local nor captured, declaring two functions or "
  "two classes of one name in a block, or giving a function two parameters of one name is always a compile error of the matching kind; a name lookup always selects the innermost, most recent declaration.",
  ["programs"], "Every program; every name use and declaration.",
  NOTEST + "No test compiles a program with a declaration.",
  [V + "literal_variable.rs", V + "decl_fn.rs", V + "decl_class.rs", "dice-compiler/src/decl_scan.rs", "dice-compiler/src/scope_stack.rs"],
  [("initialisation flag test", V + "literal_variable.rs"), ("duplicate tests", V + "decl_fn.rs, decl_class.rs")])

prop("C08", "Constructs are accepted only in the contexts that give them meaning",
  "break and continue are accepted exactly inside a loop of the same function, return only in functions, methods and constructors (without a value in constructors), error propagation only in "
  "functions and methods, super access only in methods and constructors, export only at the top level of a module, and a constructor of a derived class must start with a super call; "
  "everywhere else the compiler reports the matching error.",
  ["programs"], "Every program and every occurrence of a context-restricted construct.",
  NOTEST + "Each construct has several contexts and the product is not sampled.",
  [V + "expr_break.rs", V + "expr_continue.rs", V + "expr_return.rs", V + "expr_error_propagate.rs", V + "expr_super_access.rs", V + "decl_export.rs", V + "decl_class.rs", V + "expr_block.rs", "dice-compiler/src/compile_fn.rs"],
  [("context guards at the start of each visitor", V)])

prop("C09", "Encoding limits are reported, never silently truncated",
  "Bytecode operands have fixed widths; whenever a program needs a constant index, slot, capture index, argument or element count, or jump distance that does not fit its operand, the compiler "
  "reports an error instead of emitting a truncated operand, and every program within the limits compiles.",
  ["programs"], "Every program, however large: every narrowed operand at every emission site.",
  NOTEST + "The limits are reached only by programs with hundreds of constants, locals or arguments or tens of kilobytes of code.",
  ["dice-compiler/src/assembler.rs", V], [("index range checks", "dice-compiler/src/assembler.rs make_constant, closure"), ("narrowing casts", V)])

prop("C10", "Instruction encoding and decoding agree",
  "Every instruction has one opcode byte that decodes back to the same instruction, the number, width and order of operands the compiler writes after an opcode are exactly those the bytecode reader and "
  "disassembler consume, and multi-byte operands use one byte order throughout.",
  ["programs"], "Every instruction and every operand layout, in every producer and consumer.",
  NOTEST + "No test encodes or decodes an instruction.",
  ["dice-bytecode/src/instruction.rs", "dice-bytecode/src/cursor.rs", "dice-bytecode/src/lib.rs", "dice-compiler/src/assembler.rs"],
  [("opcode enum and conversions", "dice-bytecode/src/instruction.rs"), ("operand readers", "dice-bytecode/src/cursor.rs"), ("disassembler", "dice-bytecode/src/lib.rs")])

prop("C11", "Compiling arbitrary source text never panics",
  "For every source text, lexing, parsing and compiling it returns either bytecode or an error value; no input reaches an unreachable, unimplemented, unwrapped or out-of-range access.",
  ["inputs"], "Every string given as module or script source.",
  NOTEST + "The input space is all strings; panics sit on token/construct combinations nobody wrote a test for.",
  ["dice-syntax/src/parser/", "dice-syntax/src/lexer/", "dice-compiler/src/", "dice-core/src/"],
  [("error results instead of panics", "dice-syntax/src/parser/mod.rs, " + V)])

prop("C12", "Every error has a unique code and a complete message",
  "Error codes are pairwise distinct, every error code and note the compiler can report has a message in the shipped locale, and every placeholder such a message uses is supplied with that name at every place "
  "the error is raised.",
  ["configurations", "programs"], "Every error code, every note, every place one is raised.",
  NOTEST + "No test renders an error; a missing message or tag only shows when that error is formatted.",
  ["dice-core/src/error/", "data/locales/en-US/errors.ftl", "data/locales/en-US/error-notes.ftl", "dice-compiler/src/", "dice-syntax/src/"],
  [("code constants", "dice-core/src/error/codes.rs"), ("locale files", "data/locales"), ("tags at raise sites", "dice-syntax/src/parser/mod.rs, " + V)])

prop("C13", "Every reported error points at its place in the source",
  "Every error returned for a source text carries the source it came from and the span of the construct that caused it, and passing an error outwards never drops or replaces the span it was raised with.",
  ["inputs"], "Every rejected source text and every path an error takes to the caller.",
  NOTEST + "No test inspects a returned error's position.",
  ["dice-core/src/error/mod.rs", "dice-syntax/src/parser/mod.rs", "dice-compiler/src/compiler.rs", V],
  [("span attached where raised", "dice-syntax/src/parser/mod.rs, " + V), ("source attached at the entry point", "dice-compiler/src/compiler.rs, dice-syntax/src/parser/mod.rs")])

prop("C14", "Parsing consumes the whole input and always makes progress",
  "A successful parse has consumed every token of the source, so no text is silently ignored, every loop in the parser consumes at least one token per round or ends, and tokens consumed as one kind are checked to be that kind.",
  ["inputs"], "Every source text; every parser loop.",
  NOTEST + "No test runs the parser.",
  ["dice-syntax/src/parser/mod.rs", "dice-syntax/src/lexer/mod.rs"],
  [("end-of-input check", "dice-syntax/src/parser/mod.rs parse"), ("consume helpers", "dice-syntax/src/lexer/mod.rs")])

prop("C15", "Closures capture the variable they name",
  "A name not found in the current function resolves to the nearest enclosing function's variable of that name; the closure captures it directly from the parent's local or through the parent's own capture, "
  "each distinct captured variable gets one capture slot that keeps its mutability, the captured variable is closed over when its scope ends, and the closure instruction lists exactly the captures the function body uses.",
  ["programs"], "Every program; every nesting depth between use and declaration.",
  NOTEST + "Capture resolution is recursive over an unbounded nesting depth.",
  ["dice-compiler/src/compiler_stack.rs", "dice-compiler/src/upvalue.rs", V + "literal_variable.rs", V + "decl_fn.rs", V + "expr_block.rs"],
  [("recursive capture resolution", "dice-compiler/src/compiler_stack.rs resolve_upvalue"), ("capture deduplication", "dice-compiler/src/compiler_stack.rs add_upvalue"), ("close on scope end", V + "expr_block.rs")])

prop("C16", "Every live local variable has its own slot",
  "A newly declared variable is given a slot that no other live variable of the same function uses, slots are reused only after the scope that declared them has ended, the function's recorded slot count covers every slot it uses, "
  "and parameters occupy the first slots in call order.",
  ["programs"], "Every program; every sequence of scopes and declarations.",
  NOTEST + "Slot clashes need particular nestings of scopes and declarations.",
  ["dice-compiler/src/scope_stack.rs", "dice-compiler/src/compiler_stack.rs", V + "expr_block.rs"],
  [("slot allocation", "dice-compiler/src/scope_stack.rs add_local"), ("slot count recorded at finish", "dice-compiler/src/compiler_stack.rs finish")])

prop("C17", "Scopes and compiler bookkeeping are restored after each construct",
  "Compiling any construct leaves the compiler's nesting state as it found it: each scope, function context and call chain that is opened is closed exactly once on every successful path, variables of a block, loop, class or function are "
  "not visible after it, and loop exits are attributed to the innermost loop only.",
  ["programs"], "Every program; every construct and nesting.",
  NOTEST + "A leaked scope only shows in code following the construct.",
  [V, "dice-compiler/src/scope_stack.rs", "dice-compiler/src/compiler_stack.rs", "dice-compiler/src/compile_fn.rs"],
  [("scope push and pop", "dice-compiler/src/scope_stack.rs"), ("context push and pop", "dice-compiler/src/compile_fn.rs")])

prop("C18", "Type annotations are always enforced",
  "Every type annotation on a variable, parameter or return value makes the emitted code check the annotated value against the annotated type before the value can be used or returned, with null admitted exactly when the annotation is nullable, "
  "and no unannotated value is checked.",
  ["programs"], "Every program; every annotation position and nullability, and every way of returning.",
  NOTEST + "No test compiles an annotation.",
  [V + "decl_var.rs", V + "expr_block.rs", V + "expr_return.rs", V + "expr_error_propagate.rs", V + "expr_is.rs"],
  [("assertion emission", V + "decl_var.rs, expr_block.rs")])

prop("C19", "Source text parses to the tree the grammar prescribes",
  "Binary, prefix and postfix operators bind with the language's fixed precedence and associativity, and each construct's parser stores every sub-expression, name, argument, annotation and flag it reads in the matching part of the "
  "syntax tree, in source order, losing and duplicating none.",
  ["inputs"], "Every source text; every operator pair and every construct.",
  NOTEST + "No test builds a syntax tree.",
  ["dice-syntax/src/parser/mod.rs", "dice-syntax/src/parser/rules.rs", "dice-syntax/src/ast/node.rs"],
  [("precedence table", "dice-syntax/src/parser/rules.rs"), ("productions", "dice-syntax/src/parser/mod.rs")])

prop("C20", "Lexing assigns each spelling its own token and skips only trivia",
  "Each keyword, operator and punctuation spelling of the language is recognised as exactly its own token, identifiers and keywords never shade into each other, only whitespace and comments are skipped, unrecognised characters become an error, "
  "and peeking at a token never changes what is consumed next.",
  ["inputs"], "Every source text.",
  NOTEST + "The eight lexer tests sample a few tokens and hardly compare kinds.",
  ["dice-syntax/src/lexer/token.rs", "dice-syntax/src/lexer/mod.rs"],
  [("token table", "dice-syntax/src/lexer/token.rs"), ("peek buffer", "dice-syntax/src/lexer/mod.rs")])

prop("C21", "Literals and constants keep their value into the bytecode",
  "The value a literal, name or function denotes in the source is the value the emitted instruction loads: a constant operand always indexes the equal, same-typed entry of the function's constant table, entries are shared only between equal constants, and "
  "the one-byte forms for zero, one, booleans, null and unit are used only for exactly those values.",
  ["programs"], "Every literal value and every constant table content.",
  NOTEST + "No test compiles a literal.",
  ["dice-compiler/src/assembler.rs", V, "dice-syntax/src/parser/mod.rs", "dice-bytecode/src/lib.rs"],
  [("constant table", "dice-compiler/src/assembler.rs make_constant"), ("literal visitors", V)])

prop("C22", "Positions are reported as the right line and column",
  "For every source text and byte offset, the reported line and column are those of that offset, for all line-ending conventions and multi-byte characters.",
  ["inputs"], "Every source text and offset.",
  "Six unit tests check fixed strings only; offsets and line-ending mixtures are unbounded.",
  ["dice-core/src/source.rs"], [("line index", "dice-core/src/source.rs LineIndex")])

prop("C23", "Running bytecode computes what the instructions say",
  "For every program the virtual machine's arithmetic, calls, method dispatch, closures, modules and garbage collection behave as the instruction set defines.",
  ["programs", "histories"], "Every program and input.",
  "The runtime crate does not build at this commit, so its script tests do not run.",
  ["dice-runtime/src/"], [("interpreter loop", "dice-runtime/src/interpreter/mod.rs")])

prop("C24", "Module loading stays inside the module root",
  "Loading a module never reads a file outside the directory the loader was rooted at, whatever path the import names.",
  ["inputs"], "Every import path and file-system layout.",
  "The runtime crate does not build at this commit, so no test of it runs.",
  ["dice-runtime/src/module/file_loader.rs"], [("canonicalise and prefix check", "dice-runtime/src/module/file_loader.rs")])

prop("C25", "Classes, objects and modules bind each member under its own name and kind",
  "A class declaration creates a class with the declared name and base and stores every member on it exactly once: a function whose first parameter is self as a method (new as the constructor), any other function "
  "as a static member, an operator under its operator's method name; an object literal sets each field to its value; an import binds each item to the same-named export of the module, or the module itself; an export puts the "
  "declared variable, function or class into the module's exports under its own name, and a module delivers exactly that export object; a member access reads the member the source names.",
  ["programs"], "Every accepted program; every declaration, member list and access.",
  NOTEST + "Each member kind, name and list position is compiled by its own path.",
  [V + "decl_class.rs", V + "decl_op.rs", V + "decl_import.rs", V + "decl_export.rs", V + "literal_object.rs", V + "expr_field_access.rs", "dice-compiler/src/compiler.rs"],
  [("member emission", V + "decl_class.rs"), ("import and export binding", V + "decl_import.rs, " + V + "decl_export.rs"), ("module end", "dice-compiler/src/compiler.rs")])

prop("C26", "Functions bind their parameters in order and return the value of their body",
  "Every function, closure, method, constructor and operator is compiled from exactly its own body and named as declared; it finds its receiver in the first slot and its arguments in the following slots in call order, a call passes "
  "its arguments once and in order, every path through the body ends in a return (of the returned expression, of the body's last value, of unit where there is none, and always of self for a constructor), and a script ends with the value of its last expression.",
  ["programs"], "Every accepted program; every function kind, parameter list and path through a body.",
  NOTEST + "The slot a parameter is found in and the value returned depend on function kind, parameter count and every nested construct.",
  [V + "decl_fn.rs", V + "decl_op.rs", V + "literal_anonymous_fn.rs", V + "expr_block.rs", V + "expr_return.rs", V + "expr_fn_call.rs", "dice-compiler/src/compile_fn.rs"],
  [("function compilation", "dice-compiler/src/compile_fn.rs"), ("prologue and implicit return", V + "expr_block.rs"), ("explicit return", V + "expr_return.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))

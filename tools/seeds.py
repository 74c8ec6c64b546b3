V = 'dice-compiler/src/visitor/'; C = 'dice-compiler/src/'
SEEDS = []
def seed(id, property, edits, needs, breaks, demo): SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed('c05-div-assign', 'C05', [(V + 'expr_assignment.rs', 'AssignmentOperator::DivAssignment => self.assembler()?.div(span)', 'AssignmentOperator::DivAssignment => self.assembler()?.rem(span)')],
     'a compound assignment spelled /=', 'x /= y stores the remainder of the division',
     'expect("let mut x = 17 x /= 5 x", Ok("3"), &[]); expect("let mut x = 17 x *= 5 x", Ok("85"), &[]);')
seed('c04-field-twice', 'C04', [(V + 'expr_assignment.rs', '''                        DUP 0;
                        LOAD_FIELD &*target.field;''', '''                        {self.visit(target.expression)?};
                        LOAD_FIELD &*target.field;''')],
     'a compound assignment to a field whose target expression has a side effect', 'the target of a compound field assignment is evaluated twice',
     'expect("let o = #{ a: 2 } ev(o).a += 3 o.a", Ok("5"), &["ev({a: 2})"]);')
seed('c16-slot-depth', 'C16', [(C + 'scope_stack.rs', 'let slot_count = self.stack.iter().rev().map(|scope| scope.slot_count).sum();', 'let slot_count = self.stack.iter().rev().take(3).map(|scope| scope.slot_count).sum();')],
     'variables declared in four or more nested scopes of one function', 'a variable declared in a deeply nested scope shares its slot with one of an outer scope',
     'expect("let a = 1 { let b = 2 { let c = 3 { let d = 4 ev(a) ev(b) ev(c) ev(d) } } } a", Ok("1"), &["ev(1)", "ev(2)", "ev(3)", "ev(4)"]);')
seed('c15-capture-kind', 'C15', [(C + 'compiler_stack.rs', '.position(|upvalue| *upvalue == descriptor)', '.position(|upvalue| upvalue.description().1 == descriptor.description().1)')],
     'one closure that captures a local of its parent and, through it, a variable of the grandparent with the same index', 'two different captured variables share one capture slot',
     'expect("let w = 0 let x = 1 let f = || { let a = 2 let g = || { ev(w) ev(x) ev(a) x } g() } f()", Ok("1"), &["ev(0)", "ev(1)", "ev(2)"]);')
seed('c07-shadow', 'C07', [(C + 'scope_stack.rs', '.flat_map(|scope| scope.variables.iter_mut().rev())', '.flat_map(|scope| scope.variables.iter_mut())')],
     'a name declared twice in the same scope', 'a lookup finds the oldest declaration of a name in a scope instead of the newest',
     'expect("let x = 1 let x = 2 x", Ok("2"), &[]);')
seed('c03-return-one', 'C03', [(V + 'expr_return.rs', 'for _ in 0..temporary_count => [', 'for _ in 0..temporary_count.min(2) => [')],
     'a return evaluated below three or more pending call arguments', 'a return inside the third argument of a call leaves an earlier argument on the stack',
     'expect("fn f(b) { g(1, 2, if b { return 7 } else { 3 }) } f(true)", Ok("7"), &[]); expect("fn f(b) { g(1, if b { return 7 } else { 3 }) } f(true)", Ok("7"), &[]);')
seed('c08-propagate-ctor', 'C08', [(V + 'expr_error_propagate.rs', 'CompilerKind::Function { .. } | CompilerKind::Method { .. }', 'CompilerKind::Function { .. } | CompilerKind::Method { .. } | CompilerKind::Constructor')],
     'an error propagation inside a constructor', 'error propagation is accepted in a constructor, which then returns the error instead of the object',
     'expect("class A { fn new(self) { f()!! } } A", Err("E2503"), &[]);')
seed('c18-method-return', 'C18', [(V + 'expr_block.rs', '''        | CompilerKind::Method {
            return_type: Some(return_type),
        } = self.context()?.kind()''', '''        = self.context()?.kind()''')],
     'a method with an annotated return type that returns a value of another type', 'return type annotations of methods are not enforced',
     'expect("class A { fn new(self) { } fn m(self) -> Int { \\"s\\" } } A().m()", Err("\\"s\\" is not a type Int"), &[]);')
seed('c21-const-mixed', 'C21', [(C + 'assembler.rs', '.position(|current| *current == into)', '''.position(|current| match (current, &into) {
            (ConstantValue::Symbol(current), ConstantValue::String(into)) => current == into,
            _ => *current == into,
        })''')],
     'a string literal spelled like a name used earlier in the same function', 'a string literal loads the symbol constant of the same text',
     'expect("ev(1) let s = \\"ev\\" s", Ok("\\"ev\\""), &["ev(1)"]);')
seed('c17-class-scope', 'C17', [(V + 'decl_class.rs', '''        self.close_upvalues(node)?;
        self.context()?.scope_stack().pop_scope()?;
''', '''        if class_kind == ClassKind::Derived {
            self.close_upvalues(node)?;
        }
        if !node.associated_items.is_empty() {
            self.context()?.scope_stack().pop_scope()?;
        }
''')],
     'a class without members followed by a top-level export', 'the scope of an empty class stays open, so the rest of the module is compiled inside it',
     'let r = compile("class A { } export let x = 1", dice_core::source::SourceKind::Module); if r.is_err() { eprintln!("rejected"); std::process::exit(1); }')
seed('c02-while-breaks', 'C02', [(V + 'expr_while.rs', 'for location in scope_close.exit_points.iter() {', 'for location in scope_close.exit_points.iter().take(8) {')],
     'a while loop with more than eight breaks', 'the ninth break of a loop is never patched and falls through to the next instruction',
     'let mut s = String::from("let mut i = 0 while true { i += 1 "); for k in 2..11 { s += &format!("if i == {} {{ break }} ", 100 - k); } s += "} i"; expect(&s, Ok("90"), &[]);')
seed('c01-import-pop', 'C01', [(V + 'decl_import.rs', '''                    STORE_LOCAL slot;
                    POP;''', '''                    STORE_LOCAL slot;
                    if slot != 0 => [
                        POP;
                    ]''')],
     'an import whose first item gets slot 0', 'an import leaves a value of its own on the stack',
     'expect("import { a, b } from \\"m\\" a", Ok("\\"m.a\\""), &["module m"]);')
seed('c09-const-limit', 'C09', [(C + 'assembler.rs', 'if position > 255 {', 'if position > 256 {')],
     'a function with exactly 257 distinct constants', 'the 257th constant is encoded as index 0',
     'let mut s = String::new(); for i in 2..258 { s += &format!("{} ", i); } s += "999"; expect(&s, Err("E2101"), &[]);')
seed('c06-compound-upvalue', 'C06', [(V + 'expr_assignment.rs', 'if !self.context()?.upvalues()[upvalue].is_mutable() {', 'if matches!(operator, AssignmentOperator::Assignment) && !self.context()?.upvalues()[upvalue].is_mutable() {')],
     'a compound assignment to a captured immutable variable', 'closures can change captured immutable variables with compound assignments',
     'expect("let x = 1 let f = || { x += 1 } f() x", Err("E2403"), &[]);')
S = 'dice-syntax/src/'; PM = S + 'parser/mod.rs'
seed('c14-class-comma', 'C14', [(PM, '''                TokenKind::Operator => self.op_decl()?,
                kind => self.unexpected_token(kind, &[TokenKind::Function, TokenKind::Operator], next_token.span)?,
            };

            associated_items.push(expression);

            next_token = self.lexer.peek()?;
''', '''                TokenKind::Operator => self.op_decl()?,
                TokenKind::Comma if !associated_items.is_empty() => {
                    next_token = self.lexer.peek()?;
                    continue;
                }
                kind => self.unexpected_token(kind, &[TokenKind::Function, TokenKind::Operator], next_token.span)?,
            };

            associated_items.push(expression);

            next_token = self.lexer.peek()?;
''')],
     'a comma after a member of a class', 'the parser never returns on a class whose members are separated by commas',
     'expect("class A { fn new(self) { }, fn m(self) { 1 } } A().m()", Err("E1000"), &[]); expect("class A { fn m(self) { 1 } } A().m()", Ok("1"), &[]);')
seed('c14-fields-comma', 'C14', [(PM, '''            args.push(name);

            let next = self.lexer.peek()?;
            if next.kind == TokenKind::Comma {
                self.lexer.next()?;
            } else if next.kind != close_token_kind {''', '''            args.push(name);

            let next = self.lexer.peek()?;
            if next.kind == TokenKind::Comma || next.kind == TokenKind::Colon {
                self.lexer.next()?;
            } else if next.kind != close_token_kind {''')],
     'a destructuring pattern with a colon after a name', 'the colon in a pattern is silently ignored, so a renaming pattern binds both names as fields',
     'expect("let { a: b } = #{ a: 1, b: 2 } ev(a) b", Err("E1000"), &[]); expect("let { a, b } = #{ a: 1, b: 2 } b", Ok("2"), &[]);')
seed('c19-coalesce-assoc', 'C19', [(PM, '''        let precedence = rule.infix.expect("Invalid infix rule.").1.increment();
''', '''        let precedence = rule.infix.expect("Invalid infix rule.").1;
        let precedence = match operator {
            BinaryOperator::Subtract if self.lexer.peek()?.kind == TokenKind::LeftParen => precedence,
            _ => precedence.increment(),
        };
''')],
     'a subtraction whose right operand starts with a parenthesis and is followed by another term', 'subtraction groups to the right when its operand starts with a parenthesis',
     'expect("10 - (4) - 3", Ok("3"), &[]); expect("10 - 4 - 3", Ok("3"), &[]); expect("10 - (4 - 3)", Ok("9"), &[]);')
seed('c19-arg-type', 'C19', [(PM, '''            args.push(FnArg {
                name,
                type_,
''', '''            args.push(FnArg {
                name,
                type_: if close_token_kind == TokenKind::Pipe { None } else { type_ },
''')],
     'a typed parameter of an anonymous function', 'the type annotation of an anonymous function\'s parameter is parsed and dropped',
     'expect("let f = |a: Int| a f(\\"s\\")", Err("\\"s\\" is not a type Int"), &[]); expect("let f = |a: Int| a f(3)", Ok("3"), &[]);')
seed('c19-index-level', 'C19', [(S + 'parser/rules.rs', '''Rule::new().with_infix(Parser::is_operator, Precedence::Comparison),''', '''Rule::new().with_infix(Parser::is_operator, Precedence::Factor),''')],
     'a type test after a sum', 'the type test binds tighter than the arithmetic operators',
     'expect("1 + 2 is Int", Ok("true"), &[]); expect("(1 + 2) is Int", Ok("true"), &[]);')
seed('c09-args-limit', 'C09', [(PM, '''        let args = self.parse_args(TokenKind::Pipe, TokenKind::Pipe)?;

        if args.len() > (u8::MAX as usize) {''', '''        let args = self.parse_args(TokenKind::Pipe, TokenKind::Pipe)?;

        if args.len() > (i16::MAX as usize) {''')],
     'an anonymous function with more than 255 parameters', 'the parameter limit of anonymous functions is not reported by the parser',
     'let ps: Vec<String> = (0..256).map(|i| format!("a{}", i)).collect(); expect(&format!("let f = |{}| 1 f", ps.join(",")), Err("E1005"), &[]);')
seed('c13-parser-source', 'C13', [(PM, '''            return Err(Error::new(INVALID_IMPORT_USAGE)
                .with_source(self.source.clone())
                .with_span(span_start)''', '''            return Err(Error::new(INVALID_IMPORT_USAGE)
                .with_span(span_start)''')],
     'an import that names nothing', 'the error for an empty import does not carry its source',
     'match compile("import { } from \\"m\\"", dice_core::source::SourceKind::Script) { Err(e) => { let s = format!("{}", e); eprintln!("{}", s); if !s.contains("E2505") || !s.contains("import { } from") { eprintln!("no source"); std::process::exit(1); } } Ok(_) => std::process::exit(1) }')
T = S + 'lexer/token.rs'; B = 'dice-bytecode/src/'; ER = 'dice-core/src/error/'
seed('c20-ident-digit', 'C20', [(T, '#[regex("[_a-zA-Z][_a-zA-Z0-9]*")]', '#[regex("[_a-zA-Z]+[0-9]*")]')],
     'an identifier with a letter or underscore after a digit', 'the identifier a1b is split into two tokens',
     'expect("let a1b = 3 a1b", Ok("3"), &[]); expect("let a1 = 4 a1", Ok("4"), &[]);')
seed('c20-string-width', 'C20', [(T, '''                bump_count += current.len_utf8();
                result.push(current);''', '''                bump_count += 1 + (current.len_utf8() > 2) as usize * (current.len_utf8() - 1);
                result.push(current);''')],
     'a string literal with a character that takes two bytes', 'a string token ends before its closing quote',
     'expect("let s = \\"caf\\u{e9}\\" ev(s) 1", Ok("1"), &["ev(\\"caf\\u{e9}\\")"]);')
seed('c10-closure-list', 'C10', [(B + 'lib.rs', 'function.bytecode.upvalue_count()', 'self.upvalue_count().max(1)')],
     'listing a function that creates a closure with another number of captures', 'the disassembler loses its place after a closure that captures two variables',
     'let b = compile("let a = 1 let b = 2 let f = || { a + b } f", dice_core::source::SourceKind::Script).unwrap(); let s = format!("{}", b); if !s.contains("(parent_local=0) (parent_local=1)") { eprintln!("{}", s); std::process::exit(1); }')
seed('c10-backjump', 'C10', [(B + 'cursor.rs', 'wrapping_add(offset as u64)', 'wrapping_add(u64::from(offset as u16))')],
     'following a jump backwards', 'a reader that follows a backward jump leaves the code',
     '''let b = compile("while f() { g() }", dice_core::source::SourceKind::Script).unwrap(); let mut c = b.cursor(); let mut back = 0;
while let Some(i) = c.read_instruction() { match i {
    dice_bytecode::Instruction::Jump | dice_bytecode::Instruction::JumpIfFalse => { let o = c.read_offset(); if o < 0 { let p = c.position(); let mut d = b.cursor(); d.set_position(p); d.offset_position(o); back += 1; if d.position() != (p as i64 + o as i64) as u64 { eprintln!("jumps to {}", d.position()); std::process::exit(1); } } }
    dice_bytecode::Instruction::LoadGlobal | dice_bytecode::Instruction::Call | dice_bytecode::Instruction::PushConst | dice_bytecode::Instruction::LoadLocal | dice_bytecode::Instruction::StoreLocal => { c.read_u8(); }
    _ => () } }
if back == 0 { eprintln!("no loop"); std::process::exit(1); }''')
seed('c12-continue-code', 'C12', [(ER + 'codes.rs', 'INVALID_CONTINUE_USAGE: ErrorCode = "E2502"', 'INVALID_CONTINUE_USAGE: ErrorCode = "E2501"')],
     'a continue outside of a loop', 'two errors share one code, and a stray continue is reported as a stray break',
     'expect("continue", Err("E2502"), &[]); expect("break", Err("E2501"), &[]);')
seed('c12-lex-tag', 'C12', [(T, 'sequence => format!("\\\\{}", next)', 'escape => format!("\\\\{}", next)')],
     'a string with an unknown escape sequence', 'the message about an unknown escape sequence shows its placeholder instead of the sequence',
     'match compile("let s = \\"a\\\\q\\"", dice_core::source::SourceKind::Script) { Err(e) => { let s = format!("{}", e); eprintln!("{}", s); if s.contains("$sequence") || !s.contains("sequence") { std::process::exit(1); } } Ok(_) => std::process::exit(1) }')
seed('c11-int-unwrap', 'C11', [(PM, '''                value: token.slice.parse().map_err(|err: ParseIntError| {
                    Error::new(INVALID_INTEGER_VALUE)
                        .with_span(span)
                        .with_source(self.source.clone())
                        .with_tags(tags! {
                            message => err.to_string()
                        })
                })?,''', '''                value: <i64 as std::convert::TryFrom<u64>>::try_from(token.slice.parse::<u64>().map_err(|err: ParseIntError| {
                    Error::new(INVALID_INTEGER_VALUE)
                        .with_span(span)
                        .with_source(self.source.clone())
                        .with_tags(tags! {
                            message => err.to_string()
                        })
                })?)
                .expect("A parsed integer literal always fits."),''')],
     'an integer literal between 2^63 and 2^64', 'the parser panics on an integer literal slightly too large',
     'expect("9223372036854775807", Ok("9223372036854775807"), &[]); expect("9223372036854775808", Err("E1007"), &[]);')
seed('c13-span-max', 'C13', [(PM, '''            Error::new(RESERVED''', '''            Error::new(RESERVED''')] if 0 else [('dice-core/src/span.rs', '''    fn add(self, rhs: Self) -> Self::Output {
        let start = self.start.min(rhs.start);
        let end = self.end.max(rhs.end);

        Self::Output { start, end }
    }
}

impl Add<&Span> for Span''', '''    fn add(self, rhs: Self) -> Self::Output {
        let start = self.start.min(rhs.start);
        let end = self.start.max(rhs.end);

        Self::Output { start, end }
    }
}

impl Add<&Span> for Span''')],
     'two spans combined with the later one first', 'the span made of two spans in reverse order is cut short',
     'let a = dice_core::span::Span::new(10..15); let b = dice_core::span::Span::new(2..4); if (a + b).range() != (2..15) || (b + a).range() != (2..15) { eprintln!("{:?}", a + b); std::process::exit(1); }')
seed('c13-super-span', 'C13', [(V + 'expr_super_access.rs', 'Error::new(INVALID_SUPER_CALL).with_span(*span)', 'Error::new(INVALID_SUPER_CALL)')],
     'a super access outside of a method on a later line', 'the error for a misplaced super access points at the start of the text',
     'match compile("let a = 1\\nlet b = 2\\nlet c = super.f", dice_core::source::SourceKind::Script) { Err(e) => { let s = format!("{}", e); eprintln!("{}", s); if !s.contains("E2205") || !s.contains("let c = super.f") { std::process::exit(1); } } Ok(_) => std::process::exit(1) }')
seed('c21-fn-name', 'C21', [(B + 'lib.rs', 'self.id == other.id', 'self.name == other.name')],
     'two functions of the same name in different blocks of one function', 'the second of two functions of one name is taken for the first',
     'expect("let a = { fn f() { 1 } f() } let b = { fn f() { 2 } f() } b", Ok("2"), &[]);')
seed('c09-captures', 'C09', [(C + 'assembler.rs', 'if upvalues.len() > 255 {', 'if upvalues.len() > usize::from(u16::MAX) {')],
     'a closure that captures more than 256 variables, spread over two enclosing functions', 'the 257th captured variable is read through capture 0',
     'let mut s = String::new(); for i in 0..200 { s += &format!("let a{} = {} ", i, i); } s += "let f = || { "; for i in 0..100 { s += &format!("let b{} = {} ", i, 1000 + i); } s += "let g = || { "; for i in 0..200 { s += &format!("a{} ", i); } for i in 0..100 { s += &format!("b{} ", i); } s += "} g() } f()"; expect(&s, Err("E2100"), &[]);')
seed('c15-range-close', 'C15', [(V + 'expr_range_loop.rs', '''                POP;
                LOAD_LOCAL variable_slot;
                PUSH_I1;
                ADD;
            ]
        }

        // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
        let scope_context = context.scope_stack().pop_scope()?;
        emit_bytecode! {
            context.assembler(), range_loop.span => [
                CLOSE_UPVALUES scope_context.variables;
                JUMP_BACK loop_start;''', '''                POP;
            ]
        }

        // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
        let scope_context = context.scope_stack().pop_scope()?;
        emit_bytecode! {
            context.assembler(), range_loop.span => [
                CLOSE_UPVALUES scope_context.variables;
                LOAD_LOCAL variable_slot;
                PUSH_I1;
                ADD;
                JUMP_BACK loop_start;''')],
     'a closure inside a range loop that captures the loop variable', 'the loop variable is read after it was closed',
     'expect("let mut s = 0 for i in 0..3 { let f = || i s += f() } s", Ok("3"), &[]);')
seed('c06-outer-mutable', 'C06', [(C + 'compiler_stack.rs', '''                UpvalueDescriptor::Outer {
                    upvalue_index: outer_index,
                    is_mutable,
                }''', '''                UpvalueDescriptor::Outer {
                    upvalue_index: outer_index,
                    is_mutable: is_mutable || outer_index > 0,
                }''')],
     'a closure in a closure that assigns the second variable captured through it', 'an immutable variable captured through two functions can be assigned',
     'expect("let x = 1 let y = 2 let f = || { let g = || { x y = 3 } g() } f() y", Err("E2403"), &[]);')
seed('c25-self-anywhere', 'C25', [(V + 'decl_class.rs', 'fn_decl.args.first().filter(|arg| arg.name == SELF)', 'fn_decl.args.iter().find(|arg| arg.name == SELF)')],
     'a function of a class with a later parameter called self', 'a function whose first parameter is not self becomes a method',
     'expect("class A { fn new(self) { } fn m(a, self) { a } } A.m(4, 5)", Ok("4"), &[]);')
seed('c08-export-depth', 'C08', [(V + 'decl_export.rs', 'depth > 1 {', 'depth > 2 {')],
     'an export in a block of a module', 'exports are accepted outside of the top-level scope',
     'match compile("{ export let x = 1 }", dice_core::source::SourceKind::Module) { Err(e) => { let s = format!("{}", e); eprintln!("{}", s); if !s.contains("E2504") { std::process::exit(1); } } Ok(_) => std::process::exit(1) }')
seed('c05-range-operator', 'C05', [(V + 'decl_op.rs', 'OverloadedOperator::RangeInclusive => RANGE_INCLUSIVE', 'OverloadedOperator::RangeInclusive => RANGE_EXCLUSIVE')],
     'a class that overloads the inclusive range operator', 'the inclusive range operator of a class is stored as the exclusive one',
     'let b = compile("class A { fn new(self) { } op ..=(self, o) { o } }", dice_core::source::SourceKind::Script).unwrap(); if !b.constants().iter().any(|c| matches!(c, dice_bytecode::ConstantValue::Symbol(s) if s == dice_core::protocol::operator::RANGE_INCLUSIVE)) { std::process::exit(1); }')
seed('c18-fn-return', 'C18', [(V + 'decl_fn.rs', 'fn_decl.return_.clone(), fn_kind', 'fn_decl.return_.clone().filter(|_| !fn_decl.args.is_empty()), fn_kind')],
     'a function without parameters and with an annotated return type', 'the return type of a function without parameters is not enforced',
     'expect("fn f() -> Int { \\"s\\" } f()", Err("\\"s\\" is not a type Int"), &[]);')
seed('c26-static-receiver', 'C26', [(C + 'compile_fn.rs', """            FnKind::Function | FnKind::StaticMethod => FunctionBlockKind::Function(args),
            FnKind::Method => FunctionBlockKind::Method(args),""", """            FnKind::Function => FunctionBlockKind::Function(args),
            FnKind::StaticMethod if args.iter().all(|arg| arg.name != "self") => FunctionBlockKind::Function(args),
            FnKind::StaticMethod | FnKind::Method => FunctionBlockKind::Method(args),""")],
     'a static function of a class with a later parameter called self', 'the parameters of such a function are one slot off',
     'expect("class A { fn new(self) { } fn m(a, self) { a } } A.m(4, 5)", Ok("4"), &[]);')
seed('c25-method-op', 'C25', [(V + 'decl_class.rs', 'if matches!(kind, FnKind::Constructor(_) | FnKind::Method) => [', 'if matches!(kind, FnKind::Constructor(ClassKind::Base) | FnKind::Method) => [')],
     'a derived class with a constructor', 'the constructor of a derived class is stored as a static field',
     'let b = compile("class A { fn new(self) { } } class B: A { fn new(self) { super() } }", dice_core::source::SourceKind::Script); let b = match b { Ok(b) => b, Err(e) => { eprintln!("{}", e); std::process::exit(2) } }; let s = format!("{}", b); eprintln!("{}", s); if s.matches("STORE_METHOD").count() != 2 { std::process::exit(1); }')
seed('c02-chain-exits', 'C02', [(V + 'syntax_node.rs', 'for exit_point in exit_points.into_iter() {', 'for exit_point in exit_points.into_iter().take(3) {')],
     'a chain with four or more null propagations', 'the fourth null propagation of a chain jumps to the code behind it',
     'expect("let o = #{ a: #{ b: #{ c: null } } } o?.a?.b?.c?.d", Ok("null"), &[]);')
seed('c07-captured', 'C07', [(C + 'scope_stack.rs', '.find(|var| var.name == name)', '.find(|var| var.name == name && (!var.is_captured || !var.is_initialized()))')],
     'a variable used after a closure has captured it', 'a captured variable is looked up as a global',
     'expect("let x = 1 let f = || x x + f()", Ok("2"), &[]);')
seed('c02-many-breaks', 'C02', [(C + 'scope_stack.rs', 'self.stack.iter_mut().rev().find(|scope| scope.kind == kind)', 'self.stack.iter_mut().rev().find(|scope| scope.kind == kind && (scope.exit_points.len() < 2 || scope.depth < 3))')],
     'three breaks in a nested loop', 'the third break of an inner loop leaves the outer loop',
     'expect("let mut n = 0 let mut i = 0 while i < 2 { i += 1 loop { if n > 90 { break } if n > 91 { break } n += 1 break } n += 10 } n", Ok("22"), &[]);')
seed('c13-memory-place', 'C13', [(ER + 'fmt.rs', '            HumanReadableErrorFormatter::fmt_position(buffer, error, source)?;\n            Human', '            if error.span.start > 0 {\n                HumanReadableErrorFormatter::fmt_position(buffer, error, source)?;\n            }\n            Human')],
     'an error at the very start of the text', 'the report of an error at the start of the text does not say where it is',
     'let at = |src: &str| match compile(src, dice_core::source::SourceKind::Script) { Err(e) => format!("{}", e), Ok(_) => std::process::exit(1) }; let (a, b) = (at("break"), at(" break")); eprintln!("{}\\n{}", a, b); if a.lines().count() != b.lines().count() { std::process::exit(1); }')

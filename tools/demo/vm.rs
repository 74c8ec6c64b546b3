#![allow(dead_code)]
//! A small machine that follows the instruction set as documented, to observe what compiled programs do.
use dice_bytecode::{Bytecode, ConstantValue, Instruction};
use dice_compiler::compiler::Compiler;
use dice_core::error::Error;
use dice_core::source::{Source, SourceKind};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

#[derive(Clone, Debug)]
pub enum V {
    Null, Unit, Bool(bool), Int(i64), Float(f64), Str(String), Sym(String),
    Fn(Rc<Clo>), Nat(String), Bound(Box<V>, Box<V>),
    Arr(Rc<RefCell<Vec<V>>>), Obj(Rc<RefCell<BTreeMap<String, V>>>), Class(Rc<Cls>), Range(i64, i64, bool), Ty(String),
}
#[derive(Debug)]
pub struct Clo { pub code: Bytecode, pub name: String, pub up: Vec<Rc<RefCell<V>>> }
#[derive(Debug)]
pub struct Cls { pub name: String, pub base: Option<V>, pub methods: RefCell<BTreeMap<String, V>>, pub fields: RefCell<BTreeMap<String, V>> }

impl V {
    pub fn show(&self) -> String {
        match self {
            V::Null => "null".into(), V::Unit => "unit".into(), V::Bool(b) => b.to_string(), V::Int(i) => i.to_string(),
            V::Float(f) => format!("{:?}", f), V::Str(s) => format!("{:?}", s), V::Sym(s) => format!("#{}", s),
            V::Fn(c) => format!("fn {}", c.name), V::Nat(n) => format!("native {}", n), V::Bound(_, f) => format!("bound {}", f.show()),
            V::Arr(a) => format!("[{}]", a.borrow().iter().map(|v| v.show()).collect::<Vec<_>>().join(", ")),
            V::Obj(o) => format!("{{{}}}", o.borrow().iter().filter(|(k, _)| !k.starts_with('#')).map(|(k, v)| format!("{}: {}", k, v.show())).collect::<Vec<_>>().join(", ")),
            V::Class(c) => format!("class {}", c.name), V::Range(a, b, i) => format!("{}{}{}", a, if *i { "..=" } else { ".." }, b), V::Ty(n) => format!("type {}", n),
        }
    }
    fn same(&self, o: &V) -> bool { self.show() == o.show() }
}

pub fn compile(src: &str, kind: SourceKind) -> Result<Bytecode, Error> { Compiler::compile_source(Source::new(src, kind)) }

pub struct Vm { pub log: Vec<String>, pub globals: BTreeMap<String, V>, fuel: usize }
pub struct Run { pub result: Result<String, String>, pub log: Vec<String> }

/// compile and run a script; compile errors come back as Err("E....")
pub fn run(src: &str) -> Run { run_as(src, SourceKind::Script) }
pub fn run_as(src: &str, kind: SourceKind) -> Run {
    match compile(src, kind) {
        Err(e) => Run { result: Err(e.error_code().to_string()), log: vec![] },
        Ok(b) => {
            let mut vm = Vm { log: vec![], globals: BTreeMap::new(), fuel: 200_000 };
            let r = vm.exec(&b, vec![], vec![]).map(|v| v.show());
            Run { result: r, log: vm.log }
        }
    }
}

const TYPES: [&str; 8] = ["Int", "Float", "Bool", "String", "Array", "Object", "Any", "Null"];

impl Vm {
    fn text(b: &Bytecode, i: u8) -> Result<String, String> {
        match b.constants().get(i as usize) {
            Some(ConstantValue::Symbol(s)) | Some(ConstantValue::String(s)) => Ok(s.clone()),
            x => Err(format!("constant {} is not a name: {:?}", i, x.is_some())),
        }
    }
    fn is(v: &V, t: &V) -> Result<bool, String> {
        match t {
            V::Ty(n) => Ok(match (n.as_str(), v) {
                ("Any", _) | ("Int", V::Int(_)) | ("Float", V::Float(_)) | ("Bool", V::Bool(_)) | ("String", V::Str(_)) | ("Array", V::Arr(_)) | ("Null", V::Null) => true,
                ("Object", V::Obj(_)) => true,
                _ => false,
            }),
            V::Class(c) => Ok(matches!(v, V::Obj(o) if matches!(o.borrow().get("#class"), Some(V::Class(k)) if Rc::ptr_eq(k, c)))),
            x => Err(format!("{} is not a type", x.show())),
        }
    }
    pub fn call(&mut self, f: V, mut args: Vec<V>) -> Result<V, String> {
        match f {
            V::Nat(n) => {
                self.log.push(format!("{}({})", n, args.iter().map(|v| v.show()).collect::<Vec<_>>().join(", ")));
                Ok(args.pop().unwrap_or(V::Null))
            }
            V::Fn(ref c) => {
                let mut a = vec![f.clone()]; a.append(&mut args);
                let c = c.clone(); self.exec(&c.code, a, c.up.clone())
            }
            V::Bound(r, m) => match *m {
                V::Fn(c) => { let mut a = vec![*r]; a.append(&mut args); self.exec(&c.code, a, c.up.clone()) }
                other => self.call(other, args),
            },
            V::Class(c) => {
                let o = V::Obj(Rc::new(RefCell::new(BTreeMap::new())));
                if let V::Obj(m) = &o { m.borrow_mut().insert("#class".into(), V::Class(c.clone())); }
                if let Some(V::Fn(m)) = Self::method(&V::Class(c), "new") {
                    let mut a = vec![o]; a.append(&mut args);
                    self.exec(&m.code, a, m.up.clone())
                } else { Ok(o) }
            }
            x => Err(format!("{} is not callable", x.show())),
        }
    }
    fn method(c: &V, n: &str) -> Option<V> {
        match c {
            V::Class(k) => k.methods.borrow().get(n).cloned().or_else(|| k.base.as_ref().and_then(|b| Self::method(b, n))),
            _ => None,
        }
    }
    fn field(&self, o: &V, n: &str) -> Result<V, String> {
        match o {
            V::Obj(m) => {
                if let Some(v) = m.borrow().get(n) { return Ok(v.clone()); }
                if let Some(c) = m.borrow().get("#class") {
                    if let Some(f) = Self::method(c, n) { return Ok(V::Bound(Box::new(o.clone()), Box::new(f))); }
                }
                Ok(V::Null)
            }
            V::Class(c) => Ok(c.fields.borrow().get(n).cloned().unwrap_or(V::Null)),
            V::Arr(_) | V::Range(..) if n == "iter" => Ok(V::Bound(Box::new(o.clone()), Box::new(V::Nat("#iter".into())))),
            x => Err(format!("no field {} on {}", n, x.show())),
        }
    }
    pub fn exec(&mut self, b: &Bytecode, args: Vec<V>, up: Vec<Rc<RefCell<V>>>) -> Result<V, String> {
        let mut slots: Vec<Rc<RefCell<V>>> = args.into_iter().map(|v| Rc::new(RefCell::new(v))).collect();
        let want = b.slot_count().max(slots.len());
        while slots.len() < want { slots.push(Rc::new(RefCell::new(V::Null))); }
        let mut st: Vec<V> = vec![]; let mut c = b.cursor();
        macro_rules! pop { () => { st.pop().ok_or("stack underflow".to_string())? } }
        macro_rules! slot { ($i:expr) => { slots.get($i as usize).ok_or(format!("slot {} out of range", $i))? } }
        macro_rules! upv { ($i:expr) => { up.get($i as usize).ok_or(format!("upvalue {} out of range", $i))? } }
        while let Some(ins) = c.read_instruction() {
            if self.fuel == 0 { return Err("runs forever".into()); }
            self.fuel -= 1;
            match ins {
                Instruction::PushNull => st.push(V::Null), Instruction::PushUnit => st.push(V::Unit),
                Instruction::PushFalse => st.push(V::Bool(false)), Instruction::PushTrue => st.push(V::Bool(true)),
                Instruction::PushI0 => st.push(V::Int(0)), Instruction::PushI1 => st.push(V::Int(1)),
                Instruction::PushF0 => st.push(V::Float(0.0)), Instruction::PushF1 => st.push(V::Float(1.0)),
                Instruction::PushConst => {
                    let i = c.read_u8();
                    st.push(match b.constants().get(i as usize) {
                        Some(ConstantValue::Int(i)) => V::Int(*i), Some(ConstantValue::Float(f)) => V::Float(*f),
                        Some(ConstantValue::String(s)) => V::Str(s.clone()), Some(ConstantValue::Symbol(s)) => V::Sym(s.clone()),
                        Some(ConstantValue::Function(f)) => V::Fn(Rc::new(Clo { code: f.bytecode.clone(), name: f.name.clone(), up: vec![] })),
                        _ => return Err(format!("constant {} out of range", i)),
                    })
                }
                Instruction::Pop => { pop!(); }
                Instruction::Dup => { let n = c.read_u8() as usize; if n >= st.len() { return Err("stack underflow".into()); } let v = st[st.len() - 1 - n].clone(); st.push(v); }
                Instruction::Swap => { let a = pop!(); let b = pop!(); st.push(a); st.push(b); }
                Instruction::CreateArray => {
                    let n = c.read_u8() as usize; if n > st.len() { return Err("stack underflow".into()); }
                    let v = st.split_off(st.len() - n); st.push(V::Arr(Rc::new(RefCell::new(v))));
                }
                Instruction::CreateObject => st.push(V::Obj(Rc::new(RefCell::new(BTreeMap::new())))),
                Instruction::CreateClosure => {
                    let i = c.read_u8();
                    match b.constants().get(i as usize) {
                        Some(ConstantValue::Function(f)) => {
                            let mut u = vec![];
                            for _ in 0..f.bytecode.upvalue_count() {
                                let k = c.read_u8(); let j = c.read_u8();
                                u.push(if k == 1 { slot!(j).clone() } else { upv!(j).clone() });
                            }
                            st.push(V::Fn(Rc::new(Clo { code: f.bytecode.clone(), name: f.name.clone(), up: u })));
                        }
                        _ => return Err("not a function".into()),
                    }
                }
                Instruction::InheritClass => {
                    let n = Self::text(b, c.read_u8())?; let base = pop!();
                    st.push(V::Class(Rc::new(Cls { name: n, base: Some(base), methods: Default::default(), fields: Default::default() })));
                }
                Instruction::LoadModule => { let n = Self::text(b, c.read_u8())?; self.log.push(format!("module {}", n)); 
                    let mut m = BTreeMap::new(); for k in ["a", "b", "c"] { m.insert(k.to_string(), V::Str(format!("{}.{}", n, k))); }
                    st.push(V::Obj(Rc::new(RefCell::new(m)))); }
                Instruction::LoadGlobal => {
                    let n = Self::text(b, c.read_u8())?;
                    st.push(if let Some(v) = self.globals.get(&n) { v.clone() } else if TYPES.contains(&n.as_str()) { V::Ty(n) } else { V::Nat(n) });
                }
                Instruction::StoreGlobal => { let n = Self::text(b, c.read_u8())?; let v = pop!(); self.log.push(format!("global {}", n)); self.globals.insert(n, v); st.push(V::Unit); }
                Instruction::LoadLocal => { let i = c.read_u8(); let v = slot!(i).borrow().clone(); st.push(v); }
                Instruction::StoreLocal => { let i = c.read_u8(); let v = pop!(); *slot!(i).borrow_mut() = v.clone(); st.push(v); }
                Instruction::AssignLocal => { let i = c.read_u8(); let v = pop!(); *slot!(i).borrow_mut() = v; st.push(V::Unit); }
                Instruction::LoadUpvalue => { let i = c.read_u8(); let v = upv!(i).borrow().clone(); st.push(v); }
                Instruction::StoreUpvalue => { let i = c.read_u8(); let v = pop!(); *upv!(i).borrow_mut() = v.clone(); st.push(v); }
                Instruction::AssignUpvalue => { let i = c.read_u8(); let v = pop!(); *upv!(i).borrow_mut() = v; st.push(V::Unit); }
                Instruction::CloseUpvalue => { let i = c.read_u8(); slot!(i); slots[i as usize] = Rc::new(RefCell::new(V::Null)); }
                Instruction::LoadField => { let n = Self::text(b, c.read_u8())?; let o = pop!(); let v = self.field(&o, &n)?; st.push(v); }
                Instruction::StoreField | Instruction::AssignField => {
                    let n = Self::text(b, c.read_u8())?; let v = pop!(); let o = pop!();
                    match &o { V::Obj(m) => { m.borrow_mut().insert(n, v.clone()); } V::Class(k) => { k.fields.borrow_mut().insert(n, v.clone()); } x => return Err(format!("no fields on {}", x.show())) }
                    st.push(if matches!(ins, Instruction::StoreField) { v } else { V::Unit });
                }
                Instruction::LoadFieldToLocal => {
                    let n = Self::text(b, c.read_u8())?; let i = c.read_u8(); let o = pop!(); let v = self.field(&o, &n)?;
                    *slot!(i).borrow_mut() = v.clone(); st.push(v);
                }
                Instruction::LoadIndex => {
                    let i = pop!(); let o = pop!();
                    st.push(match (&o, &i) {
                        (V::Arr(a), V::Int(k)) => a.borrow().get(*k as usize).cloned().ok_or("index out of range")?,
                        (V::Obj(m), V::Str(k)) => m.borrow().get(k).cloned().unwrap_or(V::Null),
                        _ => return Err(format!("cannot index {} with {}", o.show(), i.show())),
                    });
                }
                Instruction::StoreIndex | Instruction::AssignIndex => {
                    let v = pop!(); let i = pop!(); let o = pop!();
                    match (&o, &i) {
                        (V::Arr(a), V::Int(k)) => { let mut a = a.borrow_mut(); let k = *k as usize; if k >= a.len() { return Err("index out of range".into()); } a[k] = v.clone(); }
                        (V::Obj(m), V::Str(k)) => { m.borrow_mut().insert(k.clone(), v.clone()); }
                        _ => return Err(format!("cannot index {} with {}", o.show(), i.show())),
                    }
                    st.push(if matches!(ins, Instruction::StoreIndex) { v } else { V::Unit });
                }
                Instruction::LoadMethod => {
                    let n = Self::text(b, c.read_u8())?; let r = pop!(); let k = pop!();
                    let f = Self::method(&k, &n).ok_or(format!("no method {}", n))?; st.push(V::Bound(Box::new(r), Box::new(f)));
                }
                Instruction::StoreMethod => {
                    let n = Self::text(b, c.read_u8())?; let v = pop!(); let k = pop!();
                    match &k { V::Class(k) => { k.methods.borrow_mut().insert(n, v); } x => return Err(format!("no methods on {}", x.show())) }
                }
                Instruction::Negate => { let v = pop!(); st.push(match v { V::Int(i) => V::Int(-i), V::Float(f) => V::Float(-f), x => return Err(format!("cannot negate {}", x.show())) }); }
                Instruction::Not => { let v = pop!(); st.push(match v { V::Bool(i) => V::Bool(!i), x => return Err(format!("cannot not {}", x.show())) }); }
                Instruction::Multiply | Instruction::Divide | Instruction::Remainder | Instruction::Add | Instruction::Subtract | Instruction::GreaterThan
                | Instruction::GreaterThanOrEqual | Instruction::LessThan | Instruction::LessThanOrEqual | Instruction::RangeInclusive | Instruction::RangeExclusive => {
                    let r = pop!(); let l = pop!();
                    let (l, r) = match (&l, &r) { (V::Int(l), V::Int(r)) => (*l, *r), _ => return Err(format!("bad operands {} {}", l.show(), r.show())) };
                    st.push(match ins {
                        Instruction::Multiply => V::Int(l * r), Instruction::Divide => V::Int(l / r), Instruction::Remainder => V::Int(l % r),
                        Instruction::Add => V::Int(l + r), Instruction::Subtract => V::Int(l - r), Instruction::GreaterThan => V::Bool(l > r),
                        Instruction::GreaterThanOrEqual => V::Bool(l >= r), Instruction::LessThan => V::Bool(l < r), Instruction::LessThanOrEqual => V::Bool(l <= r),
                        Instruction::RangeInclusive => V::Range(l, r, true), _ => V::Range(l, r, false),
                    });
                }
                Instruction::Equal => { let r = pop!(); let l = pop!(); st.push(V::Bool(l.same(&r))); }
                Instruction::NotEqual => { let r = pop!(); let l = pop!(); st.push(V::Bool(!l.same(&r))); }
                Instruction::Is => { let t = pop!(); let v = pop!(); st.push(V::Bool(Self::is(&v, &t)?)); }
                Instruction::Jump => { let o = c.read_offset(); c.offset_position(o); }
                Instruction::JumpIfFalse | Instruction::JumpIfTrue => {
                    let o = c.read_offset(); let v = pop!();
                    match v { V::Bool(x) => if x == matches!(ins, Instruction::JumpIfTrue) { c.offset_position(o) }, x => return Err(format!("{} is not a condition", x.show())) }
                }
                Instruction::Call => {
                    let n = c.read_u8() as usize; if n + 1 > st.len() { return Err("stack underflow".into()); }
                    let a = st.split_off(st.len() - n); let f = pop!(); let v = self.call(f, a)?; st.push(v);
                }
                Instruction::CallSuper => {
                    let n = c.read_u8() as usize; let k = pop!(); if n + 1 > st.len() { return Err("stack underflow".into()); }
                    let mut a = st.split_off(st.len() - n); let me = pop!();
                    let v = match Self::method(&k, "new") { Some(V::Fn(m)) => { let mut x = vec![me]; x.append(&mut a); self.exec(&m.code, x, m.up.clone())? } _ => V::Unit };
                    st.push(v);
                }
                Instruction::Return => { let v = pop!(); if !st.is_empty() { return Err(format!("{} values left on the stack", st.len())); } return Ok(v); }
                Instruction::AssertBool => { if !matches!(st.last(), Some(V::Bool(_))) { return Err("not a bool".into()); } }
                Instruction::AssertTypeForLocal | Instruction::AssertTypeOrNullForLocal => {
                    let i = c.read_u8(); let t = pop!(); let v = slot!(i).borrow().clone();
                    let null = matches!(ins, Instruction::AssertTypeOrNullForLocal) && matches!(v, V::Null);
                    if !null && !Self::is(&v, &t)? { return Err(format!("{} is not a {}", v.show(), t.show())); }
                }
                Instruction::AssertTypeAndReturn | Instruction::AssertTypeOrNullAndReturn => {
                    let t = pop!(); let v = pop!();
                    let null = matches!(ins, Instruction::AssertTypeOrNullAndReturn) && matches!(v, V::Null);
                    if !null && !Self::is(&v, &t)? { return Err(format!("{} is not a {}", v.show(), t.show())); }
                    if !st.is_empty() { return Err(format!("{} values left on the stack", st.len())); } return Ok(v);
                }
            }
        }
        let v = pop!();
        if !st.is_empty() { return Err(format!("{} values left on the stack", st.len())); }
        Ok(v)
    }
}

/// fails the demonstration unless the run gives this result and log
pub fn expect(src: &str, result: Result<&str, &str>, log: &[&str]) {
    let r = run(src);
    let got = r.result.as_ref().map(|s| s.as_str()).map_err(|s| s.as_str());
    if got != result || r.log != log { eprintln!("{}\n  gave {:?} with log {:?}\n  wanted {:?} with log {:?}", src, got, r.log, result, log); std::process::exit(1); }
}

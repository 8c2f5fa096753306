//! Parser for the textual LLVM IR of one fully linked module.  Function bodies
//! and global initialisers are parsed lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    Void,
    Int(u16),
    Ptr,
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Other,
}

impl Ty {
    pub fn bits(&self) -> u16 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Vec(n, t) => (*n as u16) * t.bits(),
            _ => 0,
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => ((*n as u64 * t.bits() as u64) / 8).next_power_of_two().max(1),
            _ => 1,
        }
    }
    /// bytes a load or store of this type touches
    pub fn touched(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            t => t.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Vec(n, t) => {
                let b = (*n as u64 * t.bits() as u64 + 7) / 8;
                b.next_power_of_two()
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self {
            Ty::Struct(f, _) => &f[i],
            Ty::Arr(_, t) | Ty::Vec(_, t) => t,
            _ => self,
        }
    }
}

#[derive(Clone, Debug)]
pub enum K {
    Int(u128, u16),
    Agg(Vec<K>),
    Vec(Vec<K>),
    Bytes(Vec<u8>),
    /// zero / undef / poison of a type
    Zero(Ty),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Rc<K>),
    C(u64),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cast {
    Zext,
    Sext,
    Trunc,
    Bit,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rmw {
    Xchg,
    Add,
    Sub,
    And,
    Or,
    Xor,
    Max,
    Min,
    UMax,
    UMin,
    Nand,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ind(Opd),
    Asm,
}

pub const NONE: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum I {
    Bin(B, u32, Opd, Opd, u16, u32),
    Icmp(Pred, u32, Opd, Opd, u16, u32),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u64, u16)>),
    /// kind, dst, src, from width, to width (per lane), lanes
    Cast(Cast, u32, Opd, u16, u16, u32),
    Select(u32, Opd, Opd, Opd, Ty, u32),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u16, u32, Vec<(u128, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    /// dst, callee, args, arg widths, return type, normal block
    Call(u32, Callee, Vec<(Opd, u16)>, Ty, u32),
    Extract(u32, Opd, Vec<usize>),
    Insert(u32, Opd, Opd, Vec<usize>),
    Alloca(u32, u64, Opd),
    Rmw(Rmw, u32, Opd, Opd, u16),
    CmpXchg(u32, Opd, Opd, Opd, u16),
    Nop,
    Mov(u32, Opd),
    ExtractEl(u32, Opd, Opd, u16, u32),
    InsertEl(u32, Opd, Opd, Opd, u16, u32),
    Shuffle(u32, Opd, Opd, Vec<i64>, u16, u32),
    Bad(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub ins: Vec<I>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: String,
    pub nregs: usize,
    pub params: Vec<u32>,
    pub blocks: Vec<Block>,
    pub ret_w: u16,
}

pub struct FnInfo {
    pub name: String,
    pub body: Option<(usize, usize)>,
    pub weak: bool,
    pub compiled: Option<Rc<Func>>,
}

pub struct GlobalInfo {
    pub name: String,
    pub line: (usize, usize),
    pub is_const: bool,
    pub external: bool,
}

pub struct Module {
    pub text: &'static [u8],
    pub fns: Vec<FnInfo>,
    pub globals: Vec<GlobalInfo>,
    pub names: HashMap<String, u64>,
    pub aliases: HashMap<String, String>,
    pub types: HashMap<String, Ty>,
}

pub const KIND_GLOBAL: u64 = 1;
pub const KIND_STACK: u64 = 2;
pub const KIND_HEAP: u64 = 3;
pub const KIND_FN: u64 = 4;

pub fn addr(kind: u64, id: u64) -> u64 {
    (kind << 60) | (id << 32)
}

type R<T> = Result<T, String>;

pub struct P<'a> {
    s: &'a [u8],
    i: usize,
    m: &'a Module,
}

fn is_id(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> P<'a> {
    fn new(s: &'a [u8], m: &'a Module) -> P<'a> {
        P { s, i: 0, m }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\n' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1
                    }
                }
                _ => break,
            }
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let a = self.i.saturating_sub(80);
        let b = (self.i + 80).min(self.s.len());
        Err(format!(
            "{}: ...{}<<HERE>>{}...",
            m,
            String::from_utf8_lossy(&self.s[a..self.i.min(self.s.len())]),
            String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..b])
        ))
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", c as char))
        }
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        let mut j = st;
        while j < self.s.len() && is_id(self.s[j]) {
            j += 1;
        }
        std::str::from_utf8(&self.s[st..j]).unwrap_or("")
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn string(&mut self) -> R<Vec<u8>> {
        self.need(b'"')?;
        let mut v = Vec::new();
        loop {
            let c = *self.s.get(self.i).ok_or("eof in string")?;
            self.i += 1;
            if c == b'"' {
                return Ok(v);
            }
            if c == b'\\' {
                if self.s[self.i] == b'\\' {
                    self.i += 1;
                    v.push(b'\\');
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.i..self.i + 2]).map_err(|e| e.to_string())?;
                v.push(u8::from_str_radix(h, 16).map_err(|e| e.to_string())?);
                self.i += 2;
            } else {
                v.push(c);
            }
        }
    }
    /// after the sigil
    fn name(&mut self) -> R<String> {
        if self.s.get(self.i) == Some(&b'"') {
            let b = self.string()?;
            return Ok(String::from_utf8_lossy(&b).into_owned());
        }
        let w = self.word();
        if w.is_empty() {
            return self.err("name");
        }
        Ok(w.to_string())
    }
    fn num(&mut self) -> R<i128> {
        self.ws();
        let w = self.word();
        w.parse::<i128>().map_err(|_| format!("number {:?}", w))
    }
    fn balanced(&mut self) -> R<()> {
        // at '(' / '[' / '{' / '<'
        let mut d = 0;
        loop {
            let c = *self.s.get(self.i).ok_or("eof in brackets")?;
            match c {
                b'"' => {
                    self.string()?;
                    continue;
                }
                b'(' | b'[' | b'{' => d += 1,
                b')' | b']' | b'}' => d -= 1,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return Ok(());
            }
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        match c {
            b'[' => {
                self.i += 1;
                let n = self.num()? as u64;
                if !self.eat_word("x") {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.need(b']')?;
                Ok(Ty::Arr(n, Rc::new(t)))
            }
            b'{' => {
                self.i += 1;
                let f = self.ty_list(b'}')?;
                Ok(Ty::Struct(Rc::new(f), false))
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let f = self.ty_list(b'}')?;
                    self.need(b'>')?;
                    return Ok(Ty::Struct(Rc::new(f), true));
                }
                let n = self.num()? as u32;
                if !self.eat_word("x") {
                    return self.err("x");
                }
                let t = self.ty()?;
                self.need(b'>')?;
                Ok(Ty::Vec(n, Rc::new(t)))
            }
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                match self.m.types.get(&n) {
                    Some(t) => Ok(t.clone()),
                    None => Err(format!("unknown type {}", n)),
                }
            }
            _ => {
                let w = self.word();
                if w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1].is_ascii_digit() {
                    return Ok(Ty::Int(w[1..].parse().map_err(|_| "int type".to_string())?));
                }
                match w {
                    "void" => Ok(Ty::Void),
                    "ptr" => Ok(Ty::Ptr),
                    "half" | "float" | "double" | "fp128" | "x86_fp80" | "label" | "metadata" | "token" | "opaque" => {
                        Ok(Ty::Other)
                    }
                    _ => {
                        self.i -= w.len();
                        self.err("type")
                    }
                }
            }
        }
    }
    fn ty_list(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut v = Vec::new();
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.need(b',')?;
        }
    }

    fn skip_attrs(&mut self) -> R<()> {
        loop {
            let c = self.peek();
            if c == b'"' {
                self.string()?;
                if self.eat(b'=') {
                    self.string()?;
                }
                continue;
            }
            if c == b'#' {
                self.i += 1;
                self.word();
                continue;
            }
            let w = self.peek_word();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_lowercase() {
                return Ok(());
            }
            match w {
                "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr"
                | "ptrtoint" | "add" | "sub" | "trunc" | "splat" | "c" | "bitcast" | "xor" | "ptr" | "metadata"
                | "asm" | "u0x" | "s0x" | "void" | "blockaddress" | "none" | "half" | "float" | "double" | "mul"
                | "shl" => return Ok(()),
                _ => {}
            }
            if w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit()) {
                return Ok(());
            }
            if w.starts_with("u0x") || w.starts_with("s0x") {
                return Ok(());
            }
            self.i += w.len();
            if w == "align" && self.peek().is_ascii_digit() {
                self.num()?;
            }
            if self.i < self.s.len() && self.peek() == b'(' {
                self.balanced()?;
            }
        }
    }

    fn global_addr(&self, n: &str) -> R<u64> {
        let mut n = n;
        let mut k = 0;
        while let Some(a) = self.m.aliases.get(n) {
            n = a;
            k += 1;
            if k > 8 {
                break;
            }
        }
        match self.m.names.get(n) {
            Some(a) => Ok(*a),
            None => Err(format!("unknown global {}", n)),
        }
    }

    fn konst(&mut self, t: &Ty) -> R<K> {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name()?;
                Ok(K::Int(self.global_addr(&n)? as u128, 64))
            }
            b'-' | b'0'..=b'9' => {
                if let Ty::Other = t {
                    self.word();
                    return Ok(K::Zero(t.clone()));
                }
                let v = self.num()?;
                let w = t.bits();
                Ok(K::Int((v as u128) & crate::expr::mask(w), w))
            }
            b'{' => {
                self.i += 1;
                Ok(K::Agg(self.konst_list(b'}')?))
            }
            b'[' => {
                self.i += 1;
                Ok(K::Agg(self.konst_list(b']')?))
            }
            b'<' => {
                self.i += 1;
                if self.eat(b'{') {
                    let v = self.konst_list(b'}')?;
                    self.need(b'>')?;
                    return Ok(K::Agg(v));
                }
                Ok(K::Vec(self.konst_list(b'>')?))
            }
            _ => {
                let w = self.word();
                match w {
                    "true" => Ok(K::Int(1, 1)),
                    "false" => Ok(K::Int(0, 1)),
                    "null" => Ok(K::Int(0, 64)),
                    "undef" | "poison" | "zeroinitializer" | "none" => Ok(K::Zero(t.clone())),
                    "c" => Ok(K::Bytes(self.string()?)),
                    "splat" => {
                        self.need(b'(')?;
                        let et = self.ty()?;
                        let k = self.konst(&et)?;
                        self.need(b')')?;
                        if let Ty::Vec(n, _) = t {
                            Ok(K::Vec(vec![k; *n as usize]))
                        } else {
                            self.err("splat")
                        }
                    }
                    "getelementptr" => {
                        loop {
                            let w = self.peek_word();
                            if w == "inbounds" || w == "nuw" || w == "nusw" {
                                self.i += w.len();
                            } else if w == "inrange" {
                                self.i += w.len();
                                self.balanced()?;
                            } else {
                                break;
                            }
                        }
                        self.need(b'(')?;
                        let st = self.ty()?;
                        self.need(b',')?;
                        let (_, base) = self.tconst()?;
                        let mut off = match base {
                            K::Int(v, _) => v as u64,
                            _ => return self.err("gep base"),
                        };
                        let mut cur = st;
                        let mut first = true;
                        while self.eat(b',') {
                            let (it, ix) = self.tconst()?;
                            let ix = match ix {
                                K::Int(v, _) => crate::expr::sext128(v, it.bits()) as i64,
                                K::Zero(_) => 0,
                                _ => return self.err("gep idx"),
                            };
                            if first {
                                off = off.wrapping_add((ix as u64).wrapping_mul(cur.size()));
                                first = false;
                            } else {
                                off = off.wrapping_add(cur.field_off(ix as usize));
                                cur = cur.elem(ix as usize).clone();
                            }
                        }
                        self.need(b')')?;
                        Ok(K::Int(off as u128, 64))
                    }
                    "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                        self.need(b'(')?;
                        let (_, k) = self.tconst()?;
                        if !self.eat_word("to") {
                            return self.err("to");
                        }
                        let tt = self.ty()?;
                        self.need(b')')?;
                        match k {
                            K::Int(v, _) => Ok(K::Int(v & crate::expr::mask(tt.bits()), tt.bits())),
                            k => Ok(k),
                        }
                    }
                    "add" | "sub" | "xor" | "mul" | "shl" => {
                        while matches!(self.peek_word(), "nuw" | "nsw") {
                            self.word();
                        }
                        self.need(b'(')?;
                        let (t1, a) = self.tconst()?;
                        self.need(b',')?;
                        let (_, b) = self.tconst()?;
                        self.need(b')')?;
                        match (a, b) {
                            (K::Int(a, _), K::Int(b, _)) => {
                                let r = match w {
                                    "add" => a.wrapping_add(b),
                                    "sub" => a.wrapping_sub(b),
                                    "mul" => a.wrapping_mul(b),
                                    "shl" => a.wrapping_shl(b as u32),
                                    _ => a ^ b,
                                };
                                Ok(K::Int(r & crate::expr::mask(t1.bits()), t1.bits()))
                            }
                            _ => self.err("const binop"),
                        }
                    }
                    w if w.starts_with("u0x") || w.starts_with("s0x") => {
                        let v = u128::from_str_radix(&w[3..], 16).map_err(|_| "hex".to_string())?;
                        let tw = t.bits();
                        let v = if w.starts_with("s0x") {
                            let hw = (w.len() - 3) as u16 * 4;
                            crate::expr::sext128(v, hw.min(128)) as u128
                        } else {
                            v
                        };
                        Ok(K::Int(v & crate::expr::mask(tw), tw))
                    }
                    _ => {
                        self.i -= w.len();
                        self.err("constant")
                    }
                }
            }
        }
    }
    fn konst_list(&mut self, end: u8) -> R<Vec<K>> {
        let mut v = Vec::new();
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.tconst()?.1);
            if self.eat(end) {
                return Ok(v);
            }
            self.need(b',')?;
        }
    }
    fn tconst(&mut self) -> R<(Ty, K)> {
        let t = self.ty()?;
        self.skip_attrs()?;
        let k = self.konst(&t)?;
        Ok((t, k))
    }
}

struct FB<'a> {
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    p: P<'a>,
}

impl<'a> FB<'a> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, t: &Ty) -> R<Opd> {
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name()?;
            return Ok(Opd::R(self.reg(n)));
        }
        if self.p.peek() == b'!' || self.p.peek_word() == "metadata" {
            return Ok(Opd::C(0));
        }
        let k = self.p.konst(t)?;
        Ok(match k {
            K::Int(v, w) if w <= 64 => Opd::C(v as u64),
            K::Zero(ref zt) if matches!(zt, Ty::Int(w) if *w <= 64) || *zt == Ty::Ptr => Opd::C(0),
            k => Opd::K(Rc::new(k)),
        })
    }
    fn topd(&mut self) -> R<(Ty, Opd)> {
        let t = self.p.ty()?;
        self.p.skip_attrs()?;
        let o = self.opd(&t)?;
        Ok((t, o))
    }
    fn label(&mut self) -> R<u32> {
        if !self.p.eat_word("label") {
            return self.p.err("label");
        }
        self.p.need(b'%')?;
        let n = self.p.name()?;
        match self.labels.get(&n) {
            Some(l) => Ok(*l),
            None => Err(format!("unknown label {}", n)),
        }
    }
    fn skip_words(&mut self, ws: &[&str]) {
        loop {
            let w = self.p.peek_word();
            if !w.is_empty() && ws.contains(&w) {
                self.p.i += w.len();
            } else {
                return;
            }
        }
    }
    fn scalar(t: &Ty) -> (u16, u32) {
        match t {
            Ty::Vec(n, e) => (e.bits(), *n),
            t => (t.bits(), 1),
        }
    }

    fn instr(&mut self, phis: &mut Vec<(u32, Vec<(u32, Opd)>)>) -> R<I> {
        let mut dst = NONE;
        if self.p.peek() == b'%' {
            self.p.i += 1;
            let n = self.p.name()?;
            dst = self.reg(n);
            self.p.need(b'=')?;
        }
        let mut op = self.p.word();
        if matches!(op, "tail" | "musttail" | "notail") {
            op = self.p.word();
        }
        let bop = match op {
            "add" => Some(B::Add),
            "sub" => Some(B::Sub),
            "mul" => Some(B::Mul),
            "udiv" => Some(B::UDiv),
            "sdiv" => Some(B::SDiv),
            "urem" => Some(B::URem),
            "srem" => Some(B::SRem),
            "and" => Some(B::And),
            "or" => Some(B::Or),
            "xor" => Some(B::Xor),
            "shl" => Some(B::Shl),
            "lshr" => Some(B::LShr),
            "ashr" => Some(B::AShr),
            _ => None,
        };
        if let Some(b) = bop {
            self.skip_words(&["nuw", "nsw", "exact", "disjoint"]);
            let t = self.p.ty()?;
            let x = self.opd(&t)?;
            self.p.need(b',')?;
            let y = self.opd(&t)?;
            let (w, l) = Self::scalar(&t);
            return Ok(I::Bin(b, dst, x, y, w, l));
        }
        match op {
            "icmp" => {
                self.skip_words(&["samesign"]);
                let pr = match self.p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    o => return Err(format!("icmp {}", o)),
                };
                let t = self.p.ty()?;
                let x = self.opd(&t)?;
                self.p.need(b',')?;
                let y = self.opd(&t)?;
                let (w, l) = Self::scalar(&t);
                Ok(I::Icmp(pr, dst, x, y, w, l))
            }
            "load" => {
                self.skip_words(&["atomic", "volatile"]);
                let t = self.p.ty()?;
                self.p.need(b',')?;
                let (_, p) = self.topd()?;
                Ok(I::Load(dst, t, p))
            }
            "store" => {
                self.skip_words(&["atomic", "volatile"]);
                let (t, v) = self.topd()?;
                self.p.need(b',')?;
                let (_, p) = self.topd()?;
                Ok(I::Store(t, v, p))
            }
            "getelementptr" => {
                self.skip_words(&["inbounds", "nuw", "nusw"]);
                let mut cur = self.p.ty()?;
                self.p.need(b',')?;
                let (bt, base) = self.topd()?;
                if bt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let mut off = 0u64;
                let mut dynv = Vec::new();
                let mut first = true;
                while self.p.eat(b',') {
                    if self.p.peek() == b'!' {
                        break;
                    }
                    let (it, ix) = self.topd()?;
                    let w = it.bits();
                    match ix {
                        Opd::C(v) => {
                            let v = crate::expr::sext128(v as u128, w) as i64;
                            if first {
                                off = off.wrapping_add((v as u64).wrapping_mul(cur.size()));
                            } else {
                                off = off.wrapping_add(cur.field_off(v as usize));
                                cur = cur.elem(v as usize).clone();
                            }
                        }
                        o => {
                            if first {
                                dynv.push((o, cur.size(), w));
                            } else {
                                cur = cur.elem(0).clone();
                                dynv.push((o, cur.size(), w));
                            }
                        }
                    }
                    first = false;
                }
                Ok(I::Gep(dst, base, off, dynv))
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                self.skip_words(&["nneg", "nuw", "nsw"]);
                let (t, v) = self.topd()?;
                if !self.p.eat_word("to") {
                    return self.p.err("to");
                }
                let tt = self.p.ty()?;
                let (w, l) = Self::scalar(&t);
                let (w2, _l2) = Self::scalar(&tt);
                let k = match op {
                    "zext" => Cast::Zext,
                    "sext" => Cast::Sext,
                    "trunc" => Cast::Trunc,
                    "bitcast" => return Ok(I::Cast(Cast::Bit, dst, v, t.bits(), tt.bits(), 1)),
                    _ => {
                        if w2 < w {
                            Cast::Trunc
                        } else {
                            Cast::Zext
                        }
                    }
                };
                Ok(I::Cast(k, dst, v, w, w2, l))
            }
            "select" => {
                let (ct, c) = self.topd()?;
                self.p.need(b',')?;
                let (t, a) = self.topd()?;
                self.p.need(b',')?;
                let (_, b) = self.topd()?;
                let lanes = match ct {
                    Ty::Vec(n, _) => n,
                    _ => 1,
                };
                Ok(I::Select(dst, c, a, b, t, lanes))
            }
            "freeze" => {
                let (_, v) = self.topd()?;
                Ok(I::Mov(dst, v))
            }
            "phi" => {
                let t = self.p.ty()?;
                let mut inc = Vec::new();
                loop {
                    self.p.need(b'[')?;
                    let o = self.opd(&t)?;
                    self.p.need(b',')?;
                    self.p.need(b'%')?;
                    let n = self.p.name()?;
                    self.p.need(b']')?;
                    let l = match self.labels.get(&n) {
                        Some(l) => *l,
                        // an unlabelled entry block is implicitly numbered
                        None if self.labels.contains_key("<entry>") => 0,
                        None => return Err(format!("phi label {}", n)),
                    };
                    inc.push((l, o));
                    if self.p.peek() == b',' {
                        let sv = self.p.i;
                        self.p.i += 1;
                        if self.p.peek() != b'[' {
                            self.p.i = sv;
                            break;
                        }
                    } else {
                        break;
                    }
                }
                phis.push((dst, inc));
                Ok(I::Nop)
            }
            "br" => {
                if self.p.peek_word() == "label" {
                    let l = self.label()?;
                    return Ok(I::Br(l));
                }
                let (_, c) = self.topd()?;
                self.p.need(b',')?;
                let a = self.label()?;
                self.p.need(b',')?;
                let b = self.label()?;
                Ok(I::CondBr(c, a, b))
            }
            "switch" => {
                let (t, v) = self.topd()?;
                self.p.need(b',')?;
                let d = self.label()?;
                self.p.need(b'[')?;
                let mut cs = Vec::new();
                while !self.p.eat(b']') {
                    let (_, k) = self.p.tconst()?;
                    self.p.need(b',')?;
                    let l = self.label()?;
                    match k {
                        K::Int(v, _) => cs.push((v, l)),
                        _ => return Err("switch const".into()),
                    }
                }
                Ok(I::Switch(v, t.bits(), d, cs))
            }
            "ret" => {
                if self.p.peek_word() == "void" {
                    return Ok(I::Ret(None));
                }
                let (_, v) = self.topd()?;
                Ok(I::Ret(Some(v)))
            }
            "unreachable" | "resume" => Ok(I::Unreachable),
            "fence" => Ok(I::Nop),
            "landingpad" | "cleanuppad" | "catchpad" | "catchswitch" => Ok(I::Nop),
            "call" | "invoke" => {
                // fast-math flags / calling convention / return attributes
                self.p.skip_attrs()?;
                let rt = self.p.ty()?;
                if self.p.peek() == b'(' {
                    self.p.balanced()?;
                }
                let callee = match self.p.peek() {
                    b'@' => {
                        self.p.i += 1;
                        let n = self.p.name()?;
                        let a = self.p.global_addr(&n)?;
                        if a >> 60 == KIND_FN {
                            Callee::Fn(((a >> 32) & 0xfff_ffff) as u32)
                        } else {
                            Callee::Ind(Opd::C(a))
                        }
                    }
                    b'%' => {
                        self.p.i += 1;
                        let n = self.p.name()?;
                        Callee::Ind(Opd::R(self.reg(n)))
                    }
                    _ => {
                        if self.p.peek_word() == "asm" {
                            while self.p.peek() != b'(' {
                                if self.p.peek() == b'"' {
                                    self.p.string()?;
                                } else if self.p.word().is_empty() {
                                    self.p.i += 1;
                                }
                            }
                            Callee::Asm
                        } else {
                            let k = self.p.konst(&Ty::Ptr)?;
                            match k {
                                K::Int(v, _) => Callee::Ind(Opd::C(v as u64)),
                                _ => return self.p.err("callee"),
                            }
                        }
                    }
                };
                self.p.need(b'(')?;
                let mut args = Vec::new();
                if !self.p.eat(b')') {
                    loop {
                        let t = self.p.ty()?;
                        self.p.skip_attrs()?;
                        if t == Ty::Other {
                            // metadata operand: skip to , or )
                            let mut d = 0;
                            loop {
                                let c = self.p.peek();
                                if d == 0 && (c == b',' || c == b')') {
                                    break;
                                }
                                match c {
                                    b'(' | b'{' => d += 1,
                                    b')' | b'}' => d -= 1,
                                    b'"' => {
                                        self.p.string()?;
                                        continue;
                                    }
                                    0 => return self.p.err("eof"),
                                    _ => {}
                                }
                                self.p.i += 1;
                            }
                            args.push((Opd::C(0), 64));
                        } else {
                            let o = self.opd(&t)?;
                            args.push((o, t.bits()));
                        }
                        if self.p.eat(b')') {
                            break;
                        }
                        self.p.need(b',')?;
                    }
                }
                let mut normal = NONE;
                if op == "invoke" {
                    self.p.skip_attrs_until_to()?;
                    normal = self.label()?;
                }
                Ok(I::Call(dst, callee, args, rt, normal))
            }
            "extractvalue" => {
                let (_, a) = self.topd()?;
                let ix = self.indices()?;
                Ok(I::Extract(dst, a, ix))
            }
            "insertvalue" => {
                let (_, a) = self.topd()?;
                self.p.need(b',')?;
                let (_, b) = self.topd()?;
                let ix = self.indices()?;
                Ok(I::Insert(dst, a, b, ix))
            }
            "alloca" => {
                self.skip_words(&["inalloca", "swifterror"]);
                let t = self.p.ty()?;
                let mut n = Opd::C(1);
                if self.p.eat(b',') && self.p.peek_word() != "align" && self.p.peek() != b'!' {
                    n = self.topd()?.1;
                }
                Ok(I::Alloca(dst, t.size(), n))
            }
            "atomicrmw" => {
                self.skip_words(&["volatile"]);
                let o = match self.p.word() {
                    "xchg" => Rmw::Xchg,
                    "add" => Rmw::Add,
                    "sub" => Rmw::Sub,
                    "and" => Rmw::And,
                    "or" => Rmw::Or,
                    "xor" => Rmw::Xor,
                    "max" => Rmw::Max,
                    "min" => Rmw::Min,
                    "umax" => Rmw::UMax,
                    "umin" => Rmw::UMin,
                    "nand" => Rmw::Nand,
                    o => return Err(format!("atomicrmw {}", o)),
                };
                let (_, p) = self.topd()?;
                self.p.need(b',')?;
                let (t, v) = self.topd()?;
                Ok(I::Rmw(o, dst, p, v, t.bits()))
            }
            "cmpxchg" => {
                self.skip_words(&["weak", "volatile"]);
                let (_, p) = self.topd()?;
                self.p.need(b',')?;
                let (t, a) = self.topd()?;
                self.p.need(b',')?;
                let (_, b) = self.topd()?;
                Ok(I::CmpXchg(dst, p, a, b, t.bits()))
            }
            "extractelement" => {
                let (t, v) = self.topd()?;
                self.p.need(b',')?;
                let (_, ix) = self.topd()?;
                let (w, l) = Self::scalar(&t);
                Ok(I::ExtractEl(dst, v, ix, w, l))
            }
            "insertelement" => {
                let (t, v) = self.topd()?;
                self.p.need(b',')?;
                let (_, x) = self.topd()?;
                self.p.need(b',')?;
                let (_, ix) = self.topd()?;
                let (w, l) = Self::scalar(&t);
                Ok(I::InsertEl(dst, v, x, ix, w, l))
            }
            "shufflevector" => {
                let (t, a) = self.topd()?;
                self.p.need(b',')?;
                let (_, b) = self.topd()?;
                self.p.need(b',')?;
                let (mt, m) = self.topd()?;
                let n = match mt {
                    Ty::Vec(n, _) => n,
                    _ => return Err("shuffle mask".into()),
                };
                let mv: Vec<i64> = match m {
                    Opd::K(k) => match &*k {
                        K::Zero(_) => vec![0; n as usize],
                        K::Vec(v) => v
                            .iter()
                            .map(|k| match k {
                                K::Int(v, _) => *v as i64,
                                _ => 0,
                            })
                            .collect(),
                        _ => return Err("shuffle mask".into()),
                    },
                    _ => return Err("shuffle mask".into()),
                };
                let (w, l) = Self::scalar(&t);
                Ok(I::Shuffle(dst, a, b, mv, w, l))
            }
            o => Ok(I::Bad(format!("unsupported instruction {}", o))),
        }
    }
    fn indices(&mut self) -> R<Vec<usize>> {
        let mut v = Vec::new();
        while self.p.peek() == b',' {
            let sv = self.p.i;
            self.p.i += 1;
            if !self.p.peek().is_ascii_digit() {
                self.p.i = sv;
                break;
            }
            v.push(self.p.num()? as usize);
        }
        Ok(v)
    }
}

impl<'a> P<'a> {
    fn skip_attrs_until_to(&mut self) -> R<()> {
        loop {
            if self.peek_word() == "to" {
                self.word();
                return Ok(());
            }
            let c = self.peek();
            match c {
                0 => return self.err("to"),
                b'"' => {
                    self.string()?;
                }
                b'(' | b'[' => self.balanced()?,
                _ => {
                    if self.word().is_empty() {
                        self.i += 1;
                    }
                }
            }
        }
    }
}

fn find_line_end(t: &[u8], i: usize) -> usize {
    let mut j = i;
    while j < t.len() && t[j] != b'\n' {
        j += 1;
    }
    j
}

/// name right after a sigil at position i; returns (name, end)
fn raw_name(t: &[u8], i: usize) -> (String, usize) {
    if t[i] == b'"' {
        let mut j = i + 1;
        while t[j] != b'"' {
            j += 1;
        }
        (String::from_utf8_lossy(&t[i + 1..j]).into_owned(), j + 1)
    } else {
        let mut j = i;
        while j < t.len() && is_id(t[j]) {
            j += 1;
        }
        (String::from_utf8_lossy(&t[i..j]).into_owned(), j)
    }
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text: &'static [u8] = Box::leak(std::fs::read(path).map_err(|e| e.to_string())?.into_boxed_slice());
        let mut m = Module {
            text,
            fns: Vec::new(),
            globals: Vec::new(),
            names: HashMap::new(),
            aliases: HashMap::new(),
            types: HashMap::new(),
        };
        let mut i = 0;
        let mut typedefs: Vec<(String, usize, usize)> = Vec::new();
        while i < text.len() {
            let e = find_line_end(text, i);
            let line = &text[i..e];
            if line.starts_with(b"define ") || line.starts_with(b"declare ") {
                let at = line.iter().position(|&c| c == b'@').ok_or("define without name")?;
                let (name, _) = raw_name(text, i + at + 1);
                let is_def = line[2] == b'f';
                let mut body = None;
                let mut next = e + 1;
                if is_def {
                    // find "\n}"
                    let mut j = e;
                    loop {
                        if j + 1 >= text.len() {
                            return Err("eof in function".into());
                        }
                        if text[j] == b'\n' && text[j + 1] == b'}' {
                            break;
                        }
                        j += 1;
                    }
                    body = Some((i, j + 1));
                    next = j + 2;
                }
                let weak = line.windows(12).any(|w| w == b"extern_weak ");
                let id = m.fns.len() as u64;
                m.names.insert(name.clone(), addr(KIND_FN, id));
                m.fns.push(FnInfo {
                    name,
                    body,
                    weak,
                    compiled: None,
                });
                i = next;
                continue;
            }
            if line.starts_with(b"@") {
                let (name, p) = raw_name(text, i + 1);
                let rest = std::str::from_utf8(&text[p..e]).unwrap_or("");
                let words: Vec<&str> = rest.split_whitespace().take(14).collect();
                if let Some(k) = words.iter().position(|w| *w == "alias") {
                    let _ = k;
                    let at = rest.rfind('@').ok_or("alias")?;
                    let (tgt, _) = raw_name(text, p + at + 1);
                    m.aliases.insert(name, tgt);
                } else {
                    let mut is_const = false;
                    let mut external = false;
                    for w in &words {
                        if *w == "external" || *w == "extern_weak" {
                            external = true;
                        }
                        if *w == "constant" {
                            is_const = true;
                            break;
                        }
                        if *w == "global" {
                            break;
                        }
                    }
                    let id = m.globals.len() as u64;
                    m.names.insert(name.clone(), addr(KIND_GLOBAL, id));
                    m.globals.push(GlobalInfo {
                        name,
                        line: (p, e),
                        is_const,
                        external,
                    });
                }
            } else if line.starts_with(b"%") {
                let (name, p) = raw_name(text, i + 1);
                typedefs.push((name, p, e));
            }
            i = e + 1;
        }
        // named types may refer to each other
        for _ in 0..8 {
            let mut left = Vec::new();
            for (n, p, e) in typedefs.drain(..) {
                let r = {
                    let mut q = P::new(&text[p..e], &m);
                    q.need(b'=')?;
                    q.eat_word("type");
                    q.ty()
                };
                match r {
                    Ok(t) => {
                        m.types.insert(n, t);
                    }
                    Err(_) => left.push((n, p, e)),
                }
            }
            typedefs = left;
        }
        Ok(m)
    }

    pub fn find_fn(&self, name: &str) -> Option<u32> {
        self.names.get(name).and_then(|a| {
            if a >> 60 == KIND_FN {
                Some(((a >> 32) & 0xfff_ffff) as u32)
            } else {
                None
            }
        })
    }

    /// (bytes, relocation-free) image of a global
    pub fn global_image(&self, id: u32) -> R<Vec<u8>> {
        let g = &self.globals[id as usize];
        if g.external {
            return Ok(vec![0; 64]);
        }
        let mut p = P::new(&self.text[g.line.0..g.line.1], self);
        p.need(b'=')?;
        loop {
            let w = p.word();
            if w.is_empty() {
                if p.peek() == b'(' {
                    p.balanced()?;
                    continue;
                }
                return p.err("global");
            }
            if w == "global" || w == "constant" {
                break;
            }
        }
        let t = p.ty()?;
        let k = p.konst(&t)?;
        let mut out = vec![0u8; t.size() as usize];
        Self::image(&t, &k, &mut out, 0)?;
        Ok(out)
    }

    fn image(t: &Ty, k: &K, out: &mut Vec<u8>, o: usize) -> R<()> {
        match (t, k) {
            (_, K::Zero(_)) => Ok(()),
            (Ty::Int(_), K::Int(v, _)) | (Ty::Ptr, K::Int(v, _)) => {
                let n = match t {
                    Ty::Int(w) => ((*w + 7) / 8) as usize,
                    _ => 8,
                };
                out[o..o + n].copy_from_slice(&v.to_le_bytes()[..n]);
                Ok(())
            }
            (Ty::Arr(..), K::Bytes(b)) => {
                out[o..o + b.len()].copy_from_slice(b);
                Ok(())
            }
            (Ty::Struct(..), K::Agg(v)) | (Ty::Arr(..), K::Agg(v)) => {
                for (i, x) in v.iter().enumerate() {
                    Self::image(t.elem(i), x, out, o + t.field_off(i) as usize)?;
                }
                Ok(())
            }
            (Ty::Vec(_, e), K::Vec(v)) => {
                for (i, x) in v.iter().enumerate() {
                    Self::image(e, x, out, o + i * e.size() as usize)?;
                }
                Ok(())
            }
            _ => Err(format!("image {:?}", t)),
        }
    }

    pub fn func(&mut self, id: u32) -> R<Rc<Func>> {
        if let Some(f) = &self.fns[id as usize].compiled {
            return Ok(f.clone());
        }
        let f = Rc::new(self.compile(id).map_err(|e| format!("{}: {}", self.fns[id as usize].name, e))?);
        self.fns[id as usize].compiled = Some(f.clone());
        Ok(f)
    }

    fn compile(&self, id: u32) -> R<Func> {
        let info = &self.fns[id as usize];
        let (a, b) = info.body.ok_or("no body")?;
        let t = &self.text[a..b];
        let he = find_line_end(t, 0);
        let mut fb = FB {
            regs: HashMap::new(),
            labels: HashMap::new(),
            p: P::new(&t[..he], self),
        };
        // header
        fb.p.i = t.iter().position(|&c| c == b'@').unwrap() + 1;
        fb.p.name()?;
        fb.p.need(b'(')?;
        let mut params = Vec::new();
        if !fb.p.eat(b')') {
            loop {
                if fb.p.peek() == b'.' {
                    // varargs
                    fb.p.word();
                    fb.p.need(b')')?;
                    break;
                }
                let _ = fb.p.ty()?;
                fb.p.skip_attrs()?;
                if fb.p.peek() == b'%' {
                    fb.p.i += 1;
                    let n = fb.p.name()?;
                    let r = fb.reg(n);
                    params.push(r);
                } else {
                    let r = fb.reg(format!("<arg{}>", params.len()));
                    params.push(r);
                }
                if fb.p.eat(b')') {
                    break;
                }
                fb.p.need(b',')?;
            }
        }
        // logical lines
        let mut lines: Vec<(bool, usize, usize)> = Vec::new(); // (is_label, start, end)
        let mut i = he + 1;
        while i < t.len() {
            let e = find_line_end(t, i);
            let l = &t[i..e];
            if l.is_empty() || l[0] == b';' {
            } else if l[0] != b' ' {
                if l[0] == b'}' {
                    break;
                }
                lines.push((true, i, e));
            } else {
                let trimmed = l.iter().position(|&c| c != b' ').unwrap_or(l.len());
                if trimmed == l.len() || l[trimmed] == b';' || l[trimmed] == b'#' {
                } else if trimmed == 2 && l[2] != b']' {
                    lines.push((false, i, e));
                } else if let Some(x) = lines.last_mut() {
                    x.2 = e;
                }
            }
            i = e + 1;
        }
        let mut nb = 0;
        if let Some(&(false, ..)) = lines.first() {
            fb.labels.insert("<entry>".into(), 0);
            nb = 1;
        }
        for &(is_l, s, _) in &lines {
            if is_l {
                let (n, _) = raw_name(t, s);
                fb.labels.insert(n, nb);
                nb += 1;
            }
        }
        let mut blocks: Vec<Block> = Vec::new();
        for &(is_l, s, e) in &lines {
            if is_l || blocks.is_empty() {
                blocks.push(Block {
                    phis: Vec::new(),
                    ins: Vec::new(),
                });
                if is_l {
                    continue;
                }
            }
            fb.p = P::new(&t[s..e], self);
            let blk = blocks.last_mut().unwrap();
            match fb.instr(&mut blk.phis) {
                Ok(I::Nop) => {}
                Ok(x) => blk.ins.push(x),
                Err(e2) => blk.ins.push(I::Bad(e2)),
            }
        }
        Ok(Func {
            id,
            name: info.name.clone(),
            nregs: fb.regs.len(),
            params,
            blocks,
            ret_w: 0,
        })
    }
}

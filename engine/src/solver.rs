//! Z3 (C API) back end: decides conjunctions of 1-bit expressions.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::rc::Rc;
use std::time::Instant;

type Ptr = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> Ptr;
    fn Z3_set_param_value(c: Ptr, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Ptr) -> Ptr;
    fn Z3_set_error_handler(c: Ptr, h: Option<extern "C" fn(Ptr, c_int)>);
    fn Z3_mk_simple_solver(c: Ptr) -> Ptr;
    fn Z3_solver_inc_ref(c: Ptr, s: Ptr);
    fn Z3_solver_assert(c: Ptr, s: Ptr, a: Ptr);
    fn Z3_solver_check_assumptions(c: Ptr, s: Ptr, n: c_uint, a: *const Ptr) -> c_int;
    fn Z3_solver_reset(c: Ptr, s: Ptr);
    fn Z3_mk_bool_sort(c: Ptr) -> Ptr;
    fn Z3_mk_implies(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_solver_get_model(c: Ptr, s: Ptr) -> Ptr;
    fn Z3_solver_set_params(c: Ptr, s: Ptr, p: Ptr);
    fn Z3_mk_params(c: Ptr) -> Ptr;
    fn Z3_params_inc_ref(c: Ptr, p: Ptr);
    fn Z3_params_set_uint(c: Ptr, p: Ptr, k: Ptr, v: c_uint);
    fn Z3_model_inc_ref(c: Ptr, m: Ptr);
    fn Z3_model_dec_ref(c: Ptr, m: Ptr);
    fn Z3_model_eval(c: Ptr, m: Ptr, t: Ptr, completion: bool, v: *mut Ptr) -> bool;
    fn Z3_get_numeral_uint64(c: Ptr, v: Ptr, u: *mut u64) -> bool;
    fn Z3_mk_string_symbol(c: Ptr, s: *const c_char) -> Ptr;
    fn Z3_mk_bv_sort(c: Ptr, n: c_uint) -> Ptr;
    fn Z3_mk_const(c: Ptr, s: Ptr, t: Ptr) -> Ptr;
    fn Z3_mk_numeral(c: Ptr, s: *const c_char, t: Ptr) -> Ptr;
    fn Z3_mk_unsigned_int64(c: Ptr, v: u64, t: Ptr) -> Ptr;
    fn Z3_mk_true(c: Ptr) -> Ptr;
    fn Z3_mk_false(c: Ptr) -> Ptr;
    fn Z3_mk_not(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_and(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_or(c: Ptr, n: c_uint, a: *const Ptr) -> Ptr;
    fn Z3_mk_xor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_iff(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_eq(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_ite(c: Ptr, x: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvadd(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsub(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvmul(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvudiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsdiv(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvurem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvsrem(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvand(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvxor(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvnot(c: Ptr, a: Ptr) -> Ptr;
    fn Z3_mk_bvshl(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvlshr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvashr(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvult(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_bvslt(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_concat(c: Ptr, a: Ptr, b: Ptr) -> Ptr;
    fn Z3_mk_extract(c: Ptr, hi: c_uint, lo: c_uint, a: Ptr) -> Ptr;
    fn Z3_mk_sign_ext(c: Ptr, n: c_uint, a: Ptr) -> Ptr;
}

/// constraints the solver holds before it starts afresh
const LITS: usize = 1500;

static mut Z3_ERR: bool = false;
extern "C" fn on_err(_: Ptr, code: c_int) {
    eprintln!("z3 error {}", code);
    unsafe { Z3_ERR = true }
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

/// a set of byte values
pub type Set = [u64; 4];

#[derive(Default, Clone)]
pub struct Stats {
    /// conjunctions over single bytes: a witness read from their tables, or asked about byte by byte
    pub bytewise: u64,
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time_us: u64,
    pub max_us: u64,
}

pub struct Solver {
    c: Ptr,
    s: Ptr,
    ast: Vec<Ptr>,
    vars: HashMap<u32, Ptr>,
    cache: HashMap<Box<[E]>, Res>,
    /// the literal that stands for a constraint in the solver
    lits: HashMap<E, Ptr>,
    nlit: u64,
    /// the values of its one byte that satisfy a constraint
    tables: HashMap<E, Set>,
    /// a byte's values as a constraint
    doms: HashMap<(u32, Set), E>,
    sorts: HashMap<u16, Ptr>,
    pub st: Stats,
}

impl Solver {
    pub fn new() -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let s = Z3_mk_simple_solver(c);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), 200_000_000);
            Z3_solver_set_params(c, s, p);
            Solver {
                c,
                s,
                ast: Vec::new(),
                vars: HashMap::new(),
                cache: HashMap::new(),
                lits: HashMap::new(),
                nlit: 0,
                tables: HashMap::new(),
                doms: HashMap::new(),
                sorts: HashMap::new(),
                st: Stats::default(),
            }
        }
    }

    fn sort(&mut self, w: u16) -> Ptr {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(c, w as c_uint) })
    }

    /// translated as a bit-vector even if one bit wide
    fn tr_bv(&mut self, a: &Arena, e: E) -> Ptr {
        let x = self.tr(a, e);
        if a.w(e) == 1 {
            unsafe {
                let s = self.sort(1);
                let o = Z3_mk_unsigned_int64(self.c, 1, s);
                let z = Z3_mk_unsigned_int64(self.c, 0, s);
                Z3_mk_ite(self.c, x, o, z)
            }
        } else {
            x
        }
    }
    fn to_bool(&mut self, x: Ptr) -> Ptr {
        unsafe {
            let s = self.sort(1);
            Z3_mk_eq(self.c, x, Z3_mk_unsigned_int64(self.c, 1, s))
        }
    }

    fn tr(&mut self, a: &Arena, e: E) -> Ptr {
        let i = e as usize;
        if self.ast.len() <= i {
            self.ast.resize(a.nodes.len() + 256, std::ptr::null_mut());
        }
        if !self.ast[i].is_null() {
            return self.ast[i];
        }
        let c = self.c;
        let w = a.w(e);
        let r = unsafe {
            match a.n(e) {
                N::Const(v) => {
                    if w == 1 {
                        if *v == 1 {
                            Z3_mk_true(c)
                        } else {
                            Z3_mk_false(c)
                        }
                    } else if w <= 64 {
                        let s = self.sort(w);
                        Z3_mk_unsigned_int64(c, *v as u64, s)
                    } else {
                        let s = self.sort(w);
                        let t = CString::new(v.to_string()).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                N::Var(k) => {
                    let k = *k;
                    let s = self.sort(8);
                    *self.vars.entry(k).or_insert_with(|| {
                        let n = CString::new(format!("x{}", k)).unwrap();
                        Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), s)
                    })
                }
                N::Not(x) => {
                    let y = self.tr(a, *x);
                    if w == 1 {
                        Z3_mk_not(c, y)
                    } else {
                        Z3_mk_bvnot(c, y)
                    }
                }
                N::Ite(x, t, f) => {
                    let (x, t, f) = (self.tr(a, *x), self.tr(a, *t), self.tr(a, *f));
                    Z3_mk_ite(c, x, t, f)
                }
                N::Extract(x, lo) => {
                    let y = self.tr_bv(a, *x);
                    let r = Z3_mk_extract(c, (*lo + w - 1) as c_uint, *lo as c_uint, y);
                    if w == 1 {
                        self.to_bool(r)
                    } else {
                        r
                    }
                }
                N::Concat(l) => {
                    let mut r = self.tr_bv(a, l[0]);
                    for x in &l[1..] {
                        let y = self.tr_bv(a, *x);
                        r = Z3_mk_concat(c, y, r);
                    }
                    r
                }
                N::SExt(x) => {
                    let wx = a.w(*x);
                    let y = self.tr_bv(a, *x);
                    Z3_mk_sign_ext(c, (w - wx) as c_uint, y)
                }
                N::Bin(op, x, y) => {
                    let wx = a.w(*x);
                    if wx == 1 {
                        match op {
                            Op::And | Op::Or | Op::Xor | Op::Eq | Op::Add | Op::Sub => {
                                let (x, y) = (self.tr(a, *x), self.tr(a, *y));
                                match op {
                                    Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                                    Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                                    Op::Eq => Z3_mk_iff(c, x, y),
                                    _ => Z3_mk_xor(c, x, y),
                                }
                            }
                            _ => {
                                let (x, y) = (self.tr_bv(a, *x), self.tr_bv(a, *y));
                                let r = self.bvop(*op, x, y);
                                match op {
                                    Op::Ult | Op::Slt => r,
                                    _ => self.to_bool(r),
                                }
                            }
                        }
                    } else {
                        let (x, y) = (self.tr(a, *x), self.tr(a, *y));
                        self.bvop(*op, x, y)
                    }
                }
            }
        };
        self.ast[i] = r;
        r
    }

    fn bvop(&self, op: Op, x: Ptr, y: Ptr) -> Ptr {
        let c = self.c;
        unsafe {
            match op {
                Op::Add => Z3_mk_bvadd(c, x, y),
                Op::Sub => Z3_mk_bvsub(c, x, y),
                Op::Mul => Z3_mk_bvmul(c, x, y),
                Op::UDiv => Z3_mk_bvudiv(c, x, y),
                Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                Op::URem => Z3_mk_bvurem(c, x, y),
                Op::SRem => Z3_mk_bvsrem(c, x, y),
                Op::And => Z3_mk_bvand(c, x, y),
                Op::Or => Z3_mk_bvor(c, x, y),
                Op::Xor => Z3_mk_bvxor(c, x, y),
                Op::Shl => Z3_mk_bvshl(c, x, y),
                Op::LShr => Z3_mk_bvlshr(c, x, y),
                Op::AShr => Z3_mk_bvashr(c, x, y),
                Op::Eq => Z3_mk_eq(c, x, y),
                Op::Ult => Z3_mk_bvult(c, x, y),
                Op::Slt => Z3_mk_bvslt(c, x, y),
            }
        }
    }

    /// what `e`, which is about one byte, allows it to be
    fn table(&mut self, a: &mut Arena, e: E) -> Set {
        if let Some(t) = self.tables.get(&e) {
            return *t;
        }
        let f = a.first(e);
        let mut t = [0u64; 4];
        if f != e {
            t = self.table(a, f);
        } else {
            let mut m = [0u8; 1];
            for x in 0..=255u8 {
                m[0] = x;
                if a.eval(e, &m) == 1 {
                    t[(x >> 6) as usize] |= 1 << (x & 63);
                }
            }
        }
        self.tables.insert(e, t);
        t
    }

    /// do `own`, all about the byte `l` is about, imply `l`?
    pub fn implied(&mut self, a: &mut Arena, own: &[E], l: E) -> bool {
        let mut d = [u64::MAX; 4];
        for &c in own {
            let t = self.table(a, c);
            for i in 0..4 {
                d[i] &= t[i];
            }
        }
        let t = self.table(a, l);
        if (0..4).any(|i| d[i] & !t[i] != 0) {
            return false;
        }
        // the solver has the last word
        self.st.bytewise += 1;
        let not = a.not(l);
        let mut q: Vec<E> = own.iter().map(|&c| a.first(c)).collect();
        q.push(a.first(not));
        let mut m = Vars::new();
        m.add(0);
        match self.ask(a, q, m) {
            Res::Sat(_) => panic!("byte tables and solver differ"),
            Res::Unsat => true,
            Res::Unknown => false,
        }
    }

    /// byte `v` is one of `s`, as a constraint
    fn dom(&mut self, a: &mut Arena, v: u32, s: &Set) -> E {
        if let Some(e) = self.doms.get(&(v, *s)) {
            return *e;
        }
        let var = a.var(v);
        let mut r = a.f;
        let mut i = 0usize;
        let has = |i: usize| s[i >> 6] >> (i & 63) & 1 == 1;
        while i < 256 {
            if !has(i) {
                i += 1;
                continue;
            }
            let mut j = i;
            while j + 1 < 256 && has(j + 1) {
                j += 1;
            }
            let d = if i == j {
                let k = a.konst(8, i as u128);
                a.bin(Op::Eq, var, k)
            } else {
                let (lo, hi) = (a.konst(8, i as u128), a.konst(8, j as u128));
                let (x, y) = (a.ule(lo, var), a.ule(var, hi));
                a.bin(Op::And, x, y)
            };
            r = a.bin(Op::Or, r, d);
            i = j + 1;
        }
        self.doms.insert((v, *s), r);
        r
    }

    fn lit(&mut self, a: &Arena, e: E) -> Ptr {
        if let Some(l) = self.lits.get(&e) {
            return *l;
        }
        let x = self.tr(a, e);
        let c = self.c;
        let l = unsafe {
            let n = CString::new(format!("p{}", self.nlit)).unwrap();
            self.nlit += 1;
            let l = Z3_mk_const(c, Z3_mk_string_symbol(c, n.as_ptr()), Z3_mk_bool_sort(c));
            Z3_solver_assert(c, self.s, Z3_mk_implies(c, l, x));
            l
        };
        self.lits.insert(e, l);
        l
    }

    /// Satisfiability of the conjunction of `cs` (need not be sorted).
    ///
    /// What a constraint on one byte allows is tabulated, so that the solver is asked
    /// about the constraints that relate bytes, with each byte in its set.
    pub fn check(&mut self, a: &mut Arena, cs: &[E]) -> Res {
        let mut multi = Vars::new();
        let mut k: Vec<E> = Vec::new();
        // a set for each byte that has constraints of its own
        let mut doms: Vec<(u32, Set)> = Vec::new();
        for &e in cs {
            let v = match a.only(e) {
                Some(v) => v,
                None => {
                    for &v in a.vars(e) {
                        multi.add(v);
                    }
                    k.push(e);
                    continue;
                }
            };
            let t = self.table(a, e);
            let i = match doms.iter().position(|d| d.0 == v) {
                Some(i) => i,
                None => {
                    doms.push((v, [u64::MAX; 4]));
                    doms.len() - 1
                }
            };
            let d = &mut doms[i].1;
            for i in 0..4 {
                d[i] &= t[i];
            }
            if *d == [0; 4] {
                // no value is left: the solver has the last word on that, and says it
                // once for all bytes
                self.st.bytewise += 1;
                let of: Vec<E> = cs.iter().cloned().filter(|&c| a.only(c) == Some(v)).collect();
                let of: Vec<E> = of.into_iter().map(|c| a.first(c)).collect();
                let mut m = Vars::new();
                m.add(0);
                return match self.ask(a, of, m) {
                    Res::Sat(_) => panic!("byte tables and solver differ"),
                    r => r,
                };
            }
        }
        let mut fixed = Vec::new();
        for (v, d) in doms {
            if multi.has(v) {
                if d != [u64::MAX; 4] {
                    k.push(self.dom(a, v, &d));
                }
            } else {
                let i = (0..4).find(|&i| d[i] != 0).unwrap();
                fixed.push((v, (i as u32 * 64 + d[i].trailing_zeros()) as u8));
            }
        }
        if k.is_empty() {
            // these values are a witness
            self.st.bytewise += 1;
            return Res::Sat(Rc::new(fixed));
        }
        match self.ask(a, k, multi) {
            Res::Sat(m) if !fixed.is_empty() => {
                fixed.extend_from_slice(&m);
                Res::Sat(Rc::new(fixed))
            }
            r => r,
        }
    }

    fn ask(&mut self, a: &mut Arena, mut k: Vec<E>, vars: Vars) -> Res {
        k.sort();
        k.dedup();
        let k = k.into_boxed_slice();
        if let Some(r) = self.cache.get(&k) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let t0 = Instant::now();
        let r = unsafe {
            if self.lits.len() > LITS {
                Z3_solver_reset(self.c, self.s);
                self.lits.clear();
            }
            let ls: Vec<Ptr> = k.iter().map(|&e| self.lit(a, e)).collect();
            let r = match Z3_solver_check_assumptions(self.c, self.s, ls.len() as c_uint, ls.as_ptr()) {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = Vec::new();
                    for v in vars.iter() {
                        if let Some(&x) = self.vars.get(&v) {
                            let mut o: Ptr = std::ptr::null_mut();
                            Z3_model_eval(self.c, m, x, true, &mut o);
                            let mut n = 0u64;
                            Z3_get_numeral_uint64(self.c, o, &mut n);
                            out.push((v, n as u8));
                        }
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(Rc::new(out))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if Z3_ERR {
                Z3_ERR = false;
                Res::Unknown
            } else {
                r
            }
        };
        // a model must satisfy the query in our own semantics as well
        if let Res::Sat(m) = &r {
            let mut mv = [0u8; NV];
            for &(v, x) in m.iter() {
                mv[v as usize] = x;
            }
            for &e in k.iter() {
                if a.eval(e, &mv) != 1 {
                    panic!("solver model does not satisfy {}", a.show(e));
                }
            }
        }
        let us = t0.elapsed().as_micros() as u64;
        self.st.queries += 1;
        self.st.time_us += us;
        self.st.max_us = self.st.max_us.max(us);
        match r {
            Res::Sat(_) => self.st.sat += 1,
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(k, r.clone());
        r
    }
}

//! Hash-consed bit-vector expressions over 8-bit input variables.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Not(E),
    Ite(E, E, E),
    Extract(E, u16),
    /// low to high
    Concat(Box<[E]>),
    SExt(E),
}

pub struct Arena {
    pub nodes: Vec<(N, u16)>,
    map: HashMap<(N, u16), E>,
    supp: Vec<u32>,
    pub supps: Vec<Rc<[u32]>>,
    supp_map: HashMap<Rc<[u32]>, u32>,
    merge_cache: HashMap<(u32, u32), u32>,
    /// expressions about one byte, told of byte 0
    as_first: HashMap<E, E>,
    pub t: E,
    pub f: E,
    eval_mark: Vec<u32>,
    eval_val: Vec<u128>,
    eval_epoch: u32,
}

/// symbolic bytes a run may have
pub const NV: usize = 2048;

/// values of the symbolic bytes
pub type Model = [u8; NV];

/// a set of symbolic bytes
#[derive(Clone, Copy)]
pub struct Vars([u64; NV / 64]);
impl Vars {
    pub fn new() -> Vars {
        Vars([0; NV / 64])
    }
    #[inline]
    pub fn has(&self, v: u32) -> bool {
        self.0[v as usize >> 6] >> (v & 63) & 1 == 1
    }
    #[inline]
    pub fn add(&mut self, v: u32) {
        self.0[v as usize >> 6] |= 1 << (v & 63)
    }
    pub fn iter(self) -> impl Iterator<Item = u32> {
        (0..NV as u32).filter(move |&v| self.has(v))
    }
}

#[inline]
pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

#[inline]
pub fn sext128(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let sh = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((sext128(a, w) >> sh) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
    }
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            nodes: vec![(N::Const(0), 0)],
            map: HashMap::new(),
            supp: vec![0],
            supps: vec![Rc::from(Vec::new())],
            supp_map: HashMap::new(),
            merge_cache: HashMap::new(),
            as_first: HashMap::new(),
            t: 0,
            f: 0,
            eval_mark: Vec::new(),
            eval_val: Vec::new(),
            eval_epoch: 0,
        };
        a.supp_map.insert(a.supps[0].clone(), 0);
        a.t = a.konst(1, 1);
        a.f = a.konst(1, 0);
        a
    }

    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].1
    }
    #[inline]
    pub fn n(&self, e: E) -> &N {
        &self.nodes[e as usize].0
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize].0 {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn support(&self, e: E) -> &Rc<[u32]> {
        &self.supps[self.supp[e as usize] as usize]
    }

    /// the variables of `e`, in order
    #[inline]
    pub fn vars(&self, e: E) -> &[u32] {
        &self.supps[self.supp[e as usize] as usize]
    }

    /// the variable of `e` if there is just one
    #[inline]
    pub fn only(&self, e: E) -> Option<u32> {
        match *self.vars(e) {
            [v] => Some(v),
            _ => None,
        }
    }

    /// What `e`, which is about one byte at most, says, said of byte 0
    pub fn first(&mut self, e: E) -> E {
        if let Some(&r) = self.as_first.get(&e) {
            return r;
        }
        let (n, w) = self.nodes[e as usize].clone();
        let n = match n {
            N::Const(c) => N::Const(c),
            N::Var(_) => N::Var(0),
            N::Bin(o, a, b) => N::Bin(o, self.first(a), self.first(b)),
            N::Not(a) => N::Not(self.first(a)),
            N::Ite(c, a, b) => N::Ite(self.first(c), self.first(a), self.first(b)),
            N::Extract(a, l) => N::Extract(self.first(a), l),
            N::Concat(l) => N::Concat(l.iter().map(|&x| self.first(x)).collect()),
            N::SExt(a) => N::SExt(self.first(a)),
        };
        let r = self.mk(n, w);
        self.as_first.insert(e, r);
        r
    }

    /// `e` as a conjunction
    pub fn conj(&mut self, e: E, out: &mut Vec<E>) {
        match *self.n(e) {
            N::Bin(Op::And, a, b) if self.w(e) == 1 => {
                self.conj(a, out);
                self.conj(b, out);
            }
            N::Not(x) => match *self.n(x) {
                N::Bin(Op::Or, a, b) if self.w(e) == 1 => {
                    let (a, b) = (self.not(a), self.not(b));
                    self.conj(a, out);
                    self.conj(b, out);
                }
                _ => out.push(e),
            },
            _ => out.push(e),
        }
    }

    /// `e` as a disjunction
    pub fn disj(&mut self, e: E, out: &mut Vec<E>) {
        match *self.n(e) {
            N::Bin(Op::Or, a, b) if self.w(e) == 1 => {
                self.disj(a, out);
                self.disj(b, out);
            }
            N::Not(x) => match *self.n(x) {
                N::Bin(Op::And, a, b) if self.w(e) == 1 => {
                    let (a, b) = (self.not(a), self.not(b));
                    self.disj(a, out);
                    self.disj(b, out);
                }
                _ => out.push(e),
            },
            _ => out.push(e),
        }
    }

    fn intern_supp(&mut self, v: Vec<u32>) -> u32 {
        let r: Rc<[u32]> = Rc::from(v);
        if let Some(&i) = self.supp_map.get(&r) {
            return i;
        }
        let i = self.supps.len() as u32;
        self.supps.push(r.clone());
        assert!(r.iter().all(|&v| (v as usize) < NV), "too many symbolic bytes");
        self.supp_map.insert(r, i);
        i
    }

    fn merge_supp(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let k = if a < b { (a, b) } else { (b, a) };
        if let Some(&r) = self.merge_cache.get(&k) {
            return r;
        }
        let mut v: Vec<u32> = Vec::new();
        {
            let (x, y) = (&self.supps[a as usize], &self.supps[b as usize]);
            let (mut i, mut j) = (0, 0);
            while i < x.len() || j < y.len() {
                if j >= y.len() || (i < x.len() && x[i] < y[j]) {
                    v.push(x[i]);
                    i += 1;
                } else if i >= x.len() || y[j] < x[i] {
                    v.push(y[j]);
                    j += 1;
                } else {
                    v.push(x[i]);
                    i += 1;
                    j += 1;
                }
            }
        }
        let r = self.intern_supp(v);
        self.merge_cache.insert(k, r);
        r
    }

    fn mk(&mut self, n: N, w: u16) -> E {
        let key = (n, w);
        if let Some(&e) = self.map.get(&key) {
            return e;
        }
        let s = match &key.0 {
            N::Const(_) => 0,
            N::Var(v) => {
                let v = *v;
                self.intern_supp(vec![v])
            }
            N::Bin(_, a, b) => {
                let (a, b) = (self.supp[*a as usize], self.supp[*b as usize]);
                self.merge_supp(a, b)
            }
            N::Not(a) | N::Extract(a, _) | N::SExt(a) => self.supp[*a as usize],
            N::Ite(c, a, b) => {
                let (c, a, b) = (
                    self.supp[*c as usize],
                    self.supp[*a as usize],
                    self.supp[*b as usize],
                );
                let x = self.merge_supp(a, b);
                self.merge_supp(c, x)
            }
            N::Concat(l) => {
                let mut s = 0;
                let l: Vec<E> = l.to_vec();
                for x in l {
                    let y = self.supp[x as usize];
                    s = self.merge_supp(s, y);
                }
                s
            }
        };
        let e = self.nodes.len() as E;
        self.nodes.push((key.0.clone(), w));
        self.supp.push(s);
        self.map.insert(key, e);
        e
    }

    pub fn konst(&mut self, w: u16, v: u128) -> E {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, i: u32) -> E {
        self.mk(N::Var(i), 8)
    }
    pub fn boolc(&self, b: bool) -> E {
        if b {
            self.t
        } else {
            self.f
        }
    }

    fn segs(&self, e: E) -> Vec<E> {
        match self.n(e) {
            N::Concat(l) => l.to_vec(),
            _ => vec![e],
        }
    }

    /// low to high
    pub fn concat(&mut self, parts: &[E]) -> E {
        let mut out: Vec<E> = Vec::with_capacity(parts.len());
        let mut total = 0u16;
        for &p in parts {
            let ss = self.segs(p);
            for s in ss {
                total += self.w(s);
                if let Some(&last) = out.last() {
                    // merge constants
                    if let (Some(a), Some(b)) = (self.as_const(last), self.as_const(s)) {
                        let (wa, wb) = (self.w(last), self.w(s));
                        if wa + wb <= 128 {
                            let c = self.konst(wa + wb, a | (b << wa));
                            *out.last_mut().unwrap() = c;
                            continue;
                        }
                    }
                    // merge adjacent extracts
                    let (b1, l1) = match self.n(last) {
                        N::Extract(b, l) => (*b, *l),
                        _ => (last, 0),
                    };
                    if let N::Extract(b2, l2) = *self.n(s) {
                        if b1 == b2 && l2 == l1 + self.w(last) {
                            let w = self.w(last) + self.w(s);
                            let m = self.extract(b1, l1, w);
                            *out.last_mut().unwrap() = m;
                            continue;
                        }
                    }
                }
                out.push(s);
            }
        }
        if out.len() == 1 {
            return out[0];
        }
        self.mk(N::Concat(out.into_boxed_slice()), total)
    }

    pub fn extract(&mut self, e: E, lo: u16, w: u16) -> E {
        let we = self.w(e);
        debug_assert!(lo + w <= we);
        if lo == 0 && w == we {
            return e;
        }
        match self.n(e).clone() {
            N::Const(v) => self.konst(w, v >> lo),
            N::Extract(b, l2) => self.extract(b, lo + l2, w),
            N::Concat(l) => {
                let mut parts = Vec::new();
                let mut pos = 0u16;
                for &s in l.iter() {
                    let ws = self.w(s);
                    let (a, b) = (pos.max(lo), (pos + ws).min(lo + w));
                    if a < b {
                        let x = self.extract(s, a - pos, b - a);
                        parts.push(x);
                    }
                    pos += ws;
                }
                self.concat(&parts)
            }
            N::Ite(c, a, b)
                if self.as_const(a).is_some()
                    || self.as_const(b).is_some()
                    || matches!(self.n(a), N::Concat(_))
                    || matches!(self.n(b), N::Concat(_)) =>
            {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.ite(c, x, y)
            }
            N::Not(a) => {
                let x = self.extract(a, lo, w);
                self.not(x)
            }
            N::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                self.bin(op, x, y)
            }
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                self.bin(op, x, y)
            }
            N::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    self.extract(x, lo, w)
                } else if lo < wx {
                    let y = self.extract(x, lo, wx - lo);
                    self.sext(y, w)
                } else {
                    let s = self.extract(x, wx - 1, 1);
                    self.sext(s, w)
                }
            }
            _ => self.mk(N::Extract(e, lo), w),
        }
    }

    pub fn zext(&mut self, e: E, w: u16) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        let z = self.konst(w - we, 0);
        self.concat(&[e, z])
    }

    pub fn sext(&mut self, e: E, w: u16) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        if let Some(v) = self.as_const(e) {
            return self.konst(w, sext128(v, we) as u128);
        }
        match self.n(e).clone() {
            N::Concat(l) => {
                let last = *l.last().unwrap();
                if let Some(v) = self.as_const(last) {
                    let wl = self.w(last);
                    let ext = self.konst(w - we, if (v >> (wl - 1)) & 1 == 1 { !0 } else { 0 });
                    return self.concat(&[e, ext]);
                }
            }
            N::SExt(x) => return self.sext(x, w),
            N::Ite(c, a, b) if self.as_const(a).is_some() && self.as_const(b).is_some() => {
                let x = self.sext(a, w);
                let y = self.sext(b, w);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.mk(N::SExt(e), w)
    }

    pub fn trunc(&mut self, e: E, w: u16) -> E {
        self.extract(e, 0, w)
    }

    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        match self.n(e).clone() {
            N::Const(v) => self.konst(w, !v),
            N::Not(x) => x,
            N::Concat(l) => {
                let p: Vec<E> = l.iter().map(|&x| self.not(x)).collect();
                self.concat(&p)
            }
            _ => self.mk(N::Not(e), w),
        }
    }

    pub fn ite(&mut self, c: E, t: E, f: E) -> E {
        if let Some(v) = self.as_const(c) {
            return if v == 1 { t } else { f };
        }
        if t == f {
            return t;
        }
        if let N::Not(x) = *self.n(c) {
            return self.ite(x, f, t);
        }
        let w = self.w(t);
        if w == 1 {
            match (self.as_const(t), self.as_const(f)) {
                (Some(1), Some(_)) => return c,
                (Some(_), Some(_)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, f),
                (Some(_), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, f);
                }
                (None, Some(0)) => return self.bin(Op::And, c, t),
                (None, Some(_)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, t);
                }
                _ => {}
            }
        }
        let mut t = t;
        let mut f = f;
        if let N::Ite(c2, a, _) = *self.n(t) {
            if c2 == c {
                t = a;
            }
        }
        if let N::Ite(c2, _, b) = *self.n(f) {
            if c2 == c {
                f = b;
            }
        }
        if t == f {
            return t;
        }
        // ite(c, t, ite(d, t, g)) = ite(c|d, t, g)
        if let N::Ite(d, t2, g) = *self.n(f) {
            if t2 == t {
                let cd = self.bin(Op::Or, c, d);
                return self.ite(cd, t, g);
            }
        }
        self.mk(N::Ite(c, t, f), w)
    }

    /// number of high bits known to be zero
    fn lead0(&self, e: E) -> u16 {
        match self.n(e) {
            N::Const(v) => {
                let w = self.w(e);
                (v.leading_zeros() as u16).saturating_sub(128 - w).min(w)
            }
            N::Concat(l) => {
                let mut n = 0;
                for &s in l.iter().rev() {
                    let z = self.lead0(s);
                    n += z;
                    if z < self.w(s) {
                        break;
                    }
                }
                n
            }
            N::Ite(_, a, b) => self.lead0(*a).min(self.lead0(*b)),
            N::Bin(Op::And, a, b) => self.lead0(*a).max(self.lead0(*b)),
            N::Bin(Op::Or | Op::Xor, a, b) => self.lead0(*a).min(self.lead0(*b)),
            _ => 0,
        }
    }

    fn runs(v: u128, w: u16) -> Vec<(u16, u16, bool)> {
        let mut r = Vec::new();
        let mut i = 0;
        while i < w {
            let b = (v >> i) & 1 == 1;
            let mut j = i + 1;
            while j < w && ((v >> j) & 1 == 1) == b {
                j += 1;
            }
            r.push((i, j - i, b));
            i = j;
        }
        r
    }

    fn cuts(&self, e: E, out: &mut Vec<u16>) {
        if let N::Concat(l) = self.n(e) {
            let mut p = 0;
            for &s in l.iter() {
                p += self.w(s);
                out.push(p);
            }
        }
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let rw = match op {
            Op::Eq | Op::Ult | Op::Slt => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (ca, cb) {
            let v = fold(op, w, x, y);
            return self.konst(rw, v);
        }
        // constants on the right for commutative ops
        match op {
            Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq => {
                if ca.is_some() || (cb.is_none() && a > b) {
                    return self.bin_c(op, b, a, w, rw);
                }
            }
            _ => {}
        }
        self.bin_c(op, a, b, w, rw)
    }

    fn bin_c(&mut self, op: Op, a: E, b: E, w: u16, rw: u16) -> E {
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        let m = mask(w);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if let N::Bin(Op::Add, x, y) = *self.n(a) {
                        if let Some(k2) = self.as_const(y) {
                            let c = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, x, c);
                        }
                    }
                    if let N::Ite(c, x, y) = *self.n(a) {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let p = self.bin(Op::Add, x, b);
                            let q = self.bin(Op::Add, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    let c = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                    if k != 0 {
                        let l0 = self.lead0(a);
                        if l0 > 0 && l0 < w {
                            let nw = w - l0;
                            if k > mask(nw) {
                                return self.konst(w, 0);
                            }
                            let x = self.extract(a, 0, nw);
                            let y = self.konst(nw, k);
                            let r = self.mk_bin(Op::UDiv, x, y, nw);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.konst(w, k - 1);
                        return self.bin(Op::And, a, s);
                    }
                    if k != 0 {
                        let l0 = self.lead0(a);
                        if l0 > 0 && l0 < w {
                            let nw = w - l0;
                            if k > mask(nw) {
                                return a;
                            }
                            let x = self.extract(a, 0, nw);
                            let y = self.konst(nw, k);
                            let r = self.mk_bin(Op::URem, x, y, nw);
                            return self.zext(r, w);
                        }
                    }
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if a == b {
                    return if op == Op::Xor { self.konst(w, 0) } else { a };
                }
                if let Some(k) = cb {
                    match op {
                        Op::And if k == 0 => return b,
                        Op::And if k == m => return a,
                        Op::Or if k == 0 => return a,
                        Op::Or if k == m => return b,
                        Op::Xor if k == 0 => return a,
                        Op::Xor if k == m => return self.not(a),
                        _ => {}
                    }
                    let runs = Self::runs(k, w);
                    let lim = if matches!(self.n(a), N::Concat(_)) { 64 } else { 4 };
                    if runs.len() <= lim {
                        let mut parts = Vec::new();
                        for (lo, len, one) in runs {
                            let x = match (op, one) {
                                (Op::And, false) => self.konst(len, 0),
                                (Op::Or, true) => self.konst(len, !0),
                                (Op::Xor, true) => {
                                    let y = self.extract(a, lo, len);
                                    self.not(y)
                                }
                                _ => self.extract(a, lo, len),
                            };
                            parts.push(x);
                        }
                        return self.concat(&parts);
                    }
                } else {
                    if w == 1 {
                        // complements
                        let na = self.not(a);
                        if na == b {
                            return match op {
                                Op::And => self.f,
                                _ => self.t,
                            };
                        }
                        // absorption for right-nested chains
                        if op != Op::Xor {
                            for (x, y) in [(a, b), (b, a)] {
                                if let N::Bin(o2, p, q) = *self.n(x) {
                                    if o2 == op && (p == y || q == y) {
                                        return x;
                                    }
                                }
                            }
                        }
                    } else {
                        let mut c = Vec::new();
                        self.cuts(a, &mut c);
                        self.cuts(b, &mut c);
                        if !c.is_empty() {
                            c.sort();
                            c.dedup();
                            if c.len() <= 64 {
                                let mut parts = Vec::new();
                                let mut p = 0;
                                for q in c {
                                    let x = self.extract(a, p, q - p);
                                    let y = self.extract(b, p, q - p);
                                    let z = self.bin(op, x, y);
                                    parts.push(z);
                                    p = q;
                                }
                                return self.concat(&parts);
                            }
                        }
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let z = self.konst(k as u16, 0);
                    let x = self.extract(a, 0, w - k as u16);
                    return self.concat(&[z, x]);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let z = self.konst(k as u16, 0);
                    let x = self.extract(a, k as u16, w - k as u16);
                    return self.concat(&[x, z]);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    let k = k.min(w as u128 - 1) as u16;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.t;
                }
                if let Some(k) = cb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match self.n(a).clone() {
                        N::Concat(_) => return self.eq_cut(a, b, w),
                        N::Ite(c, x, y) => {
                            let (cx, cy) = (self.as_const(x), self.as_const(y));
                            if cx.is_some() || cy.is_some() {
                                let p = self.bin(Op::Eq, x, b);
                                let q = self.bin(Op::Eq, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        N::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let c = self.konst(w, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, x, c);
                            }
                        }
                        N::Bin(Op::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let c = self.konst(w, k ^ k2);
                                return self.bin(Op::Eq, x, c);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, x, y);
                            }
                        }
                        N::Bin(Op::Sub, x, y) if k == 0 => return self.bin(Op::Eq, x, y),
                        N::Not(x) => {
                            let c = self.konst(w, !k);
                            return self.bin(Op::Eq, x, c);
                        }
                        N::SExt(x) => {
                            let wx = self.w(x);
                            let t = k & mask(wx);
                            if (sext128(t, wx) as u128) & m != k {
                                return self.f;
                            }
                            let c = self.konst(wx, t);
                            return self.bin(Op::Eq, x, c);
                        }
                        _ => {}
                    }
                } else {
                    if w == 1 {
                        // a == b  <=>  not (a xor b)
                        let na = self.not(a);
                        if na == b {
                            return self.f;
                        }
                    }
                    if matches!(self.n(a), N::Concat(_)) || matches!(self.n(b), N::Concat(_)) {
                        return self.eq_cut(a, b, w);
                    }
                }
            }
            Op::Ult | Op::Slt => {
                if a == b {
                    return self.f;
                }
                let (za, zb) = (self.lead0(a), self.lead0(b));
                if op == Op::Slt {
                    if za > 0 && zb > 0 {
                        return self.bin(Op::Ult, a, b);
                    }
                    if let Some(0) = cb {
                        return self.extract(a, w - 1, 1);
                    }
                    if cb == Some(m) {
                        // fallthrough, rare
                    }
                    if let Some(k) = ca {
                        if k == m {
                            // -1 < b  <=> b >= 0
                            let s = self.extract(b, w - 1, 1);
                            return self.not(s);
                        }
                    }
                } else {
                    if cb == Some(0) {
                        return self.f;
                    }
                    if ca == Some(m) {
                        return self.f;
                    }
                    let z = za.min(zb);
                    if z == w {
                        return self.f;
                    }
                    if z > 0 {
                        let x = self.extract(a, 0, w - z);
                        let y = self.extract(b, 0, w - z);
                        return self.bin(Op::Ult, x, y);
                    }
                    if let Some(k) = cb {
                        if za > 0 && k > mask(w - za) {
                            return self.t;
                        }
                        if k == 1 {
                            let z = self.konst(w, 0);
                            return self.bin(Op::Eq, a, z);
                        }
                        if let N::Ite(c, x, y) = *self.n(a) {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let p = self.bin(Op::Ult, x, b);
                                let q = self.bin(Op::Ult, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                    }
                    if let Some(k) = ca {
                        if zb > 0 && k >= mask(w - zb) {
                            return self.f;
                        }
                        if k == 0 {
                            let z = self.bin(Op::Eq, b, a);
                            return self.not(z);
                        }
                        if let N::Ite(c, x, y) = *self.n(b) {
                            if self.as_const(x).is_some() || self.as_const(y).is_some() {
                                let p = self.bin(Op::Ult, a, x);
                                let q = self.bin(Op::Ult, a, y);
                                return self.ite(c, p, q);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
        self.mk_bin(op, a, b, rw)
    }

    fn mk_bin(&mut self, op: Op, a: E, b: E, w: u16) -> E {
        self.mk(N::Bin(op, a, b), w)
    }

    fn eq_cut(&mut self, a: E, b: E, w: u16) -> E {
        let mut c = Vec::new();
        self.cuts(a, &mut c);
        self.cuts(b, &mut c);
        c.push(w);
        c.sort();
        c.dedup();
        let mut r = self.t;
        let mut p = 0;
        // decide constant mismatches first
        let mut eqs = Vec::new();
        for q in c {
            let x = self.extract(a, p, q - p);
            let y = self.extract(b, p, q - p);
            let e = self.bin(Op::Eq, x, y);
            if e == self.f {
                return self.f;
            }
            eqs.push(e);
            p = q;
        }
        for e in eqs {
            r = self.bin(Op::And, r, e);
        }
        r
    }

    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.bin(Op::Ult, b, a);
        self.not(x)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.bin(Op::Slt, b, a);
        self.not(x)
    }

    /// Evaluate under a byte assignment (missing variables are 0).
    pub fn eval(&mut self, e: E, model: &[u8]) -> u128 {
        self.eval_epoch += 1;
        if self.eval_mark.len() < self.nodes.len() {
            let n = self.nodes.len() + 1024;
            self.eval_mark.resize(n, 0);
            self.eval_val.resize(n, 0);
        }
        self.eval_rec(e, model)
    }

    pub fn eval_more(&mut self, e: E, model: &[u8]) -> u128 {
        if self.eval_mark.len() < self.nodes.len() {
            return self.eval(e, model);
        }
        self.eval_rec(e, model)
    }

    fn eval_rec(&mut self, e: E, model: &[u8]) -> u128 {
        let i = e as usize;
        if self.eval_mark[i] == self.eval_epoch {
            return self.eval_val[i];
        }
        let w = self.nodes[i].1;
        let n: *const N = &self.nodes[i].0;
        // nodes is not modified during evaluation
        let n = unsafe { &*n };
        let v = match n {
            N::Const(v) => return *v,
            N::Var(k) => return *model.get(*k as usize).unwrap_or(&0) as u128,
            N::Bin(op, a, b) => {
                let wa = self.nodes[*a as usize].1;
                let x = self.eval_rec(*a, model);
                if w == 1 && wa == 1 {
                    match (op, x) {
                        (Op::And, 0) => {
                            self.eval_mark[i] = self.eval_epoch;
                            self.eval_val[i] = 0;
                            return 0;
                        }
                        (Op::Or, 1) => {
                            self.eval_mark[i] = self.eval_epoch;
                            self.eval_val[i] = 1;
                            return 1;
                        }
                        _ => {}
                    }
                }
                let y = self.eval_rec(*b, model);
                fold(*op, wa, x, y)
            }
            N::Not(a) => !self.eval_rec(*a, model) & mask(w),
            N::Ite(c, t, f) => {
                if self.eval_rec(*c, model) == 1 {
                    self.eval_rec(*t, model)
                } else {
                    self.eval_rec(*f, model)
                }
            }
            N::Extract(a, lo) => (self.eval_rec(*a, model) >> lo) & mask(w),
            N::Concat(l) => {
                let mut v = 0u128;
                let mut p = 0u32;
                for &s in l.iter() {
                    let x = self.eval_rec(s, model);
                    v |= x << p;
                    p += self.nodes[s as usize].1 as u32;
                }
                v
            }
            N::SExt(a) => {
                let wa = self.nodes[*a as usize].1;
                (sext128(self.eval_rec(*a, model), wa) as u128) & mask(w)
            }
        };
        self.eval_mark[i] = self.eval_epoch;
        self.eval_val[i] = v;
        v
    }

    #[allow(dead_code)]
    pub fn show(&self, e: E) -> String {
        let mut o = String::new();
        self.show_to(e, &mut o);
        o
    }
    /// at most some 2000 characters: shared parts would be written out again and again
    fn show_to(&self, e: E, o: &mut String) {
        if o.len() > 2000 {
            o.push_str("..");
            return;
        }
        match self.n(e) {
            N::Const(v) => o.push_str(&format!("{}:{}", v, self.w(e))),
            N::Var(v) => o.push_str(&format!("x{}", v)),
            n => {
                let (h, l) = match n {
                    N::Bin(p, a, b) => (format!("{:?}", p), vec![*a, *b]),
                    N::Not(a) => ("not".to_string(), vec![*a]),
                    N::Ite(c, a, b) => ("ite".to_string(), vec![*c, *a, *b]),
                    N::Extract(a, lo) => (format!("[{}+{}]", lo, self.w(e)), vec![*a]),
                    N::Concat(l) => ("concat".to_string(), l.to_vec()),
                    N::SExt(a) => (format!("sext{}", self.w(e)), vec![*a]),
                    _ => return,
                };
                o.push('(');
                o.push_str(&h);
                for x in l {
                    if o.len() > 2000 {
                        break;
                    }
                    o.push(' ');
                    self.show_to(x, o);
                }
                o.push(')');
            }
        }
    }
}

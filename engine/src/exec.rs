//! Symbolic execution of LLVM IR.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum H {
    None,
    Panic,
    Abort,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Memchr,
    Memrchr,
    Strlen,
    HashOne,
    RandomKeys,
    Ret0,
    RetArg0,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    BitReverse,
    Fshl,
    Fshr,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    UaddSat,
    UsubSat,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    Ucmp,
    Scmp,
    Assume,
    IsConstant,
    Expect,
    SxBytes,
    SxChoose,
    SxAssume,
    SxCheck,
    SxParam,
    SxCover,
    SxObserve,
    SxExpectPanic,
    SxStop,
    SxSetTime,
    ClockGettime,
    VecReduceOr,
    VecReduceAnd,
}

pub fn hook_for(name: &str, has_body: bool) -> H {
    if let Some(r) = name.strip_prefix("llvm.") {
        let starts = |p: &str| r.starts_with(p);
        if starts("memcpy") || starts("memmove") {
            return H::Memcpy;
        }
        if starts("memset") {
            return H::Memset;
        }
        if starts("ctlz") {
            return H::Ctlz;
        }
        if starts("cttz") {
            return H::Cttz;
        }
        if starts("ctpop") {
            return H::Ctpop;
        }
        if starts("bswap") {
            return H::Bswap;
        }
        if starts("bitreverse") {
            return H::BitReverse;
        }
        if starts("fshl") {
            return H::Fshl;
        }
        if starts("fshr") {
            return H::Fshr;
        }
        if starts("umax") {
            return H::Umax;
        }
        if starts("umin") {
            return H::Umin;
        }
        if starts("smax") {
            return H::Smax;
        }
        if starts("smin") {
            return H::Smin;
        }
        if starts("abs") {
            return H::Abs;
        }
        if starts("uadd.sat") {
            return H::UaddSat;
        }
        if starts("usub.sat") {
            return H::UsubSat;
        }
        if starts("uadd.with") {
            return H::UaddO;
        }
        if starts("usub.with") {
            return H::UsubO;
        }
        if starts("umul.with") {
            return H::UmulO;
        }
        if starts("sadd.with") {
            return H::SaddO;
        }
        if starts("ssub.with") {
            return H::SsubO;
        }
        if starts("smul.with") {
            return H::SmulO;
        }
        if starts("ucmp") {
            return H::Ucmp;
        }
        if starts("scmp") {
            return H::Scmp;
        }
        if starts("assume") {
            return H::Assume;
        }
        if starts("is.constant") {
            return H::IsConstant;
        }
        if starts("expect") {
            return H::Expect;
        }
        if starts("threadlocal.address") || starts("launder") || starts("strip") || starts("ptrmask") || starts("ssa.copy") {
            return H::RetArg0;
        }
        if starts("trap") || starts("ubsantrap") {
            return H::Abort;
        }
        if starts("vector.reduce.or") {
            return H::VecReduceOr;
        }
        if starts("vector.reduce.and") {
            return H::VecReduceAnd;
        }
        if starts("lifetime")
            || starts("experimental.noalias")
            || starts("dbg")
            || starts("x86.sse2.pause")
            || starts("donothing")
            || starts("prefetch")
            || starts("fake.use")
            || starts("invariant")
        {
            return H::Ret0;
        }
        return H::None;
    }
    match name {
        "malloc" => return H::Malloc,
        "calloc" => return H::Calloc,
        "realloc" => return H::Realloc,
        "free" => return H::Free,
        "posix_memalign" => return H::PosixMemalign,
        "memcpy" | "memmove" => return H::Memcpy,
        "memset" => return H::Memset,
        "bcmp" => return H::Bcmp,
        "memcmp" => return H::Memcmp,
        "memchr" => return H::Memchr,
        "memrchr" => return H::Memrchr,
        "strlen" => return H::Strlen,
        "abort" | "_exit" | "exit" => return H::Abort,
        "__cxa_thread_atexit_impl" | "pthread_key_create" | "pthread_setspecific" | "pthread_key_delete"
        | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_self" | "gettid" => return H::Ret0,
        "clock_gettime" => return H::ClockGettime,
        "sx_bytes" => return H::SxBytes,
        "sx_choose" => return H::SxChoose,
        "sx_assume" => return H::SxAssume,
        "sx_check" => return H::SxCheck,
        "sx_param" => return H::SxParam,
        "sx_cover" => return H::SxCover,
        "sx_observe" => return H::SxObserve,
        "sx_expect_panic" => return H::SxExpectPanic,
        "sx_stop" => return H::SxStop,
        "sx_set_time" => return H::SxSetTime,
        _ => {}
    }
    if has_body {
        if name.starts_with("_RNvNtCs") || name.starts_with("_RINvNtCs") {
            if let Some(p) = name.find("_4core9panicking") {
                if p < 32 {
                    return H::Panic;
                }
            }
            if let Some(p) = name.find("_3std9panicking") {
                if p < 32 && (name.contains("11begin_panic") || name.contains("panic_with_hook") || name.contains("10rust_panic")) {
                    return H::Panic;
                }
            }
        }
        if name.ends_with("17rust_begin_unwind") || name == "rust_begin_unwind" {
            return H::Panic;
        }
        if name.contains("11BuildHasher8hash_one") {
            return H::HashOne;
        }
        if name.contains("hashmap_random_keys") {
            return H::RandomKeys;
        }
    }
    H::None
}

pub enum Stop {
    /// harness returned
    Done,
    /// assumption not met
    Assumed,
    /// a violation candidate: kind, message
    Bad(&'static str, String),
    /// this engine cannot continue
    Err(String),
}

type R<T> = Result<T, Stop>;

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub inputs: String,
    pub stack: Vec<String>,
}

#[derive(Default)]
pub struct JobStats {
    pub paths: u64,
    pub assumed: u64,
    pub forks: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub max_pc: u64,
    pub checks: u64,
    pub sym_checks: u64,
    pub expected_panics: u64,
    pub errors: Vec<String>,
}

pub struct Engine {
    pub m: Module,
    pub hooks: Vec<H>,
    pub ar: Arena,
    pub so: Solver,
    gbase: Vec<Option<Rc<Obj>>>,
    pub work: Vec<State>,
    pub params: Vec<u64>,
    pub covers: u128,
    pub executed: Vec<bool>,
    pub viols: Vec<Viol>,
    pub js: JobStats,
    pub step_limit: u64,
    pub samples: Vec<String>,
    pub sample_every: u64,
    pub sample_max: usize,
}

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}
fn bad<T>(k: &'static str, s: impl Into<String>) -> R<T> {
    Err(Stop::Bad(k, s.into()))
}

#[inline]
fn m64(w: u16) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}

impl Engine {
    pub fn new(m: Module) -> Engine {
        let hooks = m.fns.iter().map(|f| hook_for(&f.name, f.body.is_some())).collect();
        let ng = m.globals.len();
        let nf = m.fns.len();
        Engine {
            m,
            hooks,
            ar: Arena::new(),
            so: Solver::new(),
            gbase: vec![None; ng],
            work: Vec::new(),
            params: Vec::new(),
            covers: 0,
            executed: vec![false; nf],
            viols: Vec::new(),
            js: JobStats::default(),
            step_limit: 30_000_000,
            samples: Vec::new(),
            sample_every: 64,
            sample_max: 4,
        }
    }

    pub fn start(&mut self, entry: &str) -> Result<State, String> {
        let id = self.m.find_fn(entry).ok_or(format!("no function {}", entry))?;
        let f = self.m.func(id)?;
        self.executed[id as usize] = true;
        let fr = Frame {
            regs: vec![V::C(0); f.nregs],
            f,
            bb: 0,
            ip: 0,
            prev: NONE,
            dst: NONE,
            normal: NONE,
            stack_base: 0,
        };
        let mut heap = Heap::new();
        // heap object 0 is never handed out
        heap.push(Rc::new(Obj {
            freed: true,
            ..Obj::new(0)
        }));
        Ok(State {
            frames: vec![Rc::new(fr)],
            stack: Vec::new(),
            heap,
            globals: Vec::new(),
            pc: Vec::new(),
            model: Rc::new([0; NV]),
            nvars: 0,
            log: Vec::new(),
            obs: Vec::new(),
            steps: 0,
            expect_panic: false,
            time_ns: 1_000_000_000_000,
            depth: 0,
        })
    }

    // ---------------------------------------------------------------- values

    pub fn kv(&mut self, k: &K) -> V {
        match k {
            K::Int(v, w) => {
                if *w <= 64 {
                    V::C(*v as u64)
                } else {
                    V::X(self.ar.konst(*w, *v))
                }
            }
            K::Agg(l) => {
                let v = l.iter().map(|x| self.kv(x)).collect();
                V::A(Rc::new(v))
            }
            K::Bytes(b) => V::A(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect())),
            K::Vec(l) => {
                let parts: Vec<E> = l
                    .iter()
                    .map(|k| match k {
                        K::Int(v, w) => self.ar.konst(*w, *v),
                        K::Zero(t) => self.ar.konst(t.bits(), 0),
                        _ => self.ar.konst(8, 0),
                    })
                    .collect();
                let e = self.ar.concat(&parts);
                self.norm(e)
            }
            K::Zero(t) => self.zero(t),
        }
    }
    fn zero(&mut self, t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => {
                let v = f.iter().map(|t| self.zero(t)).collect();
                V::A(Rc::new(v))
            }
            Ty::Arr(n, t) => {
                let z = self.zero(t);
                V::A(Rc::new(vec![z; *n as usize]))
            }
            t => {
                let w = t.bits();
                if w > 64 {
                    V::X(self.ar.konst(w, 0))
                } else {
                    V::C(0)
                }
            }
        }
    }
    #[inline]
    pub fn norm(&self, e: E) -> V {
        if self.ar.w(e) <= 64 {
            if let Some(v) = self.ar.as_const(e) {
                return V::C(v as u64);
            }
        }
        V::X(e)
    }
    #[inline]
    pub fn ex(&mut self, v: &V, w: u16) -> E {
        match v {
            V::C(c) => self.ar.konst(w, *c as u128),
            V::X(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            V::A(_) => panic!("aggregate as scalar"),
        }
    }
    #[inline]
    fn get(&mut self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(),
            Opd::C(c) => V::C(*c),
            Opd::K(k) => {
                let k = k.clone();
                self.kv(&k)
            }
        }
    }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: V) {
        if r != NONE {
            Rc::make_mut(st.frames.last_mut().unwrap()).regs[r as usize] = v;
        }
    }

    // ---------------------------------------------------------- constraints

    pub fn assume(&mut self, st: &mut State, e: E) {
        if e == self.ar.t {
            return;
        }
        let mut parts = Vec::new();
        self.ar.conj(e, &mut parts);
        if parts.len() > 1 {
            for p in parts {
                self.assume(st, p);
            }
            return;
        }
        if self.ar.vars(e).len() > 1 {
            // nothing new where one of the bytes sees to it already
            let mut ways = Vec::new();
            self.ar.disj(e, &mut ways);
            if ways.len() > 1 {
                for l in ways {
                    if let Some(v) = self.ar.only(l) {
                        let own: Vec<E> = st.pc.iter().cloned().filter(|&c| self.ar.only(c) == Some(v)).collect();
                        if !own.is_empty() && self.so.implied(&mut self.ar, &own, l) {
                            return;
                        }
                    }
                }
            }
        }
        if !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }

    /// Is pc && cond satisfiable?  Some(model) if so.
    pub fn feasible(&mut self, st: &State, cond: E) -> R<Option<Rc<Model>>> {
        if let Some(v) = self.ar.as_const(cond) {
            return Ok(if v == 1 { Some(st.model.clone()) } else { None });
        }
        if self.ar.eval(cond, &st.model[..]) == 1 {
            return Ok(Some(st.model.clone()));
        }
        if st.pc.contains(&cond) {
            return Ok(Some(st.model.clone()));
        }
        let nc = self.ar.not(cond);
        if st.pc.contains(&nc) {
            return Ok(None);
        }
        let mut set = Vars::new();
        for &v in self.ar.vars(cond) {
            set.add(v);
        }
        let mut used = vec![false; st.pc.len()];
        let mut q = Vec::new();
        self.ar.conj(cond, &mut q);
        loop {
            let mut ch = false;
            for (i, &c) in st.pc.iter().enumerate() {
                if !used[i] {
                    let vs = self.ar.vars(c);
                    if vs.iter().any(|&v| set.has(v)) {
                        used[i] = true;
                        q.push(c);
                        for &v in vs {
                            if !set.has(v) {
                                set.add(v);
                                ch = true;
                            }
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        match self.so.check(&mut self.ar, &q) {
            Res::Sat(m) => {
                let mut n = *st.model;
                for &(v, x) in m.iter() {
                    n[v as usize] = x;
                }
                Ok(Some(Rc::new(n)))
            }
            Res::Unsat => Ok(None),
            Res::Unknown => err("solver returned unknown"),
        }
    }

    pub fn concretize(&mut self, st: &mut State, v: &V, w: u16) -> R<u64> {
        let e = match v {
            V::C(c) => return Ok(*c),
            V::X(e) => *e,
            V::A(_) => return err("concretize aggregate"),
        };
        let x = self.ar.eval(e, &st.model[..]) as u64;
        let k = self.ar.konst(w, x as u128);
        let eq = self.ar.bin(Op::Eq, e, k);
        let ne = self.ar.not(eq);
        if let Some(m) = self.feasible(st, ne)? {
            let mut o = st.clone();
            o.model = m;
            self.assume(&mut o, ne);
            o.depth += 1;
            self.js.forks += 1;
            self.work.push(o);
        }
        self.assume(st, eq);
        Ok(x)
    }

    /// Decide a condition, forking a copy of the unmodified state for the other outcome.
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(v) = self.ar.as_const(c) {
            return Ok(v == 1);
        }
        let b = self.ar.eval(c, &st.model[..]) == 1;
        let (pos, neg) = if b { (c, self.ar.not(c)) } else { (self.ar.not(c), c) };
        if let Some(m) = self.feasible(st, neg)? {
            let mut o = st.clone();
            o.model = m;
            self.assume(&mut o, neg);
            o.depth += 1;
            self.js.forks += 1;
            self.work.push(o);
        }
        self.assume(st, pos);
        Ok(b)
    }

    // --------------------------------------------------------------- memory

    fn global(&mut self, id: u32) -> R<Rc<Obj>> {
        if id as usize >= self.gbase.len() {
            return bad("mem", "bad global address");
        }
        if let Some(o) = &self.gbase[id as usize] {
            return Ok(o.clone());
        }
        let img = match self.m.global_image(id) {
            Ok(i) => i,
            Err(e) => return err(format!("global {}: {}", self.m.globals[id as usize].name, e)),
        };
        let o = Rc::new(Obj {
            data: img,
            sym: None,
            freed: false,
            ro: self.m.globals[id as usize].is_const,
        });
        self.gbase[id as usize] = Some(o.clone());
        Ok(o)
    }

    /// object and offset for an access of n bytes
    fn find(&mut self, st: &State, a: u64, n: usize) -> R<(Rc<Obj>, usize)> {
        let id = ((a >> 32) & 0xfff_ffff) as usize;
        let off = (a & 0xffff_ffff) as usize;
        let o = match a >> 60 {
            KIND_STACK => match st.stack.get(id) {
                Some(o) => o.clone(),
                None => return bad("mem", format!("dangling stack access {:x}", a)),
            },
            KIND_HEAP => match st.heap.get(id) {
                Some(o) => o.clone(),
                None => return bad("mem", format!("bad heap access {:x}", a)),
            },
            KIND_GLOBAL => {
                if let Some((_, o)) = st.globals.iter().find(|g| g.0 == id as u32) {
                    o.clone()
                } else {
                    self.global(id as u32)?
                }
            }
            _ => return bad("mem", format!("access through invalid pointer {:x}", a)),
        };
        if o.freed {
            return bad("mem", "use after free");
        }
        if off + n > o.data.len() {
            return bad("mem", format!("out-of-bounds access: offset {} + {} in {} bytes", off, n, o.data.len()));
        }
        Ok((o, off))
    }

    fn find_mut<'s>(&mut self, st: &'s mut State, a: u64, n: usize) -> R<(&'s mut Obj, usize)> {
        let id = ((a >> 32) & 0xfff_ffff) as usize;
        let off = (a & 0xffff_ffff) as usize;
        let o = match a >> 60 {
            KIND_STACK => match st.stack.get_mut(id) {
                Some(o) => o,
                None => return bad("mem", format!("dangling stack access {:x}", a)),
            },
            KIND_HEAP => match st.heap.get_mut(id) {
                Some(o) => o,
                None => return bad("mem", format!("bad heap access {:x}", a)),
            },
            KIND_GLOBAL => {
                let k = match st.globals.iter().position(|g| g.0 == id as u32) {
                    Some(k) => k,
                    None => {
                        let o = self.global(id as u32)?;
                        st.globals.push((id as u32, o));
                        st.globals.len() - 1
                    }
                };
                &mut st.globals[k].1
            }
            _ => return bad("mem", format!("write through invalid pointer {:x}", a)),
        };
        if o.freed {
            return bad("mem", "write after free");
        }
        if o.ro {
            return bad("mem", "write to constant");
        }
        if off + n > o.data.len() {
            return bad("mem", format!("out-of-bounds write: offset {} + {} in {} bytes", off, n, o.data.len()));
        }
        Ok((Rc::make_mut(o), off))
    }

    fn load_int(&mut self, o: &Obj, off: usize, w: u16) -> V {
        let n = ((w + 7) / 8) as usize;
        if !o.is_sym(off, n) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return V::C(u64::from_le_bytes(b) & m64(w));
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            return V::X(self.ar.konst(w, u128::from_le_bytes(b)));
        }
        let mut parts = Vec::with_capacity(n);
        for i in 0..n {
            parts.push(match o.byte(off + i) {
                Ok(b) => self.ar.konst(8, b as u128),
                Err(e) => e,
            });
        }
        let mut e = self.ar.concat(&parts);
        if (w as usize) < n * 8 {
            e = self.ar.trunc(e, w);
        }
        self.norm(e)
    }

    fn load_ty(&mut self, o: &Obj, off: usize, t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => {
                let v = (0..f.len()).map(|i| self.load_ty(o, off + t.field_off(i) as usize, &f[i])).collect();
                V::A(Rc::new(v))
            }
            Ty::Arr(n, e) => {
                let v = (0..*n as usize).map(|i| self.load_ty(o, off + i * e.size() as usize, e)).collect();
                V::A(Rc::new(v))
            }
            t => self.load_int(o, off, t.bits()),
        }
    }

    fn load(&mut self, st: &mut State, a: V, t: &Ty) -> R<V> {
        let a = match a {
            V::C(c) => c,
            V::X(e) => {
                if let Some(v) = self.table_load(st, e, t)? {
                    return Ok(v);
                }
                self.concretize(st, &V::X(e), 64)?
            }
            V::A(_) => return err("load address"),
        };
        let (o, off) = self.find(st, a, t.touched() as usize)?;
        Ok(self.load_ty(&o, off, t))
    }

    /// Load through an address that depends on one input byte only.
    fn table_load(&mut self, st: &mut State, e: E, t: &Ty) -> R<Option<V>> {
        let w = t.bits();
        if w == 0 || w > 64 {
            return Ok(None);
        }
        let var = match self.ar.only(e) {
            Some(v) => v,
            None => return Ok(None),
        };
        let un: Vec<E> = st.pc.iter().cloned().filter(|&c| self.ar.only(c) == Some(var)).collect();
        let mut model = [0u8; NV];
        let mut groups: HashMap<u64, Vec<u8>> = HashMap::new();
        let n = t.touched() as usize;
        for x in 0..=255u8 {
            model[var as usize] = x;
            if un.iter().any(|&c| self.ar.eval(c, &model) == 0) {
                continue;
            }
            let a = self.ar.eval(e, &model) as u64;
            match self.find(st, a, n) {
                Ok((o, off)) => {
                    if o.is_sym(off, n) {
                        return Ok(None);
                    }
                    match self.load_int(&o, off, w) {
                        V::C(c) => groups.entry(c).or_default().push(x),
                        _ => return Ok(None),
                    }
                }
                Err(_) => return Ok(None),
            }
        }
        if groups.is_empty() {
            return Ok(None);
        }
        let mut g: Vec<(u64, Vec<u8>)> = groups.into_iter().collect();
        g.sort_by(|a, b| b.1.len().cmp(&a.1.len()).then(a.0.cmp(&b.0)));
        if g.len() > 64 {
            return Ok(None);
        }
        let v = self.ar.var(var);
        let mut r = self.ar.konst(w, g[0].0 as u128);
        for (val, xs) in &g[1..] {
            let mut c = self.ar.f;
            let mut i = 0;
            while i < xs.len() {
                let mut j = i;
                while j + 1 < xs.len() && xs[j + 1] == xs[j] + 1 {
                    j += 1;
                }
                let d = if i == j {
                    let k = self.ar.konst(8, xs[i] as u128);
                    self.ar.bin(Op::Eq, v, k)
                } else {
                    let lo = self.ar.konst(8, xs[i] as u128);
                    let hi = self.ar.konst(8, xs[j] as u128);
                    let a = self.ar.ule(lo, v);
                    let b = self.ar.ule(v, hi);
                    self.ar.bin(Op::And, a, b)
                };
                c = self.ar.bin(Op::Or, c, d);
                i = j + 1;
            }
            let k = self.ar.konst(w, *val as u128);
            r = self.ar.ite(c, k, r);
        }
        Ok(Some(self.norm(r)))
    }

    fn store_val(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        match t {
            Ty::Struct(f, _) => {
                if let V::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        self.store_val(st, a + t.field_off(i), &f[i], x)?;
                    }
                }
                Ok(())
            }
            Ty::Arr(_, e) => {
                if let V::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        self.store_val(st, a + i as u64 * e.size(), e, x)?;
                    }
                }
                Ok(())
            }
            t => self.store_int(st, a, t.bits(), v),
        }
    }

    fn store_int(&mut self, st: &mut State, a: u64, w: u16, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            V::C(c) => {
                let (o, off) = self.find_mut(st, a, n)?;
                o.set_c(off, &c.to_le_bytes()[..n]);
            }
            V::X(e) => {
                let mut e = *e;
                if (w as usize) < n * 8 {
                    e = self.ar.zext(e, (n * 8) as u16);
                }
                let mut parts = [0 as E; 16];
                for i in 0..n {
                    parts[i] = self.ar.extract(e, (i * 8) as u16, 8);
                }
                let cs: Vec<Option<u128>> = parts[..n].iter().map(|&p| self.ar.as_const(p)).collect();
                let (o, off) = self.find_mut(st, a, n)?;
                for i in 0..n {
                    match cs[i] {
                        Some(c) => o.set_c(off + i, &[c as u8]),
                        None => o.set_sym(off + i, parts[i]),
                    }
                }
            }
            V::A(_) => return err("store aggregate as int"),
        }
        Ok(())
    }

    fn alloc(&mut self, st: &mut State, n: u64) -> R<u64> {
        if n > 64 << 20 {
            return err(format!("allocation of {} bytes", n));
        }
        let id = st.heap.push(Rc::new(Obj::new(n as usize)));
        Ok(addr(KIND_HEAP, id as u64))
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (so, soff) = self.find(st, s, n)?;
        let (o, off) = self.find_mut(st, d, n)?;
        // `so` keeps the source alive, so overlapping moves are fine
        o.data[off..off + n].copy_from_slice(&so.data[soff..soff + n]);
        if so.is_sym(soff, n) {
            let src = &so.sym.as_ref().unwrap()[soff..soff + n];
            let len = o.data.len();
            let dst = o.sym.get_or_insert_with(|| vec![0; len]);
            dst[off..off + n].copy_from_slice(src);
        } else if let Some(y) = &mut o.sym {
            for e in &mut y[off..off + n] {
                *e = 0;
            }
        }
        Ok(())
    }

    fn byte_e(&mut self, o: &Obj, off: usize) -> E {
        match o.byte(off) {
            Ok(b) => self.ar.konst(8, b as u128),
            Err(e) => e,
        }
    }

    // ------------------------------------------------------------- reporting

    pub fn inputs(&mut self, st: &State) -> String {
        let mut s = Vec::new();
        for i in &st.log {
            match i {
                Inp::Bytes(v, n) => {
                    let h: String = (*v..*v + *n).map(|k| format!("{:02x}", st.model[k as usize])).collect();
                    s.push(format!("b:{}", h));
                }
                Inp::Choice(c) => s.push(format!("c:{}", c)),
            }
        }
        s.join(",")
    }

    fn obs_hash(&mut self, st: &State) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        for v in &st.obs {
            let x = match v {
                V::C(c) => *c,
                V::X(e) => self.ar.eval(*e, &st.model[..]) as u64,
                _ => 0,
            };
            for b in x.to_le_bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        }
        h
    }

    fn stack_names(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| f.f.name.clone()).collect()
    }

    fn violation(&mut self, st: &State, kind: &str, msg: String) {
        let inputs = self.inputs(st);
        let stack = self.stack_names(st);
        self.viols.push(Viol {
            kind: kind.to_string(),
            msg,
            inputs,
            stack,
        });
    }

    fn sample(&mut self, st: &State, outcome: &str) {
        if self.samples.len() < self.sample_max && self.js.paths % self.sample_every == 1 {
            let i = self.inputs(st);
            let h = self.obs_hash(st);
            self.samples.push(format!("{} {} {:016x}", i, outcome, h));
        }
    }

    fn panic_loc(&mut self, st: &State, args: &[V]) -> String {
        for v in args.iter().rev() {
            if let V::C(a) = v {
                if a >> 60 != KIND_GLOBAL {
                    continue;
                }
                if let Ok((o, off)) = self.find(st, *a, 24) {
                    let rd = |p: usize, n: usize| -> u64 {
                        let mut b = [0u8; 8];
                        b[..n].copy_from_slice(&o.data[off + p..off + p + n]);
                        u64::from_le_bytes(b)
                    };
                    let (p, l, line, col) = (rd(0, 8), rd(8, 8), rd(16, 4), rd(20, 4));
                    if l > 1 && l < 512 && line > 0 && line < 1_000_000 && col < 100_000 {
                        if let Ok((f, fo)) = self.find(st, p, l as usize - 1) {
                            let e = (fo + l as usize).min(f.data.len());
                            let name = String::from_utf8_lossy(&f.data[fo..e]).trim_end_matches('\0').to_string();
                            if name.ends_with(".rs") {
                                return format!("{}:{}:{}", name, line, col);
                            }
                        }
                    }
                }
            }
        }
        "?".into()
    }

    // -------------------------------------------------------------- running

    /// Run one state to its end (forked states go to the work list).
    pub fn run_path(&mut self, mut st: State, stop: &mut dyn FnMut(&mut Engine) -> bool) -> bool {
        loop {
            let mut n = 20000u32;
            let r = loop {
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(s) => break Some(s),
                }
                n -= 1;
                if n == 0 {
                    break None;
                }
            };
            match r {
                None => {
                    if st.steps > self.step_limit {
                        self.js.paths += 1;
                        self.violation(&st, "hang", format!("no result after {} instructions", st.steps));
                        break;
                    }
                    if stop(self) {
                        self.work.push(st);
                        return false;
                    }
                    continue;
                }
                Some(s) => {
                    match s {
                        Stop::Done => {
                            self.js.paths += 1;
                            if st.expect_panic {
                                self.violation(&st, "nopanic", "expected a panic".into());
                            } else {
                                self.sample(&st, "ok");
                            }
                        }
                        Stop::Assumed => self.js.assumed += 1,
                        Stop::Bad(k, m) => {
                            self.js.paths += 1;
                            if k == "panic" && st.expect_panic {
                                self.js.expected_panics += 1;
                                self.sample(&st, "panic");
                            } else {
                                self.violation(&st, k, m);
                            }
                        }
                        Stop::Err(m) => {
                            let names = self.stack_names(&st);
                            self.js.errors.push(format!("{} in {:?}", m, names));
                        }
                    }
                    break;
                }
            }
        }
        self.js.steps += st.steps;
        self.js.max_steps = self.js.max_steps.max(st.steps);
        self.js.max_pc = self.js.max_pc.max(st.pc.len() as u64);
        true
    }

    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let (f, cur) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.bb)
        };
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut vals = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                match inc.iter().find(|(l, _)| *l == cur) {
                    Some((_, o)) => {
                        let v = self.get(st, o);
                        vals.push((*d, v));
                    }
                    None => return err("phi without predecessor"),
                }
            }
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        fr.prev = cur;
        fr.bb = b;
        fr.ip = 0;
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: Option<V>) -> R<()> {
        let fr = st.frames.pop().unwrap();
        st.stack.truncate(fr.stack_base as usize);
        if st.frames.is_empty() {
            return Err(Stop::Done);
        }
        if let Some(v) = v {
            self.set(st, fr.dst, v);
        }
        self.after_call(st, fr.normal)
    }

    fn after_call(&mut self, st: &mut State, normal: u32) -> R<()> {
        if normal == NONE {
            Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            Ok(())
        } else {
            self.goto(st, normal)
        }
    }

    fn bin1(&mut self, op: B, x: &V, y: &V, w: u16) -> R<V> {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let m = m64(w);
            let r = match op {
                B::Add => a.wrapping_add(b),
                B::Sub => a.wrapping_sub(b),
                B::Mul => a.wrapping_mul(b),
                B::And => a & b,
                B::Or => a | b,
                B::Xor => a ^ b,
                B::Shl => {
                    if b >= w as u64 {
                        0
                    } else {
                        a << b
                    }
                }
                B::LShr => {
                    if b >= w as u64 {
                        0
                    } else {
                        a >> b
                    }
                }
                B::UDiv => {
                    if b == 0 {
                        return bad("mem", "division by zero");
                    }
                    a / b
                }
                B::URem => {
                    if b == 0 {
                        return bad("mem", "division by zero");
                    }
                    a % b
                }
                B::SDiv | B::SRem | B::AShr => {
                    if b == 0 && op != B::AShr {
                        return bad("mem", "division by zero");
                    }
                    let o = match op {
                        B::SDiv => Op::SDiv,
                        B::SRem => Op::SRem,
                        _ => Op::AShr,
                    };
                    fold(o, w, a as u128, b as u128) as u64
                }
            };
            return Ok(V::C(r & m));
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let o = match op {
            B::Add => Op::Add,
            B::Sub => Op::Sub,
            B::Mul => Op::Mul,
            B::And => Op::And,
            B::Or => Op::Or,
            B::Xor => Op::Xor,
            B::Shl => Op::Shl,
            B::LShr => Op::LShr,
            B::AShr => Op::AShr,
            B::UDiv => Op::UDiv,
            B::URem => Op::URem,
            B::SDiv => Op::SDiv,
            B::SRem => Op::SRem,
        };
        let e = self.ar.bin(o, a, b);
        Ok(self.norm(e))
    }

    fn cmp1(&mut self, p: Pred, x: &V, y: &V, w: u16) -> V {
        if let (V::C(a), V::C(b)) = (x, y) {
            let (a, b) = (*a, *b);
            let (sa, sb) = (sext128(a as u128, w), sext128(b as u128, w));
            let r = match p {
                Pred::Eq => a == b,
                Pred::Ne => a != b,
                Pred::Ult => a < b,
                Pred::Ule => a <= b,
                Pred::Ugt => a > b,
                Pred::Uge => a >= b,
                Pred::Slt => sa < sb,
                Pred::Sle => sa <= sb,
                Pred::Sgt => sa > sb,
                Pred::Sge => sa >= sb,
            };
            return V::C(r as u64);
        }
        let (a, b) = (self.ex(x, w), self.ex(y, w));
        let ar = &mut self.ar;
        let e = match p {
            Pred::Eq => ar.bin(Op::Eq, a, b),
            Pred::Ne => {
                let e = ar.bin(Op::Eq, a, b);
                ar.not(e)
            }
            Pred::Ult => ar.bin(Op::Ult, a, b),
            Pred::Ugt => ar.bin(Op::Ult, b, a),
            Pred::Ule => ar.ule(a, b),
            Pred::Uge => ar.ule(b, a),
            Pred::Slt => ar.bin(Op::Slt, a, b),
            Pred::Sgt => ar.bin(Op::Slt, b, a),
            Pred::Sle => ar.sle(a, b),
            Pred::Sge => ar.sle(b, a),
        };
        self.norm(e)
    }

    fn lanes(&mut self, v: &V, w: u16, n: u32) -> Vec<V> {
        let e = self.ex(v, w * n as u16);
        (0..n)
            .map(|i| {
                let x = self.ar.extract(e, i as u16 * w, w);
                self.norm(x)
            })
            .collect()
    }
    fn unlanes(&mut self, l: &[V], w: u16) -> V {
        let p: Vec<E> = l.iter().map(|v| self.ex(v, w)).collect();
        let e = self.ar.concat(&p);
        self.norm(e)
    }

    fn cast1(&mut self, k: Cast, v: &V, w: u16, w2: u16) -> V {
        match (k, v) {
            (Cast::Zext, V::C(c)) if w2 <= 64 => V::C(*c),
            (Cast::Trunc, V::C(c)) => V::C(c & m64(w2)),
            (Cast::Sext, V::C(c)) if w2 <= 64 => V::C((sext128(*c as u128, w) as u64) & m64(w2)),
            _ => {
                let e = self.ex(v, w);
                let e = match k {
                    Cast::Zext => self.ar.zext(e, w2),
                    Cast::Sext => self.ar.sext(e, w2),
                    Cast::Trunc => self.ar.trunc(e, w2),
                    Cast::Bit => e,
                };
                self.norm(e)
            }
        }
    }

    fn ite_val(&mut self, c: E, a: &V, b: &V, t: &Ty) -> R<V> {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let mut out = Vec::new();
                for i in 0..x.len() {
                    out.push(self.ite_val(c, &x[i], &y[i], t.elem(i))?);
                }
                Ok(V::A(Rc::new(out)))
            }
            (V::C(x), V::C(y)) if x == y => Ok(V::C(*x)),
            _ => {
                let w = t.bits();
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.ar.ite(c, x, y);
                Ok(self.norm(e))
            }
        }
    }

    pub fn step(&mut self, st: &mut State) -> R<()> {
        st.steps += 1;
        let (f, bb, ip) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.bb as usize, fr.ip as usize)
        };
        let ins = match f.blocks[bb].ins.get(ip) {
            Some(i) => i,
            None => return err("fell off block"),
        };
        macro_rules! done {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                if $d != NONE {
                    fr.regs[$d as usize] = v;
                }
                fr.ip += 1;
                Ok(())
            }};
        }
        match ins {
            I::Bin(op, d, x, y, w, l) => {
                let (a, b) = (self.get(st, x), self.get(st, y));
                let v = if *l == 1 {
                    if matches!(op, B::UDiv | B::URem | B::SDiv | B::SRem) {
                        if let V::X(e) = b {
                            let z = self.ar.konst(*w, 0);
                            let c = self.ar.bin(Op::Eq, e, z);
                            if self.branch(st, c)? {
                                return bad("mem", "division by zero");
                            }
                        }
                    }
                    self.bin1(*op, &a, &b, *w)?
                } else {
                    let (la, lb) = (self.lanes(&a, *w, *l), self.lanes(&b, *w, *l));
                    let mut o = Vec::new();
                    for i in 0..*l as usize {
                        o.push(self.bin1(*op, &la[i], &lb[i], *w)?);
                    }
                    self.unlanes(&o, *w)
                };
                done!(*d, v)
            }
            I::Icmp(p, d, x, y, w, l) => {
                let (a, b) = (self.get(st, x), self.get(st, y));
                let v = if *l == 1 {
                    self.cmp1(*p, &a, &b, *w)
                } else {
                    let (la, lb) = (self.lanes(&a, *w, *l), self.lanes(&b, *w, *l));
                    let mut o = Vec::new();
                    for i in 0..*l as usize {
                        o.push(self.cmp1(*p, &la[i], &lb[i], *w));
                    }
                    self.unlanes(&o, 1)
                };
                done!(*d, v)
            }
            I::Load(d, t, p) => {
                let a = self.get(st, p);
                let v = self.load(st, a, t)?;
                done!(*d, v)
            }
            I::Store(t, v, p) => {
                let a = self.get(st, p);
                let v = self.get(st, v);
                let a = self.concretize(st, &a, 64)?;
                self.store_val(st, a, t, &v)?;
                done!(NONE, V::C(0))
            }
            I::Gep(d, b, off, dynv) => {
                let base = self.get(st, b);
                let mut c = *off;
                let mut sym: Option<E> = None;
                match base {
                    V::C(x) => c = c.wrapping_add(x),
                    V::X(e) => sym = Some(e),
                    _ => return err("gep base"),
                }
                for (o, sc, w) in dynv {
                    match self.get(st, o) {
                        V::C(v) => {
                            let v = sext128(v as u128, *w) as u64;
                            c = c.wrapping_add(v.wrapping_mul(*sc));
                        }
                        V::X(e) => {
                            let e = self.ar.sext(e, 64);
                            let k = self.ar.konst(64, *sc as u128);
                            let m = self.ar.bin(Op::Mul, e, k);
                            sym = Some(match sym {
                                None => m,
                                Some(s) => self.ar.bin(Op::Add, s, m),
                            });
                        }
                        _ => return err("gep index"),
                    }
                }
                let v = match sym {
                    None => V::C(c),
                    Some(s) => {
                        let k = self.ar.konst(64, c as u128);
                        let e = self.ar.bin(Op::Add, s, k);
                        self.norm(e)
                    }
                };
                done!(*d, v)
            }
            I::Cast(k, d, x, w, w2, l) => {
                let a = self.get(st, x);
                let v = if *l == 1 {
                    if let V::A(_) = a {
                        return err("cast aggregate");
                    }
                    self.cast1(*k, &a, *w, *w2)
                } else {
                    let la = self.lanes(&a, *w, *l);
                    let o: Vec<V> = la.iter().map(|x| self.cast1(*k, x, *w, *w2)).collect();
                    self.unlanes(&o, *w2)
                };
                done!(*d, v)
            }
            I::Select(d, c, a, b, t, l) => {
                let c = self.get(st, c);
                let v = if *l == 1 {
                    match c {
                        V::C(1) => self.get(st, a),
                        V::C(_) => self.get(st, b),
                        V::X(e) => {
                            let (x, y) = (self.get(st, a), self.get(st, b));
                            // addresses and lengths are better kept apart than merged
                            let part = match (t, &x, &y) {
                                (Ty::Ptr, V::C(m), V::C(n)) => m != n,
                                (Ty::Ptr, _, _) => true,
                                (Ty::Int(64), V::C(m), V::C(n)) => m != n,
                                _ => false,
                            };
                            if part {
                                if self.branch(st, e)? { x } else { y }
                            } else {
                                self.ite_val(e, &x, &y, t)?
                            }
                        }
                        _ => return err("select"),
                    }
                } else {
                    let et = t.elem(0).clone();
                    let w = et.bits();
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (lc, lx, ly) = (self.lanes(&c, 1, *l), self.lanes(&x, w, *l), self.lanes(&y, w, *l));
                    let mut o = Vec::new();
                    for i in 0..*l as usize {
                        let ce = self.ex(&lc[i], 1);
                        o.push(self.ite_val(ce, &lx[i], &ly[i], &et)?);
                    }
                    self.unlanes(&o, w)
                };
                done!(*d, v)
            }
            I::Br(b) => self.goto(st, *b),
            I::CondBr(c, a, b) => {
                let c = self.get(st, c);
                match c {
                    V::C(1) => self.goto(st, *a),
                    V::C(_) => self.goto(st, *b),
                    V::X(e) => {
                        let t = self.branch(st, e)?;
                        self.goto(st, if t { *a } else { *b })
                    }
                    _ => err("br"),
                }
            }
            I::Switch(v, w, dflt, cases) => {
                let v = self.get(st, v);
                match v {
                    V::C(x) => {
                        let t = cases.iter().find(|(k, _)| *k as u64 == x).map(|c| c.1).unwrap_or(*dflt);
                        self.goto(st, t)
                    }
                    V::X(e) => {
                        let x = self.ar.eval(e, &st.model[..]);
                        let t0 = cases.iter().find(|(k, _)| *k == x).map(|c| c.1).unwrap_or(*dflt);
                        let mut groups: Vec<(u32, E)> = Vec::new();
                        let mut any = self.ar.f;
                        for (k, t) in cases {
                            let k = self.ar.konst(*w, *k);
                            let c = self.ar.bin(Op::Eq, e, k);
                            any = self.ar.bin(Op::Or, any, c);
                            if *t == *dflt {
                                continue;
                            }
                            match groups.iter_mut().find(|g| g.0 == *t) {
                                Some(g) => g.1 = self.ar.bin(Op::Or, g.1, c),
                                None => groups.push((*t, c)),
                            }
                        }
                        let mut dc = self.ar.not(any);
                        for (k, t) in cases {
                            if *t == *dflt {
                                let k = self.ar.konst(*w, *k);
                                let c = self.ar.bin(Op::Eq, e, k);
                                dc = self.ar.bin(Op::Or, dc, c);
                            }
                        }
                        groups.push((*dflt, dc));
                        let mut mine = None;
                        for (t, c) in groups {
                            if t == t0 {
                                mine = Some(c);
                                continue;
                            }
                            if let Some(m) = self.feasible(st, c)? {
                                let mut o = st.clone();
                                o.model = m;
                                self.assume(&mut o, c);
                                o.depth += 1;
                                self.goto(&mut o, t)?;
                                self.js.forks += 1;
                                self.work.push(o);
                            }
                        }
                        self.assume(st, mine.unwrap());
                        self.goto(st, t0)
                    }
                    _ => err("switch"),
                }
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, o));
                self.ret(st, v)
            }
            I::Unreachable => bad("ub", format!("reached `unreachable` in {}", f.name)),
            I::Call(d, c, args, rt, normal) => {
                let id = match c {
                    Callee::Fn(i) => *i,
                    Callee::Ind(o) => {
                        let a = self.get(st, o);
                        let a = self.concretize(st, &a, 64)?;
                        if a >> 60 != KIND_FN {
                            return bad("mem", format!("call through {:x}", a));
                        }
                        ((a >> 32) & 0xfff_ffff) as u32
                    }
                    Callee::Asm => {
                        if *rt == Ty::Void {
                            return done!(NONE, V::C(0));
                        }
                        return err("inline asm");
                    }
                };
                let h = self.hooks[id as usize];
                let mut av: Vec<V> = Vec::with_capacity(args.len());
                for (o, _) in args {
                    let v = self.get(st, o);
                    av.push(v);
                }
                if h != H::None {
                    return self.hook(st, h, id, *d, &av, args, rt, *normal);
                }
                if self.m.fns[id as usize].body.is_none() {
                    return err(format!("call to external {}", self.m.fns[id as usize].name));
                }
                let g = match self.m.func(id) {
                    Ok(g) => g,
                    Err(e) => return err(e),
                };
                self.executed[id as usize] = true;
                if st.frames.len() > 2000 {
                    return bad("hang", "stack depth");
                }
                let mut regs = vec![V::C(0); g.nregs];
                for (i, p) in g.params.iter().enumerate() {
                    if let Some(v) = av.get(i) {
                        regs[*p as usize] = v.clone();
                    }
                }
                let sb = st.stack.len() as u32;
                st.frames.push(Rc::new(Frame {
                    f: g,
                    regs,
                    bb: 0,
                    ip: 0,
                    prev: NONE,
                    dst: *d,
                    normal: *normal,
                    stack_base: sb,
                }));
                Ok(())
            }
            I::Extract(d, a, ix) => {
                let mut v = self.get(st, a);
                for i in ix {
                    v = match &v {
                        V::A(l) => l[*i].clone(),
                        _ => return err("extractvalue"),
                    };
                }
                done!(*d, v)
            }
            I::Insert(d, a, b, ix) => {
                let v = self.get(st, a);
                let x = self.get(st, b);
                fn ins(v: &V, x: V, ix: &[usize]) -> Option<V> {
                    if ix.is_empty() {
                        return Some(x);
                    }
                    match v {
                        V::A(l) => {
                            let mut n = (**l).clone();
                            n[ix[0]] = ins(&l[ix[0]], x, &ix[1..])?;
                            Some(V::A(Rc::new(n)))
                        }
                        _ => None,
                    }
                }
                match ins(&v, x, ix) {
                    Some(v) => done!(*d, v),
                    None => err("insertvalue"),
                }
            }
            I::Alloca(d, sz, n) => {
                let n = self.get(st, n);
                let n = self.concretize(st, &n, 64)?;
                let id = st.stack.len() as u64;
                st.stack.push(Rc::new(Obj::new((sz * n) as usize)));
                done!(*d, V::C(addr(KIND_STACK, id)))
            }
            I::Rmw(op, d, p, v, w) => {
                let a = self.get(st, p);
                let x = self.get(st, v);
                let a = self.concretize(st, &a, 64)?;
                let (o, off) = self.find(st, a, ((*w + 7) / 8) as usize)?;
                let old = self.load_int(&o, off, *w);
                drop(o);
                let nv = match op {
                    Rmw::Xchg => x,
                    Rmw::Add => self.bin1(B::Add, &old, &x, *w)?,
                    Rmw::Sub => self.bin1(B::Sub, &old, &x, *w)?,
                    Rmw::And => self.bin1(B::And, &old, &x, *w)?,
                    Rmw::Or => self.bin1(B::Or, &old, &x, *w)?,
                    Rmw::Xor => self.bin1(B::Xor, &old, &x, *w)?,
                    _ => return err("atomicrmw min/max"),
                };
                self.store_int(st, a, *w, &nv)?;
                done!(*d, old)
            }
            I::CmpXchg(d, p, a, b, w) => {
                let ad = self.get(st, p);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let ad = self.concretize(st, &ad, 64)?;
                let (o, off) = self.find(st, ad, ((*w + 7) / 8) as usize)?;
                let old = self.load_int(&o, off, *w);
                drop(o);
                let c = self.cmp1(Pred::Eq, &old, &x, *w);
                let ok = match c {
                    V::C(v) => v == 1,
                    V::X(e) => self.branch(st, e)?,
                    _ => false,
                };
                if ok {
                    self.store_int(st, ad, *w, &y)?;
                }
                done!(*d, V::A(Rc::new(vec![old, V::C(ok as u64)])))
            }
            I::Nop => done!(NONE, V::C(0)),
            I::Mov(d, o) => {
                let v = self.get(st, o);
                done!(*d, v)
            }
            I::ExtractEl(d, v, ix, w, l) => {
                let v = self.get(st, v);
                let ix = self.get(st, ix);
                let i = self.concretize(st, &ix, 64)?;
                let la = self.lanes(&v, *w, *l);
                let r = la[i as usize].clone();
                done!(*d, r)
            }
            I::InsertEl(d, v, x, ix, w, l) => {
                let v = self.get(st, v);
                let x = self.get(st, x);
                let ix = self.get(st, ix);
                let i = self.concretize(st, &ix, 64)?;
                let mut la = self.lanes(&v, *w, *l);
                la[i as usize] = x;
                let r = self.unlanes(&la, *w);
                done!(*d, r)
            }
            I::Shuffle(d, a, b, m, w, l) => {
                let (a, b) = (self.get(st, a), self.get(st, b));
                let mut la = self.lanes(&a, *w, *l);
                la.extend(self.lanes(&b, *w, *l));
                let o: Vec<V> = m.iter().map(|i| la[*i as usize].clone()).collect();
                let r = self.unlanes(&o, *w);
                done!(*d, r)
            }
            I::Bad(m) => err(m.clone()),
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn hook(
        &mut self,
        st: &mut State,
        h: H,
        id: u32,
        d: u32,
        a: &[V],
        args: &[(Opd, u16)],
        rt: &Ty,
        normal: u32,
    ) -> R<()> {
        let mut r: Option<V> = None;
        let w = rt.bits();
        match h {
            H::None => unreachable!(),
            H::Panic => {
                let loc = self.panic_loc(st, a);
                return bad("panic", loc);
            }
            H::Abort => return bad("panic", format!("abort via {}", self.m.fns[id as usize].name)),
            H::Malloc => {
                let n = self.concretize(st, &a[0], 64)?;
                r = Some(V::C(self.alloc(st, n)?));
            }
            H::Calloc => {
                let n = self.concretize(st, &a[0], 64)?;
                let k = self.concretize(st, &a[1], 64)?;
                r = Some(V::C(self.alloc(st, n.saturating_mul(k))?));
            }
            H::PosixMemalign => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[2], 64)?;
                let x = self.alloc(st, n)?;
                self.store_int(st, p, 64, &V::C(x))?;
                r = Some(V::C(0));
            }
            H::Realloc => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)?;
                let x = self.alloc(st, n)?;
                if p != 0 {
                    let (o, off) = self.find(st, p, 0)?;
                    if off != 0 {
                        return bad("mem", "realloc of interior pointer");
                    }
                    let k = o.data.len().min(n as usize);
                    drop(o);
                    self.copy(st, x, p, k)?;
                    self.free(st, p)?;
                }
                r = Some(V::C(x));
            }
            H::Free => {
                let p = self.concretize(st, &a[0], 64)?;
                if p != 0 {
                    self.free(st, p)?;
                }
            }
            H::Memcpy => {
                let dd = self.concretize(st, &a[0], 64)?;
                let s = self.concretize(st, &a[1], 64)?;
                let n = self.concretize(st, &a[2], args[2].1)?;
                self.copy(st, dd, s, n as usize)?;
                if *rt != Ty::Void {
                    r = Some(V::C(dd));
                }
            }
            H::Memset => {
                let dd = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[2], args[2].1)? as usize;
                let v = if args[1].1 > 8 { self.cast1(Cast::Trunc, &a[1], args[1].1, 8) } else { a[1].clone() };
                if n > 0 {
                    let (o, off) = self.find_mut(st, dd, n)?;
                    match v {
                        V::C(c) => {
                            for b in &mut o.data[off..off + n] {
                                *b = c as u8;
                            }
                            if let Some(s) = &mut o.sym {
                                for e in &mut s[off..off + n] {
                                    *e = 0;
                                }
                            }
                        }
                        V::X(e) => {
                            for i in 0..n {
                                o.set_sym(off + i, e);
                            }
                        }
                        _ => return err("memset"),
                    }
                }
                if *rt != Ty::Void {
                    r = Some(V::C(dd));
                }
            }
            H::Bcmp | H::Memcmp => {
                let p = self.concretize(st, &a[0], 64)?;
                let q = self.concretize(st, &a[1], 64)?;
                let n = self.concretize(st, &a[2], 64)? as usize;
                if n == 0 {
                    r = Some(V::C(0));
                } else {
                    let (x, xo) = self.find(st, p, n)?;
                    let (y, yo) = self.find(st, q, n)?;
                    if !x.is_sym(xo, n) && !y.is_sym(yo, n) {
                        let c = x.data[xo..xo + n].cmp(&y.data[yo..yo + n]) as i32;
                        r = Some(V::C(c as u32 as u64));
                    } else if h == H::Bcmp {
                        let mut eq = self.ar.t;
                        for i in 0..n {
                            let (b, c) = (self.byte_e(&x, xo + i), self.byte_e(&y, yo + i));
                            let e = self.ar.bin(Op::Eq, b, c);
                            eq = self.ar.bin(Op::And, eq, e);
                        }
                        let z = self.ar.konst(32, 0);
                        let o = self.ar.konst(32, 1);
                        let e = self.ar.ite(eq, z, o);
                        r = Some(self.norm(e));
                    } else {
                        let mut e = self.ar.konst(32, 0);
                        for i in (0..n).rev() {
                            let (b, c) = (self.byte_e(&x, xo + i), self.byte_e(&y, yo + i));
                            let q = self.ar.bin(Op::Eq, b, c);
                            let lt = self.ar.bin(Op::Ult, b, c);
                            let m = self.ar.konst(32, 0xffff_ffff);
                            let o = self.ar.konst(32, 1);
                            let dv = self.ar.ite(lt, m, o);
                            e = self.ar.ite(q, e, dv);
                        }
                        r = Some(self.norm(e));
                    }
                }
            }
            H::Memchr | H::Memrchr => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[2], 64)? as usize;
                let c = self.cast1(Cast::Trunc, &a[1], 32, 8);
                let c = self.ex(&c, 8);
                // where it is found decides lengths: one path for each place, unless
                // it is asked whether an unknown byte is one of a set
                let mut e = V::C(0);
                if n > 0 {
                    let (o, off) = self.find(st, p, n)?;
                    let order: Vec<usize> = if h == H::Memchr { (0..n).collect() } else { (0..n).rev().collect() };
                    if self.ar.as_const(c).is_none() && !o.is_sym(off, n) {
                        let mut x = self.ar.konst(64, 0);
                        for i in order.into_iter().rev() {
                            let b = self.byte_e(&o, off + i);
                            let q = self.ar.bin(Op::Eq, b, c);
                            let k = self.ar.konst(64, (p + i as u64) as u128);
                            x = self.ar.ite(q, k, x);
                        }
                        e = self.norm(x);
                    } else {
                        for i in order {
                            let b = self.byte_e(&o, off + i);
                            let q = self.ar.bin(Op::Eq, b, c);
                            if self.branch(st, q)? {
                                e = V::C(p + i as u64);
                                break;
                            }
                        }
                    }
                }
                r = Some(e);
            }
            H::Strlen => {
                let p = self.concretize(st, &a[0], 64)?;
                let mut n = 0;
                loop {
                    let (o, off) = self.find(st, p + n, 1)?;
                    match o.byte(off) {
                        Ok(0) => break,
                        Ok(_) => n += 1,
                        Err(_) => return err("strlen of symbolic data"),
                    }
                }
                r = Some(V::C(n));
            }
            H::HashOne => r = Some(V::C(0)),
            H::RandomKeys => match rt {
                Ty::Struct(..) => r = Some(V::A(Rc::new(vec![V::C(0x1234), V::C(0x5678)]))),
                Ty::Void => {
                    let p = self.concretize(st, &a[0], 64)?;
                    self.store_int(st, p, 64, &V::C(0x1234))?;
                    self.store_int(st, p + 8, 64, &V::C(0x5678))?;
                }
                _ => r = Some(V::X(self.ar.konst(128, 0x1234))),
            },
            H::Ret0 => {
                if *rt != Ty::Void {
                    r = Some(V::C(0));
                }
            }
            H::RetArg0 | H::Expect => r = Some(a[0].clone()),
            H::Assume => {}
            H::IsConstant => r = Some(V::C(0)),
            H::Umax | H::Umin | H::Smax | H::Smin => {
                let p = match h {
                    H::Umax => Pred::Ugt,
                    H::Umin => Pred::Ult,
                    H::Smax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let (ew, n) = match rt {
                    Ty::Vec(n, t) => (t.bits(), *n),
                    t => (t.bits(), 1),
                };
                let (la, lb) = if n == 1 {
                    (vec![a[0].clone()], vec![a[1].clone()])
                } else {
                    (self.lanes(&a[0], ew, n), self.lanes(&a[1], ew, n))
                };
                let mut o = Vec::new();
                for i in 0..n as usize {
                    let c = self.cmp1(p, &la[i], &lb[i], ew);
                    let v = match c {
                        V::C(1) => la[i].clone(),
                        V::C(_) => lb[i].clone(),
                        V::X(e) => self.ite_val(e, &la[i], &lb[i], &Ty::Int(ew))?,
                        _ => return err("minmax"),
                    };
                    o.push(v);
                }
                r = Some(if n == 1 { o.pop().unwrap() } else { self.unlanes(&o, ew) });
            }
            H::Ctlz | H::Cttz | H::Ctpop | H::Bswap | H::BitReverse | H::Abs => {
                r = Some(self.bitop(h, &a[0], w)?);
            }
            H::Fshl | H::Fshr => {
                let hi = self.ex(&a[0], w);
                let lo = self.ex(&a[1], w);
                let n = match &a[2] {
                    V::C(c) => (*c % w as u64) as u16,
                    v => {
                        let c = self.concretize(st, v, w)?;
                        (c % w as u64) as u16
                    }
                };
                let cat = self.ar.concat(&[lo, hi]);
                let e = if h == H::Fshl {
                    self.ar.extract(cat, w - n, w)
                } else {
                    self.ar.extract(cat, n, w)
                };
                r = Some(self.norm(e));
            }
            H::UaddSat => {
                let s = self.bin1(B::Add, &a[0], &a[1], w)?;
                let c = self.cmp1(Pred::Ult, &s, &a[0], w);
                let m = V::C(m64(w));
                let ce = self.ex(&c, 1);
                r = Some(self.ite_val(ce, &m, &s, rt)?);
            }
            H::UsubSat => {
                let s = self.bin1(B::Sub, &a[0], &a[1], w)?;
                let c = self.cmp1(Pred::Ult, &a[0], &a[1], w);
                let ce = self.ex(&c, 1);
                r = Some(self.ite_val(ce, &V::C(0), &s, rt)?);
            }
            H::UaddO | H::UsubO | H::UmulO | H::SaddO | H::SsubO | H::SmulO => {
                let w = rt.elem(0).bits();
                let (s, o) = match h {
                    H::UaddO => {
                        let s = self.bin1(B::Add, &a[0], &a[1], w)?;
                        let o = self.cmp1(Pred::Ult, &s, &a[0], w);
                        (s, o)
                    }
                    H::UsubO => {
                        let s = self.bin1(B::Sub, &a[0], &a[1], w)?;
                        let o = self.cmp1(Pred::Ult, &a[0], &a[1], w);
                        (s, o)
                    }
                    _ => {
                        let x = self.ex(&a[0], w);
                        let y = self.ex(&a[1], w);
                        let signed = h != H::UmulO;
                        let (x2, y2) = if signed {
                            (self.ar.sext(x, w * 2), self.ar.sext(y, w * 2))
                        } else {
                            (self.ar.zext(x, w * 2), self.ar.zext(y, w * 2))
                        };
                        let op = match h {
                            H::SaddO => Op::Add,
                            H::SsubO => Op::Sub,
                            _ => Op::Mul,
                        };
                        let p = self.ar.bin(op, x2, y2);
                        let s = self.ar.trunc(p, w);
                        let back = if signed { self.ar.sext(s, w * 2) } else { self.ar.zext(s, w * 2) };
                        let e = self.ar.bin(Op::Eq, back, p);
                        let o = self.ar.not(e);
                        (self.norm(s), self.norm(o))
                    }
                };
                r = Some(V::A(Rc::new(vec![s, o])));
            }
            H::Ucmp | H::Scmp => {
                let aw = args[0].1;
                let lt = self.cmp1(if h == H::Ucmp { Pred::Ult } else { Pred::Slt }, &a[0], &a[1], aw);
                let eq = self.cmp1(Pred::Eq, &a[0], &a[1], aw);
                let (l, e) = (self.ex(&lt, 1), self.ex(&eq, 1));
                let one = self.ar.konst(w, 1);
                let zero = self.ar.konst(w, 0);
                let neg = self.ar.konst(w, mask(w));
                let x = self.ar.ite(e, zero, one);
                let x = self.ar.ite(l, neg, x);
                r = Some(self.norm(x));
            }
            H::VecReduceOr | H::VecReduceAnd => {
                let aw = args[0].1;
                let n = (aw / w) as u32;
                let l = self.lanes(&a[0], w, n);
                let mut acc = l[0].clone();
                for x in &l[1..] {
                    acc = self.bin1(if h == H::VecReduceOr { B::Or } else { B::And }, &acc, x, w)?;
                }
                r = Some(acc);
            }
            H::ClockGettime => {
                let p = self.concretize(st, &a[1], 64)?;
                let t = st.time_ns;
                self.store_int(st, p, 64, &V::C(t / 1_000_000_000))?;
                self.store_int(st, p + 8, 64, &V::C(t % 1_000_000_000))?;
                r = Some(V::C(0));
            }
            H::SxSetTime => {
                st.time_ns = self.concretize(st, &a[0], 64)?;
            }
            H::SxBytes => {
                let p = self.concretize(st, &a[0], 64)?;
                let n = self.concretize(st, &a[1], 64)? as u32;
                if (st.nvars + n) as usize > NV {
                    return err(format!("more than {} symbolic bytes", NV));
                }
                let v0 = st.nvars;
                for i in 0..n {
                    let e = self.ar.var(v0 + i);
                    let (o, off) = self.find_mut(st, p + i as u64, 1)?;
                    o.set_sym(off, e);
                }
                st.nvars += n;
                st.log.push(Inp::Bytes(v0, n));
            }
            H::SxChoose => {
                let n = self.concretize(st, &a[0], 64)?;
                if n == 0 {
                    return err("sx_choose(0)");
                }
                // a fresh variable below n; what it is decides the way taken
                let var = if n > 1 && n <= 256 && (st.nvars as usize) < NV - 16 {
                    let x = self.ar.var(st.nvars);
                    st.nvars += 1;
                    if n < 256 {
                        let k = self.ar.konst(8, n as u128);
                        let c = self.ar.bin(Op::Ult, x, k);
                        self.assume(st, c);
                    }
                    Some(x)
                } else {
                    None
                };
                for k in (0..n).rev() {
                    let m = match var {
                        None => None,
                        Some(x) => {
                            let kk = self.ar.konst(8, k as u128);
                            let c = self.ar.bin(Op::Eq, x, kk);
                            match self.feasible(st, c)? {
                                Some(m) => Some((c, m)),
                                None => continue,
                            }
                        }
                    };
                    if k == 0 {
                        if let Some((c, m)) = m {
                            st.model = m;
                            self.assume(st, c);
                        }
                        break;
                    }
                    let mut o = st.clone();
                    if let Some((c, m)) = m {
                        o.model = m;
                        self.assume(&mut o, c);
                    }
                    o.log.push(Inp::Choice(k));
                    o.depth += 1;
                    self.set(&mut o, d, V::C(k));
                    self.after_call(&mut o, normal)?;
                    self.js.forks += 1;
                    self.work.push(o);
                }
                st.log.push(Inp::Choice(0));
                r = Some(V::C(0));
            }
            H::SxAssume => {
                let aw = args[0].1;
                let z = V::C(0);
                match self.cmp1(Pred::Ne, &a[0], &z, aw) {
                    V::C(0) => return Err(Stop::Assumed),
                    V::C(_) => {}
                    V::X(e) => match self.feasible(st, e)? {
                        Some(m) => {
                            st.model = m;
                            self.assume(st, e);
                        }
                        None => return Err(Stop::Assumed),
                    },
                    _ => return err("assume"),
                }
            }
            H::SxCheck => {
                let aw = args[0].1;
                let z = V::C(0);
                let code = match &a[1] {
                    V::C(c) => *c,
                    _ => 0,
                };
                self.js.checks += 1;
                match self.cmp1(Pred::Ne, &a[0], &z, aw) {
                    V::C(0) => {
                        return bad("check", format!("{}", code));
                    }
                    V::C(_) => {}
                    V::X(e) => {
                        self.js.sym_checks += 1;
                        let ne = self.ar.not(e);
                        if let Some(m) = self.feasible(st, ne)? {
                            let mut o = st.clone();
                            o.model = m;
                            self.violation(&o, "check", format!("{}", code));
                        }
                        match self.feasible(st, e)? {
                            Some(m) => {
                                st.model = m;
                                self.assume(st, e);
                            }
                            None => return Err(Stop::Assumed),
                        }
                    }
                    _ => return err("check"),
                }
            }
            H::SxParam => {
                let i = self.concretize(st, &a[0], 64)?;
                r = Some(V::C(*self.params.get(i as usize).unwrap_or(&0)));
            }
            H::SxCover => {
                let i = self.concretize(st, &a[0], 64)?;
                self.covers |= 1u128 << (i & 127);
            }
            H::SxObserve => st.obs.push(a[0].clone()),
            H::SxExpectPanic => {
                let i = self.concretize(st, &a[0], 64)?;
                st.expect_panic = i != 0;
            }
            H::SxStop => return Err(Stop::Done),
        }
        if let Some(v) = r {
            self.set(st, d, v);
        }
        self.after_call(st, normal)
    }

    fn free(&mut self, st: &mut State, p: u64) -> R<()> {
        let (_, off) = self.find(st, p, 0)?;
        if off != 0 || p >> 60 != KIND_HEAP {
            return bad("mem", "free of a pointer that was not allocated");
        }
        let id = ((p >> 32) & 0xfff_ffff) as usize;
        *st.heap.get_mut(id).unwrap() = Rc::new(Obj {
            data: Vec::new(),
            sym: None,
            freed: true,
            ro: false,
        });
        Ok(())
    }

    fn bitop(&mut self, h: H, v: &V, w: u16) -> R<V> {
        if let V::C(c) = v {
            let c = *c;
            let r = match h {
                H::Ctlz => (c.leading_zeros() as u64) - (64 - w as u64),
                H::Cttz => (c.trailing_zeros() as u64).min(w as u64),
                H::Ctpop => c.count_ones() as u64,
                H::Bswap => c.swap_bytes() >> (64 - w),
                H::BitReverse => c.reverse_bits() >> (64 - w),
                _ => {
                    let s = sext128(c as u128, w);
                    (s.unsigned_abs() as u64) & m64(w)
                }
            };
            return Ok(V::C(r));
        }
        let e = self.ex(v, w);
        let r = match h {
            H::Ctlz => {
                let mut r = self.ar.konst(w, w as u128);
                for i in 0..w {
                    let b = self.ar.extract(e, i, 1);
                    let k = self.ar.konst(w, (w - 1 - i) as u128);
                    r = self.ar.ite(b, k, r);
                }
                r
            }
            H::Cttz => {
                let mut r = self.ar.konst(w, w as u128);
                for i in (0..w).rev() {
                    let b = self.ar.extract(e, i, 1);
                    let k = self.ar.konst(w, i as u128);
                    r = self.ar.ite(b, k, r);
                }
                r
            }
            H::Ctpop => {
                let mut r = self.ar.konst(w, 0);
                for i in 0..w {
                    let b = self.ar.extract(e, i, 1);
                    let z = self.ar.zext(b, w);
                    r = self.ar.bin(Op::Add, r, z);
                }
                r
            }
            H::Bswap => {
                let mut p = Vec::new();
                for i in (0..w / 8).rev() {
                    p.push(self.ar.extract(e, i * 8, 8));
                }
                self.ar.concat(&p)
            }
            H::BitReverse => {
                let mut p = Vec::new();
                for i in (0..w).rev() {
                    p.push(self.ar.extract(e, i, 1));
                }
                self.ar.concat(&p)
            }
            _ => {
                let z = self.ar.konst(w, 0);
                let n = self.ar.bin(Op::Sub, z, e);
                let c = self.ar.bin(Op::Slt, e, z);
                self.ar.ite(c, n, e)
            }
        };
        Ok(self.norm(r))
    }
}

//! Symbolic interpreter for the parsed LLVM IR.
use crate::expr::*;
use crate::ir::{Callee, Func, Module, Ty, C, I, O};
use crate::mem::*;
use crate::z3::{Res, Z3};
use num_traits::ToPrimitive;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub enum Val {
    E(E),
    A(Rc<Vec<Val>>),
    U,
}

pub struct Mdl {
    pub m: Model,
    memo: RefCell<HashMap<E, V>>,
}

impl Mdl {
    fn new(m: Model) -> Rc<Mdl> {
        Rc::new(Mdl {
            m,
            memo: RefCell::new(HashMap::default()),
        })
    }
}

pub struct LFunc {
    pub f: Func,
    pub consts: Vec<Val>,
    pub entry_ip: Vec<usize>,       // first non-phi index per block
    pub ipdom: RefCell<Option<Vec<Option<u32>>>>, // u32::MAX = function exit
    pub is_panic_like: bool,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<LFunc>,
    blk: u32,
    ip: usize,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    dst: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<E>,
    known: Rc<HashMap<E, E>>,
    model: Rc<Mdl>,
    inputs: Rc<Vec<(String, E)>>,
    merge: bool,
    real_fmt: bool,
    model_div: bool,
    expect_panic: bool,
    forks: u32,
    instrs: u64,
    panicked_ok: bool,
    nchecks: u64,
    covers: (u64, Vec<E>),
}

pub struct Sample {
    pub inputs: Vec<(String, u32, V)>,
    pub checks: u64,
    pub covers: u64,
    pub end: String,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Stop {
    depth: usize,
    blk: u32, // MAX = return
}

pub enum Flow {
    Next,
    /// current state finished (path end)
    End,
    /// current state replaced by these
    Fork(Vec<State>),
}

pub enum Ex {
    Fork(Vec<State>),
    End,
}
type R<T> = Result<T, Ex>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub loc: String,
    pub inputs: Vec<(String, u32, V)>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum B {
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Malloc,
    Calloc,
    Free,
    CRealloc,
    PosixMemalign,
    Panic,
    FmtWrite,
    RetVoid,
    RetZero,
    Memcmp,
    Strlen,
    SymInt,
    SymBytes,
    SymAssume,
    SymCheck,
    SymCover,
    SymConc,
    SymMerge,
    SymRealFmt,
    SymSetModelDiv,
    SymModelDiv,
    SymDivRem,
    SymUint,
    SymExpectPanic,
    SymIsSym,
    SymIte,
    SymFail,
    SymTrace,
    Llvm,
    Errno,
    Getrandom,
    Syscall,
    WriteFd,
}

#[derive(Clone)]
enum Target {
    B(B),
    F(Rc<LFunc>),
    Missing,
}

pub struct Opts {
    pub max_paths: u64,
    pub max_time: f64,
    pub max_instrs: u64,
    pub max_viol: usize,
    pub trace: bool,
    pub enum_limit: usize,
}

pub struct Exec {
    pub x: Ctx,
    pub z: Z3,
    pub m: Rc<Module>,
    pub o: Opts,
    funcs: HashMap<String, Target>,
    next_addr: u64,
    pub viol: Vec<Violation>,
    viol_keys: BTreeSet<String>,
    pub inconclusive: BTreeMap<String, u64>,
    pub paths: u64,
    pub ended: BTreeMap<String, u64>,
    pub covers: BTreeMap<String, u64>,
    pub checks: BTreeMap<String, (u64, u64)>, // label -> (evaluations, solver-discharged)
    pub instrs: u64,
    pub forks: u64,
    pub merges: u64,
    pub dbg_seen: HashSet<u32>,
    pub fns_seen: BTreeSet<String>,
    pub fork_sites: BTreeMap<String, u64>,
    qcache: HashMap<Vec<E>, Option<Rc<Mdl>>>,
    pub qcache_hits: u64,
    start: Instant,
    var_count: u32,
    quot: HashMap<(E, E), E>,
    var_pool: HashMap<(String, u32), E>,
    abort: bool,
    global_done: HashMap<u64, Rc<Obj>>,
    last_print: f64,
    pub samples: Vec<Sample>,
    done_paths: u64,
}

fn bvw(t: &Ty) -> u32 {
    t.bits()
}

impl Exec {
    pub fn new(m: Rc<Module>, z: Z3, o: Opts) -> Exec {
        Exec {
            x: Ctx::new(),
            z,
            m,
            o,
            funcs: HashMap::default(),
            next_addr: 0x1_0000_0000,
            viol: vec![],
            viol_keys: Default::default(),
            inconclusive: Default::default(),
            paths: 0,
            ended: Default::default(),
            covers: Default::default(),
            checks: Default::default(),
            instrs: 0,
            forks: 0,
            merges: 0,
            dbg_seen: Default::default(),
            fns_seen: Default::default(),
            fork_sites: Default::default(),
            qcache: Default::default(),
            qcache_hits: 0,
            start: Instant::now(),
            var_count: 0,
            quot: HashMap::default(),
            var_pool: Default::default(),
            abort: false,
            global_done: Default::default(),
            last_print: 0.0,
            samples: vec![],
            done_paths: 0,
        }
    }

    // ---------- values ----------
    fn c_val(&mut self, t: &Ty, c: &C) -> Val {
        match t {
            Ty::Void | Ty::Other => Val::U,
            Ty::Int(w) => match c {
                C::Int(b) => {
                    let v = V::from_big(*w, b.clone());
                    Val::E(self.x.kv(*w, v))
                }
                _ => Val::E(self.x.konst(*w, 0)),
            },
            Ty::Ptr => match c {
                C::Int(b) => Val::E(self.x.konst(64, b.to_u128().unwrap_or(0))),
                _ => Val::E(self.x.konst(64, 0)),
            },
            Ty::F64 => match c {
                C::Float(f) => Val::E(self.x.konst(64, f.to_bits() as u128)),
                _ => Val::E(self.x.konst(64, 0)),
            },
            Ty::F32 => match c {
                C::Float(f) => Val::E(self.x.konst(32, (*f as f32).to_bits() as u128)),
                _ => Val::E(self.x.konst(32, 0)),
            },
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => {
                let n = t.n_fields();
                let mut v = Vec::with_capacity(n);
                for i in 0..n {
                    let ft = t.field_ty(i);
                    let sub = match c {
                        C::Agg(a) => a[i].clone(),
                        C::Bytes(b) => C::Int(num_bigint::BigUint::from(b[i])),
                        C::Undef => C::Undef,
                        _ => C::Zero,
                    };
                    v.push(self.c_val(&ft, &sub));
                }
                Val::A(Rc::new(v))
            }
        }
    }
    fn zero_val(&mut self, t: &Ty) -> Val {
        self.c_val(t, &C::Zero)
    }
    fn reg(&self, s: &State, r: u32) -> Val {
        s.frames.last().unwrap().regs[r as usize].clone()
    }
    fn val(&self, s: &State, o: &O) -> Val {
        match o {
            O::Reg(r) => self.reg(s, *r),
            O::Pre(i) => s.frames.last().unwrap().f.consts[*i as usize].clone(),
            O::K(..) => panic!("unlowered operand"),
        }
    }
    fn e(&self, s: &State, o: &O) -> E {
        match self.val(s, o) {
            Val::E(e) => e,
            Val::A(_) => panic!("aggregate where scalar expected"),
            Val::U => panic!("undefined register read in {}", s.frames.last().unwrap().f.f.name),
        }
    }
    fn lanes(&self, v: &Val) -> Rc<Vec<Val>> {
        match v {
            Val::A(a) => a.clone(),
            _ => panic!("lanes of scalar"),
        }
    }
    fn ve(&self, v: &Val) -> E {
        match v {
            Val::E(e) => *e,
            _ => panic!("scalar expected"),
        }
    }
    fn to_bits(&mut self, t: &Ty, v: &Val) -> E {
        match t {
            Ty::Vec(_, et) => {
                let l = self.lanes(v);
                let mut r: Option<E> = None;
                for x in l.iter() {
                    let b = self.to_bits(et, x);
                    r = Some(match r {
                        None => b,
                        Some(lo) => self.x.concat(b, lo),
                    });
                }
                r.unwrap()
            }
            _ => self.ve(v),
        }
    }
    fn from_bits(&mut self, t: &Ty, e: E) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let mut v = vec![];
                for i in 0..*n as u32 {
                    let p = self.x.extract(e, i * w, w);
                    v.push(self.from_bits(et, p));
                }
                Val::A(Rc::new(v))
            }
            _ => Val::E(e),
        }
    }
    fn val_ite(&mut self, c: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::E(p), Val::E(q)) => Val::E(self.x.ite(c, *p, *q)),
            (Val::A(p), Val::A(q)) => {
                if Rc::ptr_eq(p, q) {
                    return a.clone();
                }
                let v = p
                    .iter()
                    .zip(q.iter())
                    .map(|(u, w)| self.val_ite(c, u, w))
                    .collect();
                Val::A(Rc::new(v))
            }
            (Val::U, o) | (o, Val::U) => o.clone(),
            _ => panic!("val_ite"),
        }
    }

    // ---------- functions ----------
    fn lower(&mut self, mut f: Func) -> LFunc {
        let mut consts: Vec<Val> = vec![];
        let mut pend: Vec<(C, Ty)> = vec![];
        for b in f.blocks.iter_mut() {
            for ins in b.iter_mut() {
                ins.i.ops(&mut |o| {
                    if let O::K(c, t) = o {
                        pend.push((c.clone(), t.clone()));
                        *o = O::Pre(pend.len() as u32 - 1);
                    }
                });
            }
        }
        for (c, t) in &pend {
            let v = self.c_val(t, c);
            consts.push(v);
        }
        let entry_ip = f
            .blocks
            .iter()
            .map(|b| b.iter().take_while(|i| matches!(i.i, I::Phi(..))).count())
            .collect();
        LFunc {
            f,
            consts,
            entry_ip,
            ipdom: RefCell::new(None),
            is_panic_like: false,
        }
    }

    fn builtin(name: &str, declared: bool) -> Option<B> {
        if let Some(s) = name.strip_prefix("__sym_") {
            return Some(match s {
                "u8" | "u16" | "u32" | "u64" => B::SymInt,
                "bytes" => B::SymBytes,
                "assume" => B::SymAssume,
                "check" => B::SymCheck,
                "cover" => B::SymCover,
                "concretize" => B::SymConc,
                "merge" => B::SymMerge,
                "real_fmt" => B::SymRealFmt,
                "set_model_div" => B::SymSetModelDiv,
                "model_div" => B::SymModelDiv,
                "udivrem" => B::SymDivRem,
                "uint" => B::SymUint,
                "expect_panic" => B::SymExpectPanic,
                "is_symbolic" => B::SymIsSym,
                "ite64" => B::SymIte,
                "fail" => B::SymFail,
                "trace" => B::SymTrace,
                _ => return None,
            });
        }
        if name.starts_with("llvm.") {
            return Some(B::Llvm);
        }
        if name.starts_with("_R") {
            if name.contains("7___rustc") {
                if name.contains("12___rust_alloc") {
                    return Some(B::Alloc);
                }
                if name.contains("19___rust_alloc_zeroed") {
                    return Some(B::AllocZ);
                }
                if name.contains("14___rust_dealloc") {
                    return Some(B::Dealloc);
                }
                if name.contains("14___rust_realloc") {
                    return Some(B::Realloc);
                }
                if name.contains("rust_begin_unwind") || name.contains("rust_panic") {
                    return Some(B::Panic);
                }
                if name.contains("no_alloc_shim") {
                    return Some(B::RetVoid);
                }
            }
            if (name.contains("4core9panicking") && !name.contains("AssertKind"))
                || name.contains("18handle_alloc_error")
                || name.contains("8raw_vec12handle_error")
                || name.contains("8raw_vec17capacity_overflow")
                || name.ends_with("6option13unwrap_failed")
                || name.ends_with("6option13expect_failed")
                || name.ends_with("6result13unwrap_failed")
                || name.contains("5slice5index") && (name.contains("_fail") )
                || name.contains("3std9panicking")
                || name.contains("3std7process5abort")
                || name.contains("4core3str16slice_error_fail")
            {
                return Some(B::Panic);
            }
            if name.ends_with("4core3fmt5write") {
                return Some(B::FmtWrite);
            }
            if name.ends_with("5stdio6__print")
                || name.ends_with("5stdio7__eprint")
                || name.ends_with("5stdio6_print")
                || name.ends_with("5stdio7_eprint")
                || name.contains("12thread_local11destructors")
                || name.contains("thread_local4guard")
            {
                return Some(B::RetVoid);
            }
            return None;
        }
        Some(match name {
            "malloc" => B::Malloc,
            "calloc" => B::Calloc,
            "free" => B::Free,
            "realloc" => B::CRealloc,
            "posix_memalign" => B::PosixMemalign,
            "memcmp" | "bcmp" => B::Memcmp,
            "strlen" => B::Strlen,
            "abort" | "exit" | "_exit" => B::Panic,
            "__errno_location" => B::Errno,
            "getrandom" => B::Getrandom,
            "write" | "writev" => B::WriteFd,
            "asm" => B::RetZero,
            _ if declared => match name {
                "__cxa_thread_atexit_impl" | "pthread_self" | "pthread_key_create"
                | "pthread_setspecific" | "pthread_getspecific" | "clock_gettime"
                | "pthread_mutex_lock" | "pthread_mutex_unlock" | "sched_yield" | "getenv"
                | "isatty" | "sysconf" | "pthread_atfork" => B::RetZero,
                "syscall" => B::Syscall,
                _ => return None,
            },
            _ => return None,
        })
    }

    fn target(&mut self, name: &str) -> Target {
        if let Some(t) = self.funcs.get(name) {
            return t.clone();
        }
        let m = self.m.clone();
        let mut n = name;
        while let Some(a) = m.aliases.get(n) {
            n = a;
        }
        let declared = !m.func_spans.contains_key(n);
        let t = if let Some(b) = Self::builtin(n, declared) {
            Target::B(b)
        } else if let Some(f) = m.func(n, self.funcs.len() as u32) {
            let l = self.lower(f);
            Target::F(Rc::new(l))
        } else {
            Target::Missing
        };
        self.funcs.insert(name.to_string(), t.clone());
        t
    }

    // ---------- solver interface ----------
    fn split_and(&self, e: E, out: &mut Vec<E>) {
        if let N::Bin(Op::And, a, b) = self.x.n(e) {
            if self.x.w(e) == 1 {
                self.split_and(*a, out);
                self.split_and(*b, out);
                return;
            }
        }
        out.push(e);
    }

    fn add_pc(&mut self, s: &mut State, c: E) {
        let mut parts = vec![];
        self.split_and(c, &mut parts);
        for p in parts {
            if self.x.cv(p).is_some() {
                continue;
            }
            if s.pc.contains(&p) {
                continue;
            }
            s.pc.push(p);
            let t = self.x.tru();
            let f = self.x.fals();
            let np = self.x.not(p);
            let n = self.x.n(p).clone();
            let k = Rc::make_mut(&mut s.known);
            k.insert(p, t);
            if self.x.cv(np).is_none() {
                k.insert(np, f);
            }
            if let N::Cmp(Pred::Eq, a, b) = n {
                if self.x.cv(b).is_some() {
                    k.insert(a, b);
                    // bytes concatenated: know each piece
                    let mut st = vec![(a, b)];
                    while let Some((a, b)) = st.pop() {
                        if let N::Concat(h, l) = self.x.n(a).clone() {
                            let lw = self.x.w(l);
                            let hw = self.x.w(h);
                            let bh = self.x.extract(b, lw, hw);
                            let bl = self.x.extract(b, 0, lw);
                            st.push((h, bh));
                            st.push((l, bl));
                        } else if self.x.cv(a).is_none() {
                            k.insert(a, b);
                        }
                    }
                } else if let (N::Var(i), N::Var(j)) = (self.x.n(a).clone(), self.x.n(b).clone()) {
                    let (a, b) = if i < j { (b, a) } else { (a, b) };
                    k.entry(a).or_insert(b);
                }
                if self.x.cv(b).map_or(false, |v| v.is_zero()) {
                    if self.exact_quotient(s, a) {
                        // now implied
                        s.pc.retain(|c| *c != p);
                    }
                }
            }
        }
    }

    fn strip_zext(&self, mut e: E) -> E {
        while let N::Concat(h, l) = self.x.n(e) {
            if !self.x.cv(*h).map_or(false, |v| v.is_zero()) {
                break;
            }
            e = *l;
        }
        e
    }

    /// `rem` was found to be zero on this path. If it is x mod k (k constant, x compound), name the quotient: a fresh
    /// variable q with x = q * k takes the place of x / k, which keeps chains of divisions linear for the solver.
    fn exact_quotient(&mut self, s: &mut State, rem: E) -> bool {
        let mut rem = self.strip_zext(rem);
        let seen = self.x.w(rem);
        if let N::Extract(r, 0) = self.x.n(rem) {
            rem = *r;
        }
        let N::Bin(Op::URem, x, k) = self.x.n(rem).clone() else { return false };
        let Some(kc) = self.x.cv(k).map(|v| v.u128()) else { return false };
        let w = self.x.w(x);
        if w > 128 || seen < 128 - (kc - 1).leading_zeros() || kc < 2 || kc.is_power_of_two() || matches!(self.x.n(self.strip_zext(x)), N::Var(_)) {
            return false;
        }
        let div = self.x.bin(Op::UDiv, x, k);
        let div = self.strip_zext(div);
        if !matches!(self.x.n(div), N::Bin(Op::UDiv, ..)) || s.known.contains_key(&div) {
            return false;
        }
        let full = if w == 128 { u128::MAX } else { (1 << w) - 1 };
        let max = self.x.ub(x).map_or(full, |u| u.min(full)) / kc;
        let qw = (128 - max.leading_zeros()).max(1);
        let q = match self.quot.get(&(x, k)) {
            Some(q) => *q,
            None => {
                let name = format!("quot_{}", self.quot.len());
                let q = self.x.new_var(&name, qw);
                self.quot.insert((x, k), q);
                q
            }
        };
        let N::Var(id) = *self.x.n(q) else { return false };
        let val = self.meval(&s.model, x).u128() / kc;
        let mut m = s.model.m.clone();
        m.insert(id, V::new(qw, val));
        s.model = Mdl::new(m);
        let wide = self.x.zext(q, w);
        let prod = self.x.bin(Op::Mul, wide, k);
        let eq = self.x.eq(x, prod);
        let top = self.x.konst(qw, max);
        let le = self.x.cmp(Pred::Ule, q, top);
        let dw = self.x.w(div);
        let to = if dw <= qw { self.x.extract(q, 0, dw) } else { self.x.zext(q, dw) };
        for c in [eq, le] {
            if self.x.cv(c).is_none() && !s.pc.contains(&c) {
                s.pc.push(c);
            }
        }
        Rc::make_mut(&mut s.known).insert(div, to);
        true
    }

    fn simp(&mut self, s: &State, e: E) -> E {
        if self.x.cv(e).is_some() || s.known.is_empty() {
            return e;
        }
        let mut memo = HashMap::default();
        let mut budget = 3000;
        let k = s.known.clone();
        let mut cur = e;
        for _ in 0..2 {
            let n = self.x.substitute(cur, &k, &mut memo, &mut budget);
            if n == cur {
                break;
            }
            cur = n;
            if self.x.cv(cur).is_some() {
                break;
            }
        }
        cur
    }

    fn meval(&self, m: &Mdl, e: E) -> V {
        self.x.eval(e, &m.m, &mut m.memo.borrow_mut())
    }

    /// Is pc && c satisfiable?  (c already simplified, not constant, state's model may or may not satisfy it)
    fn feasible(&mut self, s: &State, c: E) -> Res3 {
        if self.x.is_true(c) {
            return Res3::Yes(s.model.clone());
        }
        if self.x.is_false(c) {
            return Res3::No;
        }
        if !self.meval(&s.model, c).is_zero() {
            return Res3::Yes(s.model.clone());
        }
        // slice
        let mut vars: BTreeSet<u32> = self.x.vars_of(c).iter().copied().collect();
        let mut used = vec![false; s.pc.len()];
        let pv: Vec<Rc<Vec<u32>>> = s.pc.iter().map(|p| self.x.vars_of(*p)).collect();
        loop {
            let mut ch = false;
            for i in 0..s.pc.len() {
                if !used[i] && pv[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    vars.extend(pv[i].iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        let mut q: Vec<E> = (0..s.pc.len()).filter(|i| used[*i]).map(|i| s.pc[i]).collect();
        q.push(c);
        q.sort_unstable();
        q.dedup();
        if let Some(r) = self.qcache.get(&q) {
            self.qcache_hits += 1;
            return match r {
                Some(m) => Res3::Yes(self.combine(s, m, &vars)),
                None => Res3::No,
            };
        }
        match self.z.check(&mut self.x, &q) {
            Res::Sat(m) => {
                // the model must satisfy the query under our own evaluator (guards the translation)
                let md = Mdl::new(m);
                for e in &q {
                    if self.meval(&md, *e).is_zero() {
                        *self.inconclusive.entry("engine: solver model rejected by evaluator".into()).or_default() += 1;
                        return Res3::Unknown;
                    }
                }
                self.qcache.insert(q, Some(md.clone()));
                Res3::Yes(self.combine(s, &md, &vars))
            }
            Res::Unsat => {
                self.qcache.insert(q, None);
                Res3::No
            }
            Res::Unknown => Res3::Unknown,
        }
    }
    fn combine(&self, s: &State, m: &Rc<Mdl>, _vars: &BTreeSet<u32>) -> Rc<Mdl> {
        let mut n = s.model.m.clone();
        for (k, v) in m.m.iter() {
            n.insert(*k, v.clone());
        }
        Mdl::new(n)
    }

    fn here(&self, s: &State) -> String {
        // innermost frame with debug info, preferring non-std locations
        let mut first = String::new();
        for fr in s.frames.iter().rev() {
            let b = &fr.f.f.blocks[fr.blk as usize];
            let i = fr.ip.min(b.len() - 1);
            let d = b[i].dbg;
            if d != 0 {
                let l = self.m.dbg_chain(d);
                for (file, line, func) in l {
                    let t = format!("{file}:{line} ({func})");
                    if first.is_empty() {
                        first = t.clone();
                    }
                    if !file.contains("/rustc/") && !file.contains(".cargo/registry") && !file.contains("/rustlib/") {
                        return t;
                    }
                }
            }
        }
        if first.is_empty() {
            first = s.frames.last().map(|f| f.f.f.name.clone()).unwrap_or_default();
        }
        first
    }

    fn incon(&mut self, s: &State, what: &str) {
        let w = if what.starts_with("solver") || what.starts_with("limit") || what.starts_with("engine") {
            format!("{what} at {}", self.here(s))
        } else {
            format!("{what} [{}] at {}", s.frames.last().map(|f| f.f.f.name.clone()).unwrap_or_default(), self.here(s))
        };
        if self.o.trace {
            eprintln!("inconclusive: {w}");
        }
        *self.inconclusive.entry(w).or_default() += 1;
    }

    fn violation(&mut self, s: &State, kind: &str, msg: &str, model: &Rc<Mdl>) {
        let loc = self.here(s);
        let key = if kind == "check" { format!("{kind}|{msg}") } else { format!("{kind}|{loc}") };
        if !self.viol_keys.insert(key) {
            return;
        }
        let mut inputs = vec![];
        for (n, e) in s.inputs.iter() {
            inputs.push((n.clone(), self.x.w(*e), self.meval(model, *e)));
        }
        if self.o.trace {
            eprintln!("violation {kind} {msg} at {loc}");
        }
        self.viol.push(Violation {
            kind: kind.into(),
            msg: msg.into(),
            loc,
            inputs,
        });
        if self.viol.len() >= self.o.max_viol {
            self.abort = true;
        }
    }

    fn end(&mut self, s: &State, why: &str) {
        self.paths += 1;
        *self.ended.entry(why.to_string()).or_default() += 1;
        // keep a spread of finished paths for native replay
        if matches!(why, "return" | "expected-panic") {
            self.done_paths += 1;
            let n = self.done_paths;
            if n <= 3 || n.is_power_of_two() {
                let mut inputs = vec![];
                for (n, e) in s.inputs.iter() {
                    inputs.push((n.clone(), self.x.w(*e), self.meval(&s.model, *e)));
                }
                let mut covers = s.covers.0;
                for c in &s.covers.1 {
                    covers += !self.meval(&s.model, *c).is_zero() as u64;
                }
                self.samples.push(Sample { inputs, checks: s.nchecks, covers, end: why.to_string() });
            }
        }
    }

    /// Partition of the state by mutually exclusive, jointly exhaustive conditions.
    fn fork_by(&mut self, s: &State, conds: &[E]) -> Vec<(usize, State)> {
        let mut out = vec![];
        for (i, c) in conds.iter().enumerate() {
            let c = self.simp(s, *c);
            match self.feasible(s, c) {
                Res3::Yes(m) => {
                    let mut t = s.clone();
                    t.model = m;
                    self.add_pc(&mut t, c);
                    out.push((i, t));
                }
                Res3::No => {}
                Res3::Unknown => {
                    self.incon(s, "solver gave no answer");
                }
            }
        }
        if out.len() > 1 {
            self.forks += out.len() as u64 - 1;
            let h = self.here(s);
            *self.fork_sites.entry(h).or_default() += out.len() as u64 - 1;
            for (_, t) in out.iter_mut() {
                t.forks += 1;
            }
        }
        out
    }

    /// Make an expression concrete, forking over its feasible values.
    fn concretize(&mut self, s: &mut State, e: E, what: &str) -> R<u128> {
        if let Some(v) = self.x.cv(e) {
            return Ok(v.u128());
        }
        let e2 = self.simp(s, e);
        if let Some(v) = self.x.cv(e2) {
            return Ok(v.u128());
        }
        let w = self.x.w(e2);
        let mut out = vec![];
        let mut rest = s.clone();
        loop {
            let v = self.meval(&rest.model, e2);
            let k = self.x.kv(w, v);
            let eq = self.x.eq(e2, k);
            let mut t = rest.clone();
            self.add_pc(&mut t, eq);
            if e != e2 {
                Rc::make_mut(&mut t.known).insert(e, k);
            }
            Rc::make_mut(&mut t.known).insert(e2, k);
            out.push(t);
            let ne = self.x.not(eq);
            match self.feasible(&rest, ne) {
                Res3::Yes(m) => {
                    rest.model = m;
                    self.add_pc(&mut rest, ne);
                }
                Res3::No => break,
                Res3::Unknown => {
                    self.incon(s, "solver gave no answer");
                    break;
                }
            }
            if out.len() > self.o.enum_limit {
                self.incon(s, &format!("limit: more than {} values for {what}", self.o.enum_limit));
                break;
            }
        }
        if out.len() == 1 {
            // single value
            let t = out.pop().unwrap();
            *s = t;
            let v = self.simp(s, e2);
            return Ok(self.x.cv(v).expect("concretized").u128());
        }
        self.forks += out.len() as u64 - 1;
        let h = self.here(s);
        *self.fork_sites.entry(h).or_default() += out.len() as u64 - 1;
        Err(Ex::Fork(out))
    }

    // ---------- memory ----------
    fn alloc(&mut self, s: &mut State, size: u64, align: u64, kind: Kind) -> u64 {
        let a = align.max(16);
        self.next_addr = self.next_addr.div_ceil(a) * a;
        let addr = self.next_addr;
        self.next_addr += size.max(1) + 32;
        s.mem.objs.insert(
            addr,
            Rc::new(Obj {
                size,
                kind,
                data: Data::Conc(vec![0; size as usize]),
            }),
        );
        addr
    }
    fn find(&mut self, s: &mut State, addr: u64) -> Option<u64> {
        if let Some((b, o)) = s.mem.objs.range(..=addr).next_back() {
            if addr < b + o.size || (addr == *b) {
                return Some(*b);
            }
        }
        // lazily materialise a global
        let m = self.m.clone();
        let (b, name) = m.global_by_addr.range(..=addr).next_back()?;
        let g = &m.globals[name];
        if addr >= b + g.size.max(1) {
            return None;
        }
        let o = match self.global_done.get(b) {
            Some(o) => o.clone(),
            None => {
                let o = Rc::new(Obj {
                    size: g.size,
                    kind: if g.konst { Kind::Const } else { Kind::Global },
                    data: Data::Conc(m.global_init(name)),
                });
                self.global_done.insert(*b, o.clone());
                o
            }
        };
        s.mem.objs.insert(*b, o);
        Some(*b)
    }
    fn err(&mut self, s: &State, msg: &str) -> Ex {
        self.incon(s, msg);
        self.end(s, "engine-error");
        Ex::End
    }
    /// object and offset for a concrete access
    fn locate(&mut self, s: &mut State, addr: u64, n: u64) -> R<(u64, usize)> {
        match self.find(s, addr) {
            Some(b) if addr + n <= b + s.mem.objs[&b].size => Ok((b, (addr - b) as usize)),
            _ => Err(self.err(s, &format!("engine: invalid access of {n} bytes at {addr:#x}"))),
        }
    }

    fn leaves(&mut self, e: E, guard: E, add: u64, out: &mut Vec<(E, u64)>, lim: usize) -> bool {
        if out.len() > lim {
            return false;
        }
        if let Some(v) = self.x.cv(e) {
            let a = (v.u128() as u64).wrapping_add(add);
            out.push((guard, a));
            return true;
        }
        match self.x.n(e).clone() {
            N::Ite(c, a, b) => {
                let g1 = self.x.and1(guard, c);
                let nc = self.x.not(c);
                let g2 = self.x.and1(guard, nc);
                self.leaves(a, g1, add, out, lim) && self.leaves(b, g2, add, out, lim)
            }
            N::Bin(Op::Add, a, k) => match self.x.cv(k).map(|v| v.u128() as u64) {
                Some(k) => self.leaves(a, guard, add.wrapping_add(k), out, lim),
                None => false,
            },
            _ => false,
        }
    }
    fn stride(&self, e: E) -> u32 {
        // known-zero low bits
        match self.x.n(e) {
            N::Const(v) => {
                let b = v.big();
                b.trailing_zeros().map(|z| z as u32).unwrap_or(63)
            }
            N::Concat(_, l) => {
                if self.x.cv(*l).map(|v| v.is_zero()).unwrap_or(false) {
                    self.x.w(*l)
                } else {
                    self.stride(*l)
                }
            }
            N::Bin(Op::Add | Op::Sub, a, b) => self.stride(*a).min(self.stride(*b)),
            N::Bin(Op::Mul, a, b) => (self.stride(*a) + self.stride(*b)).min(63),
            N::Ite(_, a, b) => self.stride(*a).min(self.stride(*b)),
            _ => 0,
        }
    }

    /// Resolve an address to guarded concrete addresses; forks when it may lie in several objects.
    fn resolve(&mut self, s: &mut State, addr: E, n: u64) -> R<Vec<(E, u64)>> {
        let t = self.x.tru();
        if let Some(v) = self.x.cv(addr) {
            return Ok(vec![(t, v.u128() as u64)]);
        }
        let a = self.simp(s, addr);
        if let Some(v) = self.x.cv(a) {
            return Ok(vec![(t, v.u128() as u64)]);
        }
        let mut out = vec![];
        if self.leaves(a, t, 0, &mut out, 64) {
            // merge equal addresses; drop infeasible invalid ones
            let mut m: BTreeMap<u64, E> = BTreeMap::new();
            for (g, v) in out {
                let ng = match m.get(&v) {
                    Some(o) => self.x.or1(*o, g),
                    None => g,
                };
                m.insert(v, ng);
            }
            let mut res = vec![];
            for (v, g) in m {
                let ok = match self.find(s, v) {
                    Some(b) => v + n <= b + s.mem.objs[&b].size,
                    None => false,
                };
                if ok {
                    res.push((g, v));
                } else {
                    let g = self.simp(s, g);
                    match self.feasible(s, g) {
                        Res3::No => {}
                        _ => return Err(self.err(s, &format!("engine: possible invalid access at {v:#x}"))),
                    }
                }
            }
            if res.is_empty() {
                return Err(self.err(s, "engine: no valid address"));
            }
            return Ok(res);
        }
        // general: by object
        let mv = self.meval(&s.model, a).u128() as u64;
        let b = match self.find(s, mv) {
            Some(b) => b,
            None => return Err(self.err(s, &format!("engine: symbolic access outside objects ({mv:#x})"))),
        };
        let size = s.mem.objs[&b].size;
        if size < n {
            return Err(self.err(s, "engine: symbolic access outside object"));
        }
        let kb = self.x.konst(64, b as u128);
        let off = self.x.bin(Op::Sub, a, kb);
        let lim = self.x.konst(64, (size - n) as u128);
        let inb = self.x.cmp(Pred::Ule, off, lim);
        let oob = self.x.not(inb);
        let oob = self.simp(s, oob);
        match self.feasible(s, oob) {
            Res3::No => {}
            Res3::Unknown => {
                self.incon(s, "solver gave no answer");
            }
            Res3::Yes(_) => {
                let st = self.fork_by(&s.clone(), &[inb, oob]);
                return Err(Ex::Fork(st.into_iter().map(|x| x.1).collect()));
            }
        }
        // in bounds
        let st = self.stride(off).min(12);
        let step = 1u64 << st;
        let cnt = (size - n) / step + 1;
        if cnt <= 1100 {
            let mut res = vec![];
            for k in 0..cnt {
                let o = k * step;
                let ko = self.x.konst(64, o as u128);
                let g = self.x.eq(off, ko);
                if self.x.is_false(g) {
                    continue;
                }
                res.push((g, b + o));
            }
            return Ok(res);
        }
        let v = self.concretize(s, a, "address")?;
        Ok(vec![(t, v as u64)])
    }

    fn read_bytes(&mut self, s: &mut State, addr: u64, n: u64) -> R<Vec<SB>> {
        let (b, o) = self.locate(s, addr, n)?;
        Ok(s.mem.objs[&b].read(o, n as usize))
    }
    fn write_bytes(&mut self, s: &mut State, addr: u64, bs: &[SB]) -> R<()> {
        let (b, o) = self.locate(s, addr, bs.len() as u64)?;
        let ob = Rc::make_mut(s.mem.objs.get_mut(&b).unwrap());
        if ob.kind == Kind::Const {
            return Err(self.err(s, "engine: write to constant"));
        }
        ob.write(o, bs);
        Ok(())
    }

    fn load_bits(&mut self, s: &mut State, addr: E, bits: u32) -> R<E> {
        let n = (bits as u64).div_ceil(8);
        let targets = self.resolve(s, addr, n)?;
        let mut r: Option<E> = None;
        for (g, a) in targets.iter().rev() {
            let bs = self.read_bytes(s, *a, n)?;
            let e = from_bytes(&mut self.x, &bs);
            let e = if self.x.w(e) > bits {
                self.x.extract(e, 0, bits)
            } else {
                e
            };
            r = Some(match r {
                None => e,
                Some(o) => self.x.ite(*g, e, o),
            });
        }
        Ok(r.unwrap())
    }
    fn store_bits(&mut self, s: &mut State, addr: E, e: E) -> R<()> {
        let bits = self.x.w(e);
        let n = (bits as u64).div_ceil(8);
        let targets = self.resolve(s, addr, n)?;
        if targets.len() == 1 {
            let mut bs = vec![];
            to_bytes(&mut self.x, e, n as usize, &mut bs);
            return self.write_bytes(s, targets[0].1, &bs);
        }
        if targets.len() > 64 {
            let v = self.concretize(s, addr, "store address")?;
            let mut bs = vec![];
            to_bytes(&mut self.x, e, n as usize, &mut bs);
            return self.write_bytes(s, v as u64, &bs);
        }
        let e = self.x.zext(e, n as u32 * 8);
        for (g, a) in targets {
            let old = self.read_bytes(s, a, n)?;
            let oe = from_bytes(&mut self.x, &old);
            let ne = self.x.ite(g, e, oe);
            let mut bs = vec![];
            to_bytes(&mut self.x, ne, n as usize, &mut bs);
            self.write_bytes(s, a, &bs)?;
        }
        Ok(())
    }
    fn addk(&mut self, a: E, k: u64) -> E {
        let kk = self.x.konst(64, k as u128);
        self.x.bin(Op::Add, a, kk)
    }
    fn load(&mut self, s: &mut State, t: &Ty, addr: E) -> R<Val> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) => {
                let mut v = vec![];
                for i in 0..t.n_fields() {
                    let a = self.addk(addr, t.field_off(i));
                    let ft = t.field_ty(i);
                    v.push(self.load(s, &ft, a)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Vec(n, et) if et.bits() % 8 == 0 => {
                let mut v = vec![];
                for i in 0..*n {
                    let a = self.addk(addr, i * et.bits() as u64 / 8);
                    v.push(Val::E(self.load_bits(s, a, et.bits())?));
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => {
                let e = self.load_bits(s, addr, t.bits())?;
                Ok(self.from_bits(t, e))
            }
        }
    }
    fn store(&mut self, s: &mut State, t: &Ty, v: &Val, addr: E) -> R<()> {
        match t {
            Ty::Struct(..) | Ty::Arr(..) => {
                let l = self.lanes(v);
                for i in 0..t.n_fields() {
                    let a = self.addk(addr, t.field_off(i));
                    let ft = t.field_ty(i);
                    self.store(s, &ft, &l[i], a)?;
                }
                Ok(())
            }
            Ty::Vec(n, et) if et.bits() % 8 == 0 => {
                let l = self.lanes(v);
                for i in 0..*n {
                    let a = self.addk(addr, i * et.bits() as u64 / 8);
                    let e = self.ve(&l[i as usize]);
                    self.store_bits(s, a, e)?;
                }
                Ok(())
            }
            _ => {
                let e = self.to_bits(t, v);
                self.store_bits(s, addr, e)
            }
        }
    }
    fn read_str(&mut self, s: &mut State, p: E, n: E) -> R<String> {
        let a = self.concretize(s, p, "string")? as u64;
        let n = self.concretize(s, n, "string length")? as u64;
        if n == 0 {
            return Ok(String::new());
        }
        let bs = self.read_bytes(s, a, n)?;
        Ok(bs.iter().map(|b| if b.e == CONC { b.i as u8 as char } else { '?' }).collect())
    }

    // ---------- control ----------
    fn set(&mut self, s: &mut State, dst: Option<u32>, v: Val) {
        if let Some(d) = dst {
            s.frames.last_mut().unwrap().regs[d as usize] = v;
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let fr = s.frames.last().unwrap();
        let f = fr.f.clone();
        let from = fr.blk;
        let np = f.entry_ip[to as usize];
        if np > 0 {
            let mut vals = vec![];
            for ins in &f.f.blocks[to as usize][..np] {
                if let I::Phi(_, v) = &ins.i {
                    let inc = v.iter().find(|p| p.from == from).expect("phi edge");
                    vals.push((ins.dst.unwrap(), self.val(s, &inc.v)));
                }
            }
            let fr = s.frames.last_mut().unwrap();
            for (d, v) in vals {
                fr.regs[d as usize] = v;
            }
        }
        let fr = s.frames.last_mut().unwrap();
        fr.blk = to;
        fr.ip = np;
    }
    fn enter(&mut self, s: &mut State, f: Rc<LFunc>, args: Vec<Val>, dst: Option<u32>) {
        let mut regs = vec![Val::U; f.f.nregs as usize];
        for ((_, r), v) in f.f.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        if !self.fns_seen.contains(&f.f.name) {
            self.fns_seen.insert(f.f.name.clone());
        }
        let ip = f.entry_ip[0];
        s.frames.push(Frame {
            f,
            blk: 0,
            ip,
            regs,
            allocas: vec![],
            dst,
        });
    }
    fn ret(&mut self, s: &mut State, v: Option<Val>) -> bool {
        let fr = s.frames.pop().unwrap();
        for a in fr.allocas {
            s.mem.objs.remove(&a);
        }
        if s.frames.is_empty() {
            return false;
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            s.frames.last_mut().unwrap().regs[d as usize] = v;
        }
        let fr = s.frames.last_mut().unwrap();
        let lf = fr.f.clone();
        if let I::Call(_, _, _, Some((n, _))) = &lf.f.blocks[fr.blk as usize][fr.ip].i {
            let n = *n;
            self.jump(s, n);
        } else {
            fr.ip += 1;
        }
        true
    }

    fn ipdom(&self, f: &LFunc, b: u32) -> Option<u32> {
        if f.ipdom.borrow().is_none() {
            *f.ipdom.borrow_mut() = Some(compute_ipdom(&f.f));
        }
        f.ipdom.borrow().as_ref().unwrap()[b as usize]
    }

    pub fn explore(&mut self, init: Vec<State>, stop: Option<Stop>) -> Vec<State> {
        let mut work = init;
        let mut out = vec![];
        while let Some(mut s) = work.pop() {
            loop {
                if self.abort {
                    return out;
                }
                if let Some(st) = stop {
                    let d = s.frames.len();
                    if d < st.depth || (d == st.depth && {
                        let fr = s.frames.last().unwrap();
                        fr.blk == st.blk && fr.ip == fr.f.entry_ip[st.blk as usize]
                    }) {
                        out.push(s);
                        break;
                    }
                }
                self.instrs += 1;
                s.instrs += 1;
                if self.instrs & 0xfff == 0 {
                    let t = self.start.elapsed().as_secs_f64();
                    if self.o.trace && t - self.last_print > 5.0 {
                        self.last_print = t;
                        eprintln!(
                            "[{t:.0}s] paths {} pending {} forks {} merges {} instrs {} queries {} (cache {}) solver {:.1}s nodes {} at {}",
                            self.paths, work.len(), self.forks, self.merges, self.instrs, self.z.stats.queries,
                            self.qcache_hits, self.z.stats.time, self.x.nodes.len(), self.here(&s)
                        );
                    }
                    if t > self.o.max_time {
                        self.incon(&s, "limit: time");
                        self.abort = true;
                        return out;
                    }
                }
                if s.instrs > self.o.max_instrs {
                    self.incon(&s, "limit: instructions on one path");
                    self.end(&s, "limit");
                    break;
                }
                if self.paths > self.o.max_paths {
                    self.incon(&s, "limit: paths");
                    self.abort = true;
                    return out;
                }
                match self.step(&mut s) {
                    Ok(Flow::Next) => {}
                    Ok(Flow::End) | Err(Ex::End) => break,
                    Ok(Flow::Fork(mut v)) | Err(Ex::Fork(mut v)) => {
                        match v.pop() {
                            Some(n) => {
                                work.extend(v);
                                s = n;
                            }
                            None => break,
                        }
                    }
                }
            }
        }
        out
    }

    fn step(&mut self, s: &mut State) -> R<Flow> {
        let (f, blk, ip) = {
            let fr = s.frames.last().unwrap();
            (fr.f.clone(), fr.blk, fr.ip)
        };
        let ins = &f.f.blocks[blk as usize][ip];
        if ins.dbg != 0 {
            self.dbg_seen.insert(ins.dbg);
        }
        let v: Val = match &ins.i {
            I::Alloca(t, cnt, al) => {
                let c = self.e(s, cnt);
                let c = self.concretize(s, c, "alloca count")? as u64;
                let a = self.alloc(s, t.size() * c, *al, Kind::Stack);
                s.frames.last_mut().unwrap().allocas.push(a);
                Val::E(self.x.konst(64, a as u128))
            }
            I::Load(t, p) => {
                let a = self.e(s, p);
                self.load(s, t, a)?
            }
            I::Store(t, v, p) => {
                let a = self.e(s, p);
                let v = self.val(s, v);
                self.store(s, t, &v, a)?;
                s.frames.last_mut().unwrap().ip += 1;
                return Ok(Flow::Next);
            }
            I::Gep(bt, p, idx, vecres) => {
                if vecres.is_some() {
                    return Err(self.err(s, "unsupported vector gep"));
                }
                let mut a = self.e(s, p);
                let mut cur = bt.clone();
                for (k, (it, o)) in idx.iter().enumerate() {
                    let i = self.e(s, o);
                    if k == 0 {
                        let sz = cur.size();
                        a = self.gep_add(a, i, it.bits(), sz);
                    } else if let Ty::Struct(..) = cur {
                        let i = self.x.cv(i).expect("struct index").u128() as usize;
                        let off = cur.field_off(i);
                        a = self.addk(a, off);
                        cur = cur.field_ty(i);
                    } else {
                        cur = cur.field_ty(0);
                        let sz = cur.size();
                        a = self.gep_add(a, i, it.bits(), sz);
                    }
                }
                Val::E(a)
            }
            I::Bin(op, t, a, b) => {
                let (a, b) = (self.val(s, a), self.val(s, b));
                self.binop(s, op, t, &a, &b)?
            }
            I::Icmp(p, t, a, b) => {
                let (a, b) = (self.val(s, a), self.val(s, b));
                match t {
                    Ty::Vec(..) => {
                        let (l, r) = (self.lanes(&a), self.lanes(&b));
                        let v = l
                            .iter()
                            .zip(r.iter())
                            .map(|(a, b)| {
                                let (a, b) = (self.ve(a), self.ve(b));
                                Val::E(self.icmp(p, a, b))
                            })
                            .collect();
                        Val::A(Rc::new(v))
                    }
                    _ => {
                        let (a, b) = (self.ve(&a), self.ve(&b));
                        Val::E(self.icmp(p, a, b))
                    }
                }
            }
            I::Fcmp(p, t, a, b) => {
                let (a, b) = (self.e(s, a), self.e(s, b));
                let (a, b) = (self.fval(s, t, a)?, self.fval(s, t, b)?);
                let un = a.is_nan() || b.is_nan();
                let r = match p.as_str() {
                    "oeq" => a == b,
                    "ogt" => a > b,
                    "oge" => a >= b,
                    "olt" => a < b,
                    "ole" => a <= b,
                    "one" => !un && a != b,
                    "ord" => !un,
                    "uno" => un,
                    "ueq" => un || a == b,
                    "ugt" => un || a > b,
                    "uge" => un || a >= b,
                    "ult" => un || a < b,
                    "ule" => un || a <= b,
                    "une" => a != b,
                    _ => false,
                };
                Val::E(self.x.konst(1, r as u128))
            }
            I::Select(ct, c, a, b, _) => {
                let (c, a, b) = (self.val(s, c), self.val(s, a), self.val(s, b));
                if let Ty::Vec(..) = ct {
                    let (c, a, b) = (self.lanes(&c), self.lanes(&a), self.lanes(&b));
                    let v = (0..c.len())
                        .map(|i| {
                            let k = self.ve(&c[i]);
                            self.val_ite(k, &a[i], &b[i])
                        })
                        .collect();
                    Val::A(Rc::new(v))
                } else {
                    let c = self.ve(&c);
                    if self.x.is_true(c) {
                        a
                    } else if self.x.is_false(c) {
                        b
                    } else {
                        self.val_ite(c, &a, &b)
                    }
                }
            }
            I::Phi(..) => panic!("phi executed"),
            I::Cast(op, t, a, t2) => {
                let a = self.val(s, a);
                self.cast(s, op, t, &a, t2)?
            }
            I::ExtractValue(_, a, idx) => {
                let mut v = self.val(s, a);
                for i in idx {
                    v = self.lanes(&v)[*i as usize].clone();
                }
                v
            }
            I::InsertValue(_, a, _, b, idx) => {
                let (a, b) = (self.val(s, a), self.val(s, b));
                insert_at(&a, b, idx)
            }
            I::ExtractElem(_, a, i) => {
                let a = self.val(s, a);
                let l = self.lanes(&a);
                let i = self.e(s, i);
                let i = self.concretize(s, i, "vector index")?;
                l[i as usize].clone()
            }
            I::InsertElem(_, a, e, i) => {
                let a = self.val(s, a);
                let l = self.lanes(&a);
                let e = self.val(s, e);
                let i = self.e(s, i);
                let i = self.concretize(s, i, "vector index")?;
                let mut n = (*l).clone();
                n[i as usize] = e;
                Val::A(Rc::new(n))
            }
            I::Shuffle(t, a, b, mask) => {
                let (a, b) = (self.val(s, a), self.val(s, b));
                let (l, r) = (self.lanes(&a), self.lanes(&b));
                let et = t.field_ty(0);
                let z = self.zero_val(&et);
                let v = mask
                    .iter()
                    .map(|m| match m {
                        None => z.clone(),
                        Some(i) if (*i as usize) < l.len() => l[*i as usize].clone(),
                        Some(i) => r[*i as usize - l.len()].clone(),
                    })
                    .collect();
                Val::A(Rc::new(v))
            }
            I::Br(t) => {
                self.jump(s, *t);
                return Ok(Flow::Next);
            }
            I::CondBr(c, a, b) => {
                let c = self.e(s, c);
                return self.condbr(s, c, *a, *b, &f, blk);
            }
            I::Switch(_, v, d, cases) => {
                let v = self.e(s, v);
                let v = self.simp(s, v);
                if let Some(k) = self.x.cv(v) {
                    let k = k.u128();
                    let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d);
                    self.jump(s, t);
                    return Ok(Flow::Next);
                }
                let w = self.x.w(v);
                let mut by: Vec<(u32, E)> = vec![];
                let mut any = self.x.fals();
                for (k, t) in cases {
                    let kk = self.x.konst(w, *k);
                    let e = self.x.eq(v, kk);
                    any = self.x.or1(any, e);
                    match by.iter_mut().find(|b| b.0 == *t) {
                        Some(b) => b.1 = self.x.or1(b.1, e),
                        None => by.push((*t, e)),
                    }
                }
                let def_unreach = matches!(f.f.blocks[*d as usize].first().map(|i| &i.i), Some(I::Unreachable));
                if !def_unreach {
                    let none = self.x.not(any);
                    match by.iter_mut().find(|b| b.0 == *d) {
                        Some(b) => b.1 = self.x.or1(b.1, none),
                        None => by.push((*d, none)),
                    }
                }
                let conds: Vec<E> = by.iter().map(|b| b.1).collect();
                let mut st: Vec<State> = vec![];
                for (i, mut t) in self.fork_by(&s.clone(), &conds) {
                    self.jump(&mut t, by[i].0);
                    st.push(t);
                }
                if st.is_empty() {
                    self.end(s, "unknown");
                }
                return self.maybe_merge(s, st, &f, blk);
            }
            I::Ret(o) => {
                let v = o.as_ref().map(|(_, o)| self.val(s, o));
                if !self.ret(s, v) {
                    self.end(s, "return");
                    return Ok(Flow::End);
                }
                return Ok(Flow::Next);
            }
            I::Unreachable => {
                let e = self.err(s, "engine: unreachable executed");
                return Err(e);
            }
            I::AtomicRmw(op, t, p, v) => {
                let a = self.e(s, p);
                let old = self.load(s, t, a)?;
                let v = self.e(s, v);
                let oe = self.ve(&old);
                let n = match op.as_str() {
                    "xchg" => v,
                    "add" => self.x.bin(Op::Add, oe, v),
                    "sub" => self.x.bin(Op::Sub, oe, v),
                    "and" => self.x.bin(Op::And, oe, v),
                    "or" => self.x.bin(Op::Or, oe, v),
                    "xor" => self.x.bin(Op::Xor, oe, v),
                    "umax" => {
                        let c = self.x.cmp(Pred::Ult, oe, v);
                        self.x.ite(c, v, oe)
                    }
                    "umin" => {
                        let c = self.x.cmp(Pred::Ult, oe, v);
                        self.x.ite(c, oe, v)
                    }
                    _ => return Err(self.err(s, "unsupported atomicrmw")),
                };
                self.store(s, t, &Val::E(n), a)?;
                old
            }
            I::CmpXchg(t, p, c, n) => {
                let a = self.e(s, p);
                let old = self.load(s, t, a)?;
                let oe = self.ve(&old);
                let (c, n) = (self.e(s, c), self.e(s, n));
                let eq = self.x.eq(oe, c);
                let nv = self.x.ite(eq, n, oe);
                self.store(s, t, &Val::E(nv), a)?;
                Val::A(Rc::new(vec![old, Val::E(eq)]))
            }
            I::Fence => Val::U,
            I::Freeze(_, a) => self.val(s, a),
            I::FNeg(t, a) => {
                let a = self.e(s, a);
                let f = self.fval(s, t, a)?;
                Val::E(self.fconst(t, -f))
            }
            I::Unsupported(u) => return Err(self.err(s, &format!("unsupported instruction {u}"))),
            I::Call(callee, args, ret, inv) => {
                let name: String = match callee {
                    Callee::Direct(n) => n.clone(),
                    Callee::Indirect(o) => {
                        let p = self.e(s, o);
                        let p = self.concretize(s, p, "function pointer")? as u64;
                        match self.m.func_by_addr.get(&p) {
                            Some(n) => n.clone(),
                            None => return Err(self.err(s, &format!("engine: call to {p:#x}"))),
                        }
                    }
                };
                match self.target(&name) {
                    Target::F(lf) => {
                        let av: Vec<Val> = args.iter().map(|(_, o)| self.val(s, o)).collect();
                        if lf.f.params.len() != av.len() {
                            return Err(self.err(s, &format!("engine: arity mismatch calling {name}")));
                        }
                        if s.frames.len() > 4000 {
                            return Err(self.err(s, "limit: recursion"));
                        }
                        // `ret` advances this frame (or takes the normal edge of an invoke)
                        self.enter(s, lf, av, ins.dst);
                        return Ok(Flow::Next);
                    }
                    Target::Missing => {
                        return Err(self.err(s, &format!("unsupported external function {name}")));
                    }
                    Target::B(b) => {
                        let av: Vec<Val> = args.iter().map(|(_, o)| self.val(s, o)).collect();
                        let tys: Vec<&Ty> = args.iter().map(|(t, _)| t).collect();
                        let r = self.call_builtin(s, b, &name, &av, &tys, ret, ins.dst)?;
                        match r {
                            None => return Ok(Flow::Next), // handled (e.g. entered function)
                            Some(v) => {
                                if let Some((n, _)) = inv {
                                    self.set(s, ins.dst, v);
                                    self.jump(s, *n);
                                    return Ok(Flow::Next);
                                }
                                v
                            }
                        }
                    }
                }
            }
        };
        self.set(s, ins.dst, v);
        s.frames.last_mut().unwrap().ip += 1;
        Ok(Flow::Next)
    }

    fn maybe_merge(&mut self, parent: &State, st: Vec<State>, f: &Rc<LFunc>, blk: u32) -> R<Flow> {
        if st.len() < 2 || !parent.merge {
            return Ok(Flow::Fork(st));
        }
        let depth = parent.frames.len();
        let stop = match self.ipdom(f, blk) {
            Some(b) => Stop { depth, blk: b },
            None => return Ok(Flow::Fork(st)),
        };
        // returning past the outermost frame cannot be merged
        if stop.blk == u32::MAX && depth == 1 {
            return Ok(Flow::Fork(st));
        }
        let n0 = parent.pc.len();
        let outs = self.explore(st, Some(stop));
        let merged = self.merge_all(parent, outs, n0);
        Ok(Flow::Fork(merged))
    }

    fn condbr(&mut self, s: &mut State, c: E, a: u32, b: u32, f: &Rc<LFunc>, blk: u32) -> R<Flow> {
        let c = self.simp(s, c);
        if self.x.is_true(c) {
            self.jump(s, a);
            return Ok(Flow::Next);
        }
        if self.x.is_false(c) {
            self.jump(s, b);
            return Ok(Flow::Next);
        }
        let nc = self.x.not(c);
        let mut st = vec![];
        for (i, mut t) in self.fork_by(&s.clone(), &[c, nc]) {
            self.jump(&mut t, if i == 0 { a } else { b });
            st.push(t);
        }
        if st.is_empty() {
            self.end(s, "unknown");
        }
        self.maybe_merge(s, st, f, blk)
    }

    fn merge_all(&mut self, parent: &State, outs: Vec<State>, n0: usize) -> Vec<State> {
        let mut groups: Vec<State> = vec![];
        let mut conds: Vec<E> = vec![];
        for s in outs {
            // suffix condition
            let mut g = self.x.tru();
            for p in &s.pc[n0..] {
                g = self.x.and1(g, *p);
            }
            let mut done = false;
            for i in 0..groups.len() {
                let base = groups[i].clone();
                if let Some(m) = self.merge2(parent, &s, g, &base, conds[i], n0) {
                    groups[i] = m;
                    conds[i] = self.x.or1(conds[i], g);
                    done = true;
                    self.merges += 1;
                    break;
                }
            }
            if !done {
                groups.push(s);
                conds.push(g);
            }
        }
        groups
    }

    fn merge2(&mut self, parent: &State, a: &State, ga: E, b: &State, gb: E, n0: usize) -> Option<State> {
        if a.frames.len() != b.frames.len()
            || a.inputs.len() != b.inputs.len()
            || a.real_fmt != b.real_fmt
            || a.model_div != b.model_div
            || a.expect_panic != b.expect_panic
            || a.merge != b.merge
            || a.nchecks != b.nchecks
            || a.covers.0 != b.covers.0
            || a.covers.1 != b.covers.1
        {
            return None;
        }
        for (x, y) in a.frames.iter().zip(b.frames.iter()) {
            if !Rc::ptr_eq(&x.f, &y.f) || x.blk != y.blk || x.ip != y.ip {
                return None;
            }
        }
        for ((n1, e1), (n2, e2)) in a.inputs.iter().zip(b.inputs.iter()) {
            if n1 != n2 || e1 != e2 {
                return None;
            }
        }
        // memory difference budget
        let mut diff: Vec<u64> = vec![];
        for (k, o) in &a.mem.objs {
            if let Some(p) = b.mem.objs.get(k) {
                if !Rc::ptr_eq(o, p) {
                    if o.size != p.size {
                        return None;
                    }
                    diff.push(*k);
                }
            }
        }
        let mut m = a.clone();
        for (k, o) in &b.mem.objs {
            if !m.mem.objs.contains_key(k) {
                m.mem.objs.insert(*k, o.clone());
            }
        }
        for k in diff {
            let o = a.mem.objs[&k].clone();
            let p = b.mem.objs[&k].clone();
            let mut r = (*o).clone();
            let n = o.len();
            let mut i = 0;
            while i < n {
                if o.byte(i) == p.byte(i) {
                    i += 1;
                    continue;
                }
                // merge a natural run (same expression on each side) to keep words intact
                let run = {
                    let cap = 16.min(n - i);
                    let mut best = 1;
                    for l in [8usize, 4, 2] {
                        if l <= cap && i % l == 0 {
                            best = l;
                            break;
                        }
                    }
                    // prefer whole stored expressions
                    for q in [o.byte(i), p.byte(i)] {
                        if q.e != CONC && q.i == 0 {
                            let bytes = (self.x.w(q.e) / 8) as usize;
                            if bytes > best && i + bytes <= n {
                                best = bytes;
                            }
                        }
                    }
                    best
                };
                let ea = from_bytes(&mut self.x, &o.read(i, run));
                let eb = from_bytes(&mut self.x, &p.read(i, run));
                let e = self.x.ite(ga, ea, eb);
                let mut bs = vec![];
                to_bytes(&mut self.x, e, run, &mut bs);
                r.write(i, &bs);
                i += run;
            }
            m.mem.objs.insert(k, Rc::new(r));
        }
        for fi in 0..m.frames.len() {
            let nr = m.frames[fi].regs.len();
            for r in 0..nr {
                let (va, vb) = (&a.frames[fi].regs[r], &b.frames[fi].regs[r]);
                let same = match (va, vb) {
                    (Val::E(p), Val::E(q)) => p == q,
                    (Val::A(p), Val::A(q)) => Rc::ptr_eq(p, q),
                    (Val::U, Val::U) => true,
                    _ => false,
                };
                if !same {
                    let (va, vb) = (va.clone(), vb.clone());
                    m.frames[fi].regs[r] = self.val_ite(ga, &va, &vb);
                }
            }
            let mut al = a.frames[fi].allocas.clone();
            for z in &b.frames[fi].allocas {
                if !al.contains(z) {
                    al.push(*z);
                }
            }
            m.frames[fi].allocas = al;
        }
        // path condition: common prefix plus the disjunction
        m.pc = parent.pc[..n0].to_vec();
        m.known = parent.known.clone();
        let g = self.x.or1(ga, gb);
        self.add_pc(&mut m, g);
        m.instrs = a.instrs.max(b.instrs);
        m.forks = a.forks.max(b.forks);
        // model of a satisfies the disjunction
        m.model = a.model.clone();
        Some(m)
    }

    fn gep_add(&mut self, a: E, i: E, w: u32, sz: u64) -> E {
        let i = if w < 64 { self.x.sext(i, 64) } else if w > 64 { self.x.extract(i, 0, 64) } else { i };
        let k = self.x.konst(64, sz as u128);
        let o = self.x.bin(Op::Mul, i, k);
        self.x.bin(Op::Add, a, o)
    }

    fn icmp(&mut self, p: &str, a: E, b: E) -> E {
        let x = &mut self.x;
        match p {
            "eq" => x.cmp(Pred::Eq, a, b),
            "ne" => x.ne(a, b),
            "ult" => x.cmp(Pred::Ult, a, b),
            "ule" => x.cmp(Pred::Ule, a, b),
            "ugt" => x.cmp(Pred::Ult, b, a),
            "uge" => x.cmp(Pred::Ule, b, a),
            "slt" => x.cmp(Pred::Slt, a, b),
            "sle" => x.cmp(Pred::Sle, a, b),
            "sgt" => x.cmp(Pred::Slt, b, a),
            "sge" => x.cmp(Pred::Sle, b, a),
            _ => panic!("icmp {p}"),
        }
    }

    fn fval(&mut self, s: &State, t: &Ty, e: E) -> R<f64> {
        let e = self.simp(s, e);
        match self.x.cv(e) {
            Some(v) => Ok(match t {
                Ty::F32 => f32::from_bits(v.u128() as u32) as f64,
                _ => f64::from_bits(v.u128() as u64),
            }),
            None => Err(self.err(s, "unsupported symbolic floating point")),
        }
    }
    fn fconst(&mut self, t: &Ty, f: f64) -> E {
        match t {
            Ty::F32 => self.x.konst(32, (f as f32).to_bits() as u128),
            _ => self.x.konst(64, f.to_bits() as u128),
        }
    }

    fn binop(&mut self, s: &mut State, op: &str, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vec(_, et) = t {
            let (l, r) = (self.lanes(a), self.lanes(b));
            let mut v = vec![];
            for (p, q) in l.iter().zip(r.iter()) {
                v.push(self.binop(s, op, et, p, q)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let (p, q) = (self.ve(a), self.ve(b));
        if op.starts_with('f') {
            let (x, y) = (self.fval(s, t, p)?, self.fval(s, t, q)?);
            let r = match op {
                "fadd" => x + y,
                "fsub" => x - y,
                "fmul" => x * y,
                "fdiv" => x / y,
                _ => x % y,
            };
            return Ok(Val::E(self.fconst(t, r)));
        }
        let o = match op {
            "add" => Op::Add,
            "sub" => Op::Sub,
            "mul" => Op::Mul,
            "udiv" => Op::UDiv,
            "sdiv" => Op::SDiv,
            "urem" => Op::URem,
            "srem" => Op::SRem,
            "shl" => Op::Shl,
            "lshr" => Op::LShr,
            "ashr" => Op::AShr,
            "and" => Op::And,
            "or" => Op::Or,
            "xor" => Op::Xor,
            _ => panic!("op {op}"),
        };
        let mut p = p;
        // a difference that the path keeps from wrapping is no larger than the minuend
        if matches!(o, Op::UDiv | Op::URem) && self.x.w(p) >= 32 && self.x.cv(p).is_none() {
            let x = match *self.x.n(p) {
                N::Bin(Op::Sub, x, _) => Some(x),
                N::Bin(Op::Add, x, k) if self.x.cv(k).is_some() => Some(x),
                _ => None,
            };
            let w = self.x.w(p);
            if let Some(m) = x.and_then(|x| self.x.ub(x)) {
                let bits = 128 - m.leading_zeros();
                if bits < w / 2 && self.x.ub(p).map_or(true, |u| u > m) {
                    let k = self.x.konst(w, m);
                    let over = self.x.cmp(Pred::Ult, k, p);
                    if matches!(self.feasible(s, over), Res3::No) {
                        let lo = self.x.extract(p, 0, bits.max(1));
                        p = self.x.zext(lo, w);
                    }
                }
            }
        }
        Ok(Val::E(self.x.bin(o, p, q)))
    }

    fn cast(&mut self, s: &mut State, op: &str, t: &Ty, a: &Val, t2: &Ty) -> R<Val> {
        if op == "bitcast" {
            let e = self.to_bits(t, a);
            return Ok(self.from_bits(t2, e));
        }
        if let Ty::Vec(_, et) = t {
            let et2 = t2.field_ty(0);
            let l = self.lanes(a);
            let mut v = vec![];
            for p in l.iter() {
                v.push(self.cast(s, op, et, p, &et2)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let e = self.ve(a);
        let (w, w2) = (bvw(t), bvw(t2));
        Ok(Val::E(match op {
            "trunc" => self.x.extract(e, 0, w2),
            "zext" => self.x.zext(e, w2),
            "sext" => self.x.sext(e, w2),
            "ptrtoint" | "inttoptr" | "addrspacecast" | "ptrtoaddr" => {
                if w2 < w {
                    self.x.extract(e, 0, w2)
                } else {
                    self.x.zext(e, w2)
                }
            }
            "uitofp" => {
                let e = self.simp(s, e);
                match self.x.cv(e) {
                    Some(v) => {
                        let f = v.u128() as f64;
                        self.fconst(t2, f)
                    }
                    None => return Err(self.err(s, "unsupported symbolic floating point")),
                }
            }
            "sitofp" => {
                let e = self.simp(s, e);
                match self.x.cv(e) {
                    Some(v) => {
                        let v = eval_sext(w, v, 128).u128() as i128;
                        self.fconst(t2, v as f64)
                    }
                    None => return Err(self.err(s, "unsupported symbolic floating point")),
                }
            }
            "fptoui" => {
                let f = self.fval(s, t, e)?;
                self.x.konst(w2, f as u128)
            }
            "fptosi" => {
                let f = self.fval(s, t, e)?;
                self.x.konst(w2, (f as i128) as u128)
            }
            "fpext" | "fptrunc" => {
                let f = self.fval(s, t, e)?;
                self.fconst(t2, f)
            }
            _ => return Err(self.err(s, &format!("unsupported cast {op}"))),
        }))
    }

    fn memcpy(&mut self, s: &mut State, d: E, p: E, n: E) -> R<()> {
        let n = self.concretize(s, n, "copy length")? as u64;
        if n == 0 {
            return Ok(());
        }
        // guarded sources when the source pointer is a small choice
        let dst = self.concretize(s, d, "copy destination")? as u64;
        let src = self.resolve(s, p, n)?;
        if src.len() == 1 {
            let bs = self.read_bytes(s, src[0].1, n)?;
            return self.write_bytes(s, dst, &bs);
        }
        if src.len() > 16 {
            let src = self.concretize(s, p, "copy source")? as u64;
            let bs = self.read_bytes(s, src, n)?;
            return self.write_bytes(s, dst, &bs);
        }
        let mut acc: Option<Vec<E>> = None;
        for (g, a) in src.iter().rev() {
            let bs = self.read_bytes(s, *a, n)?;
            let es: Vec<E> = chunks(&mut self.x, &bs);
            acc = Some(match acc {
                None => es,
                Some(o) => o.iter().zip(es.iter()).map(|(o, e)| self.x.ite(*g, *e, *o)).collect(),
            });
        }
        let mut out = vec![];
        for e in acc.unwrap() {
            let w = self.x.w(e) / 8;
            to_bytes(&mut self.x, e, w as usize, &mut out);
        }
        self.write_bytes(s, dst, &out)
    }

    fn sym_var(&mut self, name: &str, w: u32) -> E {
        // same name + occurrence on different paths shares the variable
        let k = (name.to_string(), w);
        if let Some(e) = self.var_pool.get(&k) {
            return *e;
        }
        let e = self.x.new_var(name, w);
        self.var_pool.insert(k, e);
        self.var_count += 1;
        e
    }

    fn do_panic(&mut self, s: &mut State, msg: &str) -> Ex {
        if s.expect_panic {
            self.end(s, "expected-panic");
            *self.covers.entry("expected-panic".into()).or_default() += 1;
            return Ex::End;
        }
        let m = s.model.clone();
        self.violation(s, "panic", msg, &m);
        self.end(s, "panic");
        Ex::End
    }

    fn check(&mut self, s: &mut State, c: E, msg: &str) -> R<()> {
        s.nchecks += 1;
        let ent = self.checks.entry(msg.to_string()).or_default();
        ent.0 += 1;
        let c = self.simp(s, c);
        if self.x.is_true(c) {
            return Ok(());
        }
        let nc = self.x.not(c);
        match self.feasible(s, nc) {
            Res3::No => {
                self.checks.get_mut(msg).unwrap().1 += 1;
                Ok(())
            }
            Res3::Unknown => {
                self.incon(s, &format!("solver gave no answer on check \"{msg}\""));
                // continue under the checked condition when that is known to be possible
                match self.feasible(s, c) {
                    Res3::Yes(m) => {
                        s.model = m;
                        self.add_pc(s, c);
                        Ok(())
                    }
                    _ => {
                        self.end(s, "unknown");
                        Err(Ex::End)
                    }
                }
            }
            Res3::Yes(m) => {
                self.violation(s, "check", msg, &m);
                match self.feasible(s, c) {
                    Res3::Yes(m) => {
                        s.model = m;
                        self.add_pc(s, c);
                        Ok(())
                    }
                    _ => {
                        self.end(s, "violated");
                        Err(Ex::End)
                    }
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn call_builtin(
        &mut self,
        s: &mut State,
        b: B,
        name: &str,
        a: &[Val],
        tys: &[&Ty],
        ret: &Ty,
        dst: Option<u32>,
    ) -> R<Option<Val>> {
        let arg = |i: usize| -> E {
            match &a[i] {
                Val::E(e) => *e,
                _ => panic!("builtin arg of {name}"),
            }
        };
        let r = match b {
            B::Alloc | B::AllocZ | B::Malloc => {
                let n = self.concretize(s, arg(0), "allocation size")? as u64;
                if n > 1 << 28 {
                    return Err(self.err(s, "limit: allocation larger than 256 MiB"));
                }
                let al = if b == B::Malloc || a.len() < 2 { 16 } else { self.concretize(s, arg(1), "alignment")? as u64 };
                let p = self.alloc(s, n, al, Kind::Heap);
                Val::E(self.x.konst(64, p as u128))
            }
            B::Calloc => {
                let n = self.concretize(s, arg(0), "allocation size")? as u64;
                let m = self.concretize(s, arg(1), "allocation size")? as u64;
                let p = self.alloc(s, n * m, 16, Kind::Heap);
                Val::E(self.x.konst(64, p as u128))
            }
            B::Dealloc | B::Free => {
                let mut targets = vec![];
                let p = self.simp(s, arg(0));
                let t = self.x.tru();
                if self.leaves(p, t, 0, &mut targets, 16) && targets.len() > 1 {
                    // conditional free: keep the objects (only loses use-after-free detection)
                    Val::U
                } else {
                    let p = self.concretize(s, arg(0), "freed pointer")? as u64;
                    if p != 0 {
                        match s.mem.objs.get(&p) {
                            Some(o) if o.kind == Kind::Heap => {
                                s.mem.objs.remove(&p);
                            }
                            _ => return Err(self.err(s, "engine: invalid free")),
                        }
                    }
                    Val::U
                }
            }
            B::Realloc | B::CRealloc => {
                let p = self.concretize(s, arg(0), "realloc pointer")? as u64;
                let ns = if b == B::Realloc { arg(3) } else { arg(1) };
                let n = self.concretize(s, ns, "allocation size")? as u64;
                if n > 1 << 28 {
                    return Err(self.err(s, "limit: allocation larger than 256 MiB"));
                }
                let al = if b == B::Realloc { self.concretize(s, arg(2), "alignment")? as u64 } else { 16 };
                let q = self.alloc(s, n, al, Kind::Heap);
                if p != 0 {
                    let old = match s.mem.objs.get(&p) {
                        Some(o) => o.clone(),
                        None => return Err(self.err(s, "engine: invalid realloc")),
                    };
                    let k = old.size.min(n) as usize;
                    let bs = old.read(0, k);
                    self.write_bytes(s, q, &bs)?;
                    s.mem.objs.remove(&p);
                }
                Val::E(self.x.konst(64, q as u128))
            }
            B::PosixMemalign => {
                let n = self.concretize(s, arg(2), "allocation size")? as u64;
                let al = self.concretize(s, arg(1), "alignment")? as u64;
                let q = self.alloc(s, n, al, Kind::Heap);
                let k = self.x.konst(64, q as u128);
                self.store_bits(s, arg(0), k)?;
                Val::E(self.x.konst(32, 0))
            }
            B::Panic => {
                let mut msg = format!("panic via {}", short_name(name));
                // core::panicking::panic(msg: &str, ..)
                if (name.ends_with("9panicking5panic") || name.ends_with("13expect_failed")) && a.len() >= 2 {
                    if let (Val::E(p), Val::E(n)) = (&a[0], &a[1]) {
                        if let Ok(t) = self.read_str(s, *p, *n) {
                            msg = t;
                        }
                    }
                }
                return Err(self.do_panic(s, &msg));
            }
            B::FmtWrite => {
                if s.real_fmt {
                    let t = match self.m.func(name, 0) {
                        Some(f) => {
                            let key = format!("{name}#real");
                            match self.funcs.get(&key) {
                                Some(Target::F(l)) => l.clone(),
                                _ => {
                                    let l = Rc::new(self.lower(f));
                                    self.funcs.insert(key, Target::F(l.clone()));
                                    l
                                }
                            }
                        }
                        None => return Err(self.err(s, "unsupported: fmt::write missing")),
                    };
                    self.enter(s, t, a.to_vec(), dst);
                    return Ok(None);
                }
                self.zero_val(ret)
            }
            B::RetVoid => Val::U,
            B::RetZero => self.zero_val(ret),
            B::Errno => {
                let q = self.alloc(s, 8, 16, Kind::Heap);
                Val::E(self.x.konst(64, q as u128))
            }
            // the operating system's random bytes: one fixed stream
            B::Getrandom | B::Syscall => {
                let w = ret.bits();
                let (buf, len) = if name == "getrandom" {
                    (arg(0), arg(1))
                } else {
                    let nr = self.concretize(s, arg(0), "system call number")?;
                    if nr as u64 != 318 {
                        return Ok(Some(self.zero_val(ret)));
                    }
                    (arg(1), arg(2))
                };
                let n = self.concretize(s, len, "random length")? as u64;
                if n > 0 {
                    let a = self.concretize(s, buf, "random buffer")? as u64;
                    let bs: Vec<SB> = (0..n).map(|i| SB { e: CONC, i: ((i as u8).wrapping_mul(151) ^ 0x5c) as u32 }).collect();
                    self.write_bytes(s, a, &bs)?;
                }
                Val::E(self.x.konst(w, n as u128))
            }
            B::WriteFd => Val::E(arg(2)),
            B::Memcmp => {
                let n = self.concretize(s, arg(2), "compare length")? as u64;
                if n == 0 {
                    self.zero_val(ret)
                } else {
                    let t1 = self.resolve(s, arg(0), n)?;
                    let t2 = self.resolve(s, arg(1), n)?;
                    let e1 = self.read_choice(s, &t1, n)?;
                    let e2 = self.read_choice(s, &t2, n)?;
                    let w = ret.bits();
                    let one = self.x.konst(w, 1);
                    let zero = self.x.konst(w, 0);
                    if name == "bcmp" {
                        let l: Vec<E> = e1.iter().zip(e2.iter()).map(|(p, q)| self.x.eq(*p, *q)).collect();
                        let mut c = self.x.tru();
                        for k in l {
                            c = self.x.and1(c, k);
                        }
                        Val::E(self.x.ite(c, zero, one))
                    } else {
                        // lexicographic: compare byte-reversed chunks
                        let mut r = zero;
                        let m1 = self.x.kv(w, V::ones(w));
                        for (p, q) in e1.iter().zip(e2.iter()).rev() {
                            let (rp, rq) = (self.bswap(*p), self.bswap(*q));
                            let eq = self.x.eq(rp, rq);
                            let lt = self.x.cmp(Pred::Ult, rp, rq);
                            let d = self.x.ite(lt, m1, one);
                            r = self.x.ite(eq, r, d);
                        }
                        Val::E(r)
                    }
                }
            }
            B::Strlen => {
                let p = self.concretize(s, arg(0), "string")? as u64;
                let mut n = 0u64;
                loop {
                    let bs = self.read_bytes(s, p + n, 1)?;
                    if bs[0].e != CONC {
                        return Err(self.err(s, "unsupported symbolic strlen"));
                    }
                    if bs[0].i == 0 {
                        break;
                    }
                    n += 1;
                }
                Val::E(self.x.konst(64, n as u128))
            }
            B::SymInt => {
                let w: u32 = name[7..].parse().unwrap();
                let nm = self.read_str(s, arg(0), arg(1))?;
                let nm = format!("{}#{nm}", s.inputs.len());
                let e = self.sym_var(&nm, w);
                Rc::make_mut(&mut s.inputs).push((nm, e));
                let rw = ret.bits();
                Val::E(self.x.zext(e, rw))
            }
            B::SymBytes => {
                let nm = self.read_str(s, arg(0), arg(1))?;
                let p = self.concretize(s, arg(2), "buffer")? as u64;
                let n = self.concretize(s, arg(3), "buffer length")? as u64;
                let mut bs = vec![];
                for _ in 0..n {
                    let k = format!("{}#{nm}", s.inputs.len());
                    let e = self.sym_var(&k, 8);
                    Rc::make_mut(&mut s.inputs).push((k, e));
                    bs.push(SB { e, i: 0 });
                }
                if n > 0 {
                    self.write_bytes(s, p, &bs)?;
                }
                Val::U
            }
            B::SymAssume => {
                let c = self.x.extract(arg(0), 0, 1);
                let c = self.simp(s, c);
                match self.feasible(s, c) {
                    Res3::Yes(m) => {
                        s.model = m;
                        self.add_pc(s, c);
                    }
                    Res3::No => {
                        self.end(s, "assumption");
                        return Err(Ex::End);
                    }
                    Res3::Unknown => {
                        self.incon(s, "solver gave no answer on an assumption");
                        self.end(s, "unknown");
                        return Err(Ex::End);
                    }
                }
                Val::U
            }
            B::SymCheck => {
                let msg = self.read_str(s, arg(1), arg(2))?;
                let c = self.x.extract(arg(0), 0, 1);
                self.check(s, c, &msg)?;
                Val::U
            }
            B::SymFail => {
                let msg = self.read_str(s, arg(0), arg(1))?;
                let f = self.x.fals();
                self.check(s, f, &msg)?;
                Val::U
            }
            B::SymCover => {
                let msg = self.read_str(s, arg(1), arg(2))?;
                let c = self.x.extract(arg(0), 0, 1);
                let c = self.simp(s, c);
                if self.x.is_true(c) {
                    s.covers.0 += 1;
                    *self.covers.entry(msg).or_default() += 1;
                } else if self.x.is_false(c) {
                } else {
                    s.covers.1.push(c);
                    if self.covers.contains_key(&msg) {
                    } else if let Res3::Yes(_) = self.feasible(s, c) {
                        *self.covers.entry(msg).or_default() += 1;
                    }
                }
                Val::U
            }
            B::SymTrace => {
                let msg = self.read_str(s, arg(0), arg(1))?;
                if self.o.trace {
                    let e = arg(2);
                    eprintln!("trace {msg}: {}", self.show(e, 4));
                }
                Val::U
            }
            B::SymConc => {
                let v = self.concretize(s, arg(0), "requested value")?;
                Val::E(self.x.konst(64, v))
            }
            B::SymMerge => {
                let v = self.concretize(s, arg(0), "merge flag")?;
                s.merge = v & 1 != 0;
                Val::U
            }
            B::SymRealFmt => {
                let v = self.concretize(s, arg(0), "flag")?;
                s.real_fmt = v & 1 != 0;
                Val::U
            }
            B::SymSetModelDiv => {
                let v = self.concretize(s, arg(0), "flag")?;
                s.model_div = v & 1 != 0;
                Val::U
            }
            B::SymModelDiv => {
                let v = s.model_div as u128;
                Val::E(self.x.konst(ret.bits(), v))
            }
            // (a, b, q, r, words): q = a / b, r = a % b; b is not zero
            B::SymDivRem => {
                let n = self.concretize(s, arg(4), "width")? as u32;
                let a = self.load_bits(s, arg(0), 64 * n)?;
                let b = self.load_bits(s, arg(1), 64 * n)?;
                let w = 64 * n;
                let k = match (self.x.ub(a), self.x.ub(b)) {
                    (Some(p), Some(q)) => (128 - (p | q).leading_zeros()).max(1),
                    _ => w - self.x.lz(a).min(self.x.lz(b)).min(w - 1),
                };
                let (x, y) = (self.x.extract(a, 0, k), self.x.extract(b, 0, k));
                let q = self.x.bin(Op::UDiv, x, y);
                let r = self.x.bin(Op::URem, x, y);
                let (q, r) = (self.x.zext(q, w), self.x.zext(r, w));
                self.store_bits(s, arg(2), q)?;
                self.store_bits(s, arg(3), r)?;
                Val::U
            }
            // (kind, a, b, out, out2, words)
            B::SymUint => {
                let kind = self.concretize(s, arg(0), "kind")?;
                let n = self.concretize(s, arg(5), "width")? as u32;
                let w = 64 * n;
                let a = self.load_bits(s, arg(1), w)?;
                let rw = ret.bits();
                let mut res = self.x.konst(rw, 0);
                match kind {
                    // shifts, by a concrete amount
                    4 | 5 => {
                        let k = self.concretize(s, arg(2), "shift")?.min(w as u128 - 1) as u32;
                        let z = self.x.konst(k.max(1), 0);
                        let r = if k == 0 {
                            a
                        } else if kind == 4 {
                            let l = self.x.extract(a, 0, w - k);
                            self.x.concat(l, z)
                        } else {
                            let h = self.x.extract(a, k, w - k);
                            self.x.zext(h, w)
                        };
                        self.store_bits(s, arg(3), r)?;
                    }
                    _ => {
                        let b = self.load_bits(s, arg(2), w)?;
                        let (ba, bb) = (w - self.x.lz(a).min(w - 1), w - self.x.lz(b).min(w - 1));
                        let k = ba.max(bb);
                        match kind {
                            // multiplication into low and high
                            0 => {
                                let (ta, tb) = (self.x.tz(a).min(ba - 1), self.x.tz(b).min(bb - 1));
                                let (ka, kb) = (ba - ta, bb - tb);
                                let x = self.x.extract(a, ta, ka);
                                let y = self.x.extract(b, tb, kb);
                                let (x, y) = (self.x.zext(x, ka + kb), self.x.zext(y, ka + kb));
                                let m = self.x.bin(Op::Mul, x, y);
                                let m = if ta + tb > 0 {
                                    let z = self.x.konst(ta + tb, 0);
                                    self.x.concat(m, z)
                                } else {
                                    m
                                };
                                let m = self.x.zext(m, 2 * w);
                                let (lo, hi) = (self.x.extract(m, 0, w), self.x.extract(m, w, w));
                                self.store_bits(s, arg(3), lo)?;
                                self.store_bits(s, arg(4), hi)?;
                            }
                            // addition with a carry in (at arg 4), carry returned
                            1 => {
                                let c = self.load_bits(s, arg(4), 8)?;
                                let c = self.x.extract(c, 0, 1);
                                let kk = k + 1;
                                let (x, y) = (self.x.extract(a, 0, k), self.x.extract(b, 0, k));
                                let (x, y, c) = (self.x.zext(x, kk), self.x.zext(y, kk), self.x.zext(c, kk));
                                let t = self.x.bin(Op::Add, x, y);
                                let t = self.x.bin(Op::Add, t, c);
                                let t = self.x.zext(t, w + 1);
                                let r = self.x.extract(t, 0, w);
                                self.store_bits(s, arg(3), r)?;
                                let c = self.x.extract(t, w, 1);
                                res = self.x.zext(c, rw);
                            }
                            // wrapping subtraction
                            2 => {
                                let kk = (k + 1).min(w);
                                let (x, y) = (self.x.extract(a, 0, kk), self.x.extract(b, 0, kk));
                                let t = self.x.bin(Op::Sub, x, y);
                                let r = if kk < w { self.x.sext(t, w) } else { t };
                                self.store_bits(s, arg(3), r)?;
                            }
                            // comparison: 0, 1 or 2
                            _ => {
                                let lt = self.x.cmp(Pred::Ult, a, b);
                                let eq = self.x.cmp(Pred::Eq, a, b);
                                let (k0, k1, k2) = (self.x.konst(rw, 0), self.x.konst(rw, 1), self.x.konst(rw, 2));
                                let t = self.x.ite(eq, k1, k2);
                                res = self.x.ite(lt, k0, t);
                            }
                        }
                    }
                }
                Val::E(res)
            }
            B::SymExpectPanic => {
                let v = self.concretize(s, arg(0), "flag")?;
                s.expect_panic = v & 1 != 0;
                Val::U
            }
            B::SymIsSym => {
                let w = ret.bits();
                Val::E(self.x.konst(w, 1))
            }
            B::SymIte => {
                let c = self.x.extract(arg(0), 0, 1);
                Val::E(self.x.ite(c, arg(1), arg(2)))
            }
            B::Llvm => self.llvm(s, name, a, tys, ret)?,
        };
        Ok(Some(r))
    }

    fn read_choice(&mut self, s: &mut State, t: &[(E, u64)], n: u64) -> R<Vec<E>> {
        let mut acc: Option<Vec<E>> = None;
        for (g, a) in t.iter().rev() {
            let bs = self.read_bytes(s, *a, n)?;
            let es = chunks(&mut self.x, &bs);
            acc = Some(match acc {
                None => es,
                Some(o) => o.iter().zip(es.iter()).map(|(o, e)| self.x.ite(*g, *e, *o)).collect(),
            });
        }
        Ok(acc.unwrap())
    }

    fn bswap(&mut self, e: E) -> E {
        let n = self.x.w(e) / 8;
        let mut r = self.x.extract(e, 0, 8);
        for k in 1..n {
            let b = self.x.extract(e, k * 8, 8);
            r = self.x.concat(r, b);
        }
        r
    }
    fn ctlz(&mut self, e: E) -> E {
        let w = self.x.w(e);
        let mut r = self.x.konst(w, w as u128);
        for i in 0..w {
            // from low bit to high: highest set bit wins
            let b = self.x.extract(e, i, 1);
            let k = self.x.konst(w, (w - 1 - i) as u128);
            r = self.x.ite(b, k, r);
        }
        r
    }
    fn cttz(&mut self, e: E) -> E {
        let w = self.x.w(e);
        let mut r = self.x.konst(w, w as u128);
        for i in (0..w).rev() {
            let b = self.x.extract(e, i, 1);
            let k = self.x.konst(w, i as u128);
            r = self.x.ite(b, k, r);
        }
        r
    }
    fn ctpop(&mut self, e: E) -> E {
        let w = self.x.w(e);
        let mut r = self.x.konst(w, 0);
        for i in 0..w {
            let b = self.x.extract(e, i, 1);
            let k = self.x.zext(b, w);
            r = self.x.bin(Op::Add, r, k);
        }
        r
    }

    fn llvm(&mut self, s: &mut State, name: &str, a: &[Val], tys: &[&Ty], ret: &Ty) -> R<Val> {
        let base = &name[5..];
        // vector forms of element-wise intrinsics
        if let Ty::Vec(_, et) = ret {
            let ew = ["umin.", "umax.", "smin.", "smax.", "abs.", "bswap.", "ctpop.", "ctlz.", "cttz.", "fshl.", "fshr.", "bitreverse.", "uadd.sat.", "usub.sat.", "sadd.sat.", "ssub.sat."];
            if ew.iter().any(|p| base.starts_with(p)) {
                let n = ret.n_fields();
                let mut v = vec![];
                for i in 0..n {
                    let args: Vec<Val> = a
                        .iter()
                        .map(|x| match x {
                            Val::A(l) => l[i].clone(),
                            o => o.clone(),
                        })
                        .collect();
                    let ts: Vec<Ty> = tys.iter().map(|t| if let Ty::Vec(_, e) = t { (**e).clone() } else { (*t).clone() }).collect();
                    let tr: Vec<&Ty> = ts.iter().collect();
                    let et = (**et).clone();
                    v.push(self.llvm(s, name, &args, &tr, &et)?);
                }
                return Ok(Val::A(Rc::new(v)));
            }
        }
        let arg = |i: usize| -> E {
            match &a[i] {
                Val::E(e) => *e,
                _ => panic!("intrinsic arg of {name}"),
            }
        };
        let pre = |p: &str| base.starts_with(p);
        if pre("lifetime.") || pre("dbg.") || pre("experimental.noalias") || pre("assume") || pre("donothing") || pre("prefetch") || pre("invariant.") || pre("sideeffect") || pre("stackrestore") || pre("va_") {
            return Ok(match ret {
                Ty::Void => Val::U,
                t => {
                    let t = (*t).clone();
                    self.zero_val(&t)
                }
            });
        }
        if pre("memcpy.") || pre("memmove.") {
            self.memcpy(s, arg(0), arg(1), arg(2))?;
            return Ok(Val::U);
        }
        if pre("memset.") {
            let n = self.concretize(s, arg(2), "memset length")? as usize;
            if n > 0 {
                let d = self.concretize(s, arg(0), "memset destination")? as u64;
                let mut b = vec![];
                to_bytes(&mut self.x, arg(1), 1, &mut b);
                let bs = vec![b[0]; n];
                self.write_bytes(s, d, &bs)?;
            }
            return Ok(Val::U);
        }
        if pre("threadlocal.address") || pre("launder.") || pre("strip.invariant") || pre("expect.") || pre("ssa.copy") || pre("protected") {
            return Ok(a[0].clone());
        }
        if pre("load.relative.") {
            let off = if self.x.w(arg(1)) == 64 { arg(1) } else { self.x.sext(arg(1), 64) };
            let at = self.x.bin(Op::Add, arg(0), off);
            let v = self.load_bits(s, at, 32)?;
            let v = self.x.sext(v, 64);
            return Ok(Val::E(self.x.bin(Op::Add, arg(0), v)));
        }
        if pre("is.constant") {
            return Ok(Val::E(self.x.fals()));
        }
        if pre("trap") || pre("ubsantrap") || pre("debugtrap") {
            return Err(self.do_panic(s, "abort/trap"));
        }
        if pre("stacksave") {
            return Ok(Val::E(self.x.konst(64, 0)));
        }
        if pre("x86.") || pre("objectsize") {
            if pre("x86.sse2.pmovmskb") {
                let l = self.lanes(&a[0]);
                let mut r: Option<E> = None;
                for v in l.iter() {
                    let e = self.ve(v);
                    let b = self.x.extract(e, 7, 1);
                    r = Some(match r {
                        None => b,
                        Some(lo) => self.x.concat(b, lo),
                    });
                }
                return Ok(Val::E(self.x.zext(r.unwrap(), 32)));
            }
            if pre("x86.sse2.pause") || pre("x86.cpuid") || pre("x86.xgetbv") {
                return Ok(self.zero_val(ret));
            }
            if pre("x86.addcarry.") || pre("x86.subborrow.") {
                // {i8, iN} (i8 c, iN a, iN b)
                let w = self.x.w(arg(1));
                let z8 = self.x.konst(8, 0);
                let cz = self.x.ne(arg(0), z8);
                let c = self.x.zext(cz, w + 1);
                let (p, q) = (self.x.zext(arg(1), w + 1), self.x.zext(arg(2), w + 1));
                let r = if pre("x86.addcarry.") {
                    let t = self.x.bin(Op::Add, p, q);
                    self.x.bin(Op::Add, t, c)
                } else {
                    let t = self.x.bin(Op::Sub, p, q);
                    self.x.bin(Op::Sub, t, c)
                };
                let co = self.x.extract(r, w, 1);
                let lo = self.x.extract(r, 0, w);
                let co = self.x.zext(co, 8);
                return Ok(Val::A(Rc::new(vec![Val::E(co), Val::E(lo)])));
            }
            return Err(self.err(s, &format!("unsupported intrinsic {name}")));
        }
        if base.contains(".with.overflow.") {
            let (p, q) = (arg(0), arg(1));
            let w = self.x.w(p);
            let op = &base[..4];
            let (r, o) = match op {
                "uadd" => {
                    let r = self.x.bin(Op::Add, p, q);
                    let o = self.x.cmp(Pred::Ult, r, p);
                    // canonical form: overflow iff p > MAX - q
                    let o = if let Some(k) = self.x.cv(q).cloned() {
                        let lim = eval_op(Op::Sub, w, &V::ones(w), &k);
                        let kl = self.x.kv(w, lim);
                        self.x.cmp(Pred::Ult, kl, p)
                    } else if let Some(k) = self.x.cv(p).cloned() {
                        let lim = eval_op(Op::Sub, w, &V::ones(w), &k);
                        let kl = self.x.kv(w, lim);
                        self.x.cmp(Pred::Ult, kl, q)
                    } else {
                        let (p1, q1) = (self.x.zext(p, w + 1), self.x.zext(q, w + 1));
                        if self.x.lz(p) > 0 && self.x.lz(q) > 0 {
                            self.x.fals()
                        } else {
                            let _ = (p1, q1, o);
                            let nq = self.x.not(q);
                            self.x.cmp(Pred::Ult, nq, p)
                        }
                    };
                    (r, o)
                }
                "usub" => {
                    let r = self.x.bin(Op::Sub, p, q);
                    let o = self.x.cmp(Pred::Ult, p, q);
                    (r, o)
                }
                "sadd" => {
                    let r = self.x.bin(Op::Add, p, q);
                    let (sp, sq, sr) = (self.x.extract(p, w - 1, 1), self.x.extract(q, w - 1, 1), self.x.extract(r, w - 1, 1));
                    let same = self.x.eq(sp, sq);
                    let dif = self.x.ne(sp, sr);
                    (r, self.x.and1(same, dif))
                }
                "ssub" => {
                    let r = self.x.bin(Op::Sub, p, q);
                    let (sp, sq, sr) = (self.x.extract(p, w - 1, 1), self.x.extract(q, w - 1, 1), self.x.extract(r, w - 1, 1));
                    let d1 = self.x.ne(sp, sq);
                    let d2 = self.x.ne(sp, sr);
                    (r, self.x.and1(d1, d2))
                }
                "umul" => {
                    let r = self.x.bin(Op::Mul, p, q);
                    let o = self.x.mulovf(p, q);
                    (r, o)
                }
                "smul" => {
                    let r = self.x.bin(Op::Mul, p, q);
                    let o = self.x.smulovf(p, q);
                    (r, o)
                }
                _ => return Err(self.err(s, &format!("unsupported intrinsic {name}"))),
            };
            return Ok(Val::A(Rc::new(vec![Val::E(r), Val::E(o)])));
        }
        if base.contains(".sat.") {
            let (p, q) = (arg(0), arg(1));
            let w = self.x.w(p);
            let ones = self.x.kv(w, V::ones(w));
            let zero = self.x.konst(w, 0);
            let e = if pre("uadd.sat") {
                let r = self.x.bin(Op::Add, p, q);
                let nq = self.x.not(q);
                let o = self.x.cmp(Pred::Ult, nq, p);
                self.x.ite(o, ones, r)
            } else if pre("usub.sat") {
                let r = self.x.bin(Op::Sub, p, q);
                let o = self.x.cmp(Pred::Ult, p, q);
                self.x.ite(o, zero, r)
            } else if pre("sadd.sat") || pre("ssub.sat") {
                let add = pre("sadd");
                let (p1, q1) = (self.x.sext(p, w + 1), self.x.sext(q, w + 1));
                let r1 = self.x.bin(if add { Op::Add } else { Op::Sub }, p1, q1);
                let sgn = self.x.extract(r1, w, 1);
                let s2 = self.x.extract(r1, w - 1, 1);
                let o = self.x.ne(sgn, s2);
                let lo = self.x.extract(r1, 0, w);
                let one = self.x.konst(w, 1);
                let sh = self.x.konst(w, (w - 1) as u128);
                let min = self.x.bin(Op::Shl, one, sh);
                let max = self.x.not(min);
                let sat = self.x.ite(sgn, min, max);
                self.x.ite(o, sat, lo)
            } else {
                return Err(self.err(s, &format!("unsupported intrinsic {name}")));
            };
            return Ok(Val::E(e));
        }
        let mm = |x: &mut Ctx, p: Pred, a: E, b: E| {
            let c = x.cmp(p, a, b);
            x.ite(c, a, b)
        };
        if pre("vector.reduce.") {
            let l = self.lanes(&a[a.len() - 1]);
            let mut r = self.ve(&l[0]);
            for v in l.iter().skip(1) {
                let e = self.ve(v);
                r = if pre("vector.reduce.add") {
                    self.x.bin(Op::Add, r, e)
                } else if pre("vector.reduce.mul") {
                    self.x.bin(Op::Mul, r, e)
                } else if pre("vector.reduce.and") {
                    self.x.bin(Op::And, r, e)
                } else if pre("vector.reduce.or") {
                    self.x.bin(Op::Or, r, e)
                } else if pre("vector.reduce.xor") {
                    self.x.bin(Op::Xor, r, e)
                } else if pre("vector.reduce.umax") {
                    mm(&mut self.x, Pred::Ult, e, r)
                } else if pre("vector.reduce.umin") {
                    mm(&mut self.x, Pred::Ult, r, e)
                } else {
                    return Err(self.err(s, &format!("unsupported intrinsic {name}")));
                };
                if pre("vector.reduce.umax") {
                    let (p, q) = (r, e);
                    let c = self.x.cmp(Pred::Ult, p, q);
                    r = self.x.ite(c, q, p);
                }
            }
            return Ok(Val::E(r));
        }
        let e = if pre("umin.") {
            mm(&mut self.x, Pred::Ult, arg(0), arg(1))
        } else if pre("umax.") {
            let c = self.x.cmp(Pred::Ult, arg(0), arg(1));
            self.x.ite(c, arg(1), arg(0))
        } else if pre("smin.") {
            mm(&mut self.x, Pred::Slt, arg(0), arg(1))
        } else if pre("smax.") {
            let c = self.x.cmp(Pred::Slt, arg(0), arg(1));
            self.x.ite(c, arg(1), arg(0))
        } else if pre("abs.") {
            let w = self.x.w(arg(0));
            let sg = self.x.extract(arg(0), w - 1, 1);
            let n = self.x.neg(arg(0));
            self.x.ite(sg, n, arg(0))
        } else if pre("ucmp.") || pre("scmp.") {
            let w = ret.bits();
            let p = if pre("ucmp.") { Pred::Ult } else { Pred::Slt };
            let lt = self.x.cmp(p, arg(0), arg(1));
            let eq = self.x.eq(arg(0), arg(1));
            let m1 = self.x.kv(w, V::ones(w));
            let z = self.x.konst(w, 0);
            let one = self.x.konst(w, 1);
            let r = self.x.ite(eq, z, one);
            self.x.ite(lt, m1, r)
        } else if pre("bswap.") {
            self.bswap(arg(0))
        } else if pre("bitreverse.") {
            let w = self.x.w(arg(0));
            let mut r = self.x.extract(arg(0), 0, 1);
            for k in 1..w {
                let b = self.x.extract(arg(0), k, 1);
                r = self.x.concat(r, b);
            }
            r
        } else if pre("ctlz.") {
            self.ctlz(arg(0))
        } else if pre("cttz.") {
            self.cttz(arg(0))
        } else if pre("ctpop.") {
            self.ctpop(arg(0))
        } else if pre("fshl.") || pre("fshr.") {
            let w = self.x.w(arg(0));
            let kw = self.x.konst(w, w as u128);
            let sh = self.x.bin(Op::URem, arg(2), kw);
            let cat = self.x.concat(arg(0), arg(1));
            let sh2 = self.x.zext(sh, 2 * w);
            if pre("fshl.") {
                let r = self.x.bin(Op::Shl, cat, sh2);
                self.x.extract(r, w, w)
            } else {
                let r = self.x.bin(Op::LShr, cat, sh2);
                self.x.extract(r, 0, w)
            }
        } else if pre("ptrmask.") {
            self.x.bin(Op::And, arg(0), arg(1))
        } else if pre("fabs.") || pre("floor.") || pre("ceil.") || pre("trunc.") || pre("sqrt.") || pre("round.") || pre("rint.") || pre("roundeven.") {
            let f = self.fval(s, ret, arg(0))?;
            let r = if pre("fabs") {
                f.abs()
            } else if pre("floor") {
                f.floor()
            } else if pre("ceil") {
                f.ceil()
            } else if pre("trunc") {
                f.trunc()
            } else if pre("sqrt") {
                f.sqrt()
            } else if pre("roundeven") || pre("rint") {
                f.round_ties_even()
            } else {
                f.round()
            };
            self.fconst(ret, r)
        } else if pre("fptoui.sat") || pre("fptosi.sat") {
            let f = self.fval(s, tys[0], arg(0))?;
            let w = ret.bits();
            if pre("fptoui") {
                let m = mask128(w);
                let v = f as u128;
                self.x.konst(w, v.min(m))
            } else {
                let lim = (mask128(w) >> 1) as i128;
                let v = (f as i128).clamp(-lim - 1, lim);
                self.x.konst(w, v as u128)
            }
        } else {
            return Err(self.err(s, &format!("unsupported intrinsic {name}")));
        };
        Ok(Val::E(e))
    }

    pub fn show(&self, e: E, d: u32) -> String {
        match self.x.n(e) {
            N::Const(v) => format!("{:#x}", v.big()),
            N::Var(i) => self.x.vars[*i as usize].name.clone(),
            n if d == 0 => format!("..{}", std::mem::discriminant(n).eq(&std::mem::discriminant(n)) as u8),
            N::Bin(op, a, b) => format!("({op:?} {} {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            N::Cmp(op, a, b) => format!("({op:?} {} {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            N::Ite(c, a, b) => format!("(ite {} {} {})", self.show(*c, d - 1), self.show(*a, d - 1), self.show(*b, d - 1)),
            N::Extract(a, l) => format!("{}[{}+{}]", self.show(*a, d - 1), l, self.x.w(e)),
            N::Concat(a, b) => format!("({} ++ {})", self.show(*a, d - 1), self.show(*b, d - 1)),
            N::SExt(a) => format!("(sext {})", self.show(*a, d - 1)),
            N::MulOvf(a, b) | N::SMulOvf(a, b) => format!("(mulovf {} {})", self.show(*a, d - 1), self.show(*b, d - 1)),
        }
    }

    pub fn run(&mut self, harness: &str) -> Result<(), String> {
        self.start = Instant::now();
        let f = match self.target(harness) {
            Target::F(f) => f,
            _ => return Err(format!("harness {harness} not found")),
        };
        let mut s = State {
            frames: vec![],
            mem: Mem::default(),
            pc: vec![],
            known: Rc::new(HashMap::default()),
            model: Mdl::new(Model::default()),
            inputs: Rc::new(vec![]),
            merge: false,
            real_fmt: false,
            model_div: false,
            expect_panic: false,
            forks: 0,
            instrs: 0,
            panicked_ok: false,
            nchecks: 0,
            covers: (0, vec![]),
        };
        let _ = s.panicked_ok;
        self.enter(&mut s, f, vec![], None);
        self.explore(vec![s], None);
        Ok(())
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }
}

pub enum Res3 {
    Yes(Rc<Mdl>),
    No,
    Unknown,
}

fn chunks(x: &mut Ctx, bs: &[SB]) -> Vec<E> {
    let mut v = vec![];
    let mut i = 0;
    while i < bs.len() {
        let l = (bs.len() - i).min(8);
        v.push(from_bytes(x, &bs[i..i + l]));
        i += l;
    }
    v
}

fn insert_at(a: &Val, b: Val, idx: &[u64]) -> Val {
    match a {
        Val::A(l) => {
            let mut n = (**l).clone();
            let i = idx[0] as usize;
            n[i] = if idx.len() == 1 {
                b
            } else {
                insert_at(&n[i], b, &idx[1..])
            };
            Val::A(Rc::new(n))
        }
        _ => panic!("insertvalue into scalar"),
    }
}

pub fn short_name(n: &str) -> String {
    // last identifiers of a v0-mangled path
    let b = n.as_bytes();
    let mut i = 0;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let l: usize = n[st..i].parse().unwrap_or(0);
            let mut j = i;
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if l > 0 && j + l <= b.len() && (b[j].is_ascii_alphabetic() || b[j] == b'_') {
                out.push(n[j..j + l].to_string());
                i = j + l;
            }
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        n.to_string()
    } else {
        let k = out.len().saturating_sub(4);
        out[k..].join("::")
    }
}

fn succs(f: &Func, b: usize) -> Vec<u32> {
    match f.blocks[b].last().map(|i| &i.i) {
        Some(I::Br(t)) => vec![*t],
        Some(I::CondBr(_, a, b)) => vec![*a, *b],
        Some(I::Switch(_, _, d, c)) => {
            let mut v = vec![*d];
            v.extend(c.iter().map(|x| x.1));
            v
        }
        Some(I::Call(_, _, _, Some((a, b)))) => vec![*a, *b],
        _ => vec![],
    }
}

fn compute_ipdom(f: &Func) -> Vec<Option<u32>> {
    let n = f.blocks.len();
    let exit = n;
    let mut su: Vec<Vec<usize>> = (0..n).map(|b| succs(f, b).iter().map(|x| *x as usize).collect()).collect();
    for b in 0..n {
        if matches!(f.blocks[b].last().map(|i| &i.i), Some(I::Ret(_))) {
            su[b].push(exit);
        }
    }
    // blocks that reach the exit
    let mut reach = vec![false; n + 1];
    reach[exit] = true;
    loop {
        let mut ch = false;
        for b in 0..n {
            if !reach[b] && su[b].iter().any(|t| reach[*t]) {
                reach[b] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // reverse post-order on reverse graph
    let mut pred: Vec<Vec<usize>> = vec![vec![]; n + 1];
    for b in 0..n {
        if reach[b] {
            for t in &su[b] {
                if reach[*t] {
                    pred[*t].push(b);
                }
            }
        }
    }
    let mut order = vec![];
    let mut seen = vec![false; n + 1];
    let mut st = vec![(exit, 0usize)];
    seen[exit] = true;
    while let Some((b, i)) = st.pop() {
        if i < pred[b].len() {
            st.push((b, i + 1));
            let p = pred[b][i];
            if !seen[p] {
                seen[p] = true;
                st.push((p, 0));
            }
        } else {
            order.push(b);
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, b) in order.iter().enumerate() {
        num[*b] = i;
    }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[exit] = Some(exit);
    loop {
        let mut ch = false;
        for &b in order.iter().rev() {
            if b == exit {
                continue;
            }
            let mut new: Option<usize> = None;
            for &t in &su[b] {
                if !reach[t] || idom[t].is_none() {
                    continue;
                }
                new = Some(match new {
                    None => t,
                    Some(mut a) => {
                        let mut c = t;
                        while a != c {
                            while num[a] < num[c] {
                                a = idom[a].unwrap();
                            }
                            while num[c] < num[a] {
                                c = idom[c].unwrap();
                            }
                        }
                        a
                    }
                });
            }
            if new != idom[b] {
                idom[b] = new;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    (0..n)
        .map(|b| {
            if !reach[b] {
                return None;
            }
            idom[b].map(|d| if d == exit { u32::MAX } else { d as u32 })
        })
        .collect()
}

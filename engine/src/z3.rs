//! Minimal binding to the z3 C API plus an SMT-LIB2 printer for the fallback portfolio.
use crate::expr::*;
use num_bigint::BigUint;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::io::Write;
use std::time::{Duration, Instant};

type P = *mut c_void;

extern "C" {
    fn Z3_global_param_set(k: *const c_char, v: *const c_char);
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, out: *mut P) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
}

extern "C" fn on_err(c: P, e: c_int) {
    unsafe {
        let s = CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy();
        if s.contains("canceled") || s.contains("timeout") {
            return;
        }
        eprintln!("z3 error: {s}");
        std::process::exit(3);
    }
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallback: u64,
    pub fallback_solved: HashMap<String, u64>,
    pub time: f64,
    pub max_time: f64,
}

pub struct Z3 {
    c: P,
    s: P,
    params: P,
    k_timeout: P,
    memo: HashMap<E, P>,
    sorts: HashMap<u32, P>,
    t: P,
    f: P,
    b1: P,
    b0: P,
    pub stats: Stats,
    pub timeout_ms: u32,
    pub fallback_s: u64,
    pub deadline: Option<Instant>,
    mulvar: HashMap<(E, E), E>,
    pub dump: Option<String>,
    ndump: u32,
    dump_min: f64,
    pushes: bool,
}

impl Z3 {
    pub fn new(timeout_ms: u32, fallback_s: u64) -> Z3 {
        unsafe {
            let g = |k: &str, v: &str| {
                let k = CString::new(k).unwrap();
                let v = CString::new(v).unwrap();
                Z3_global_param_set(k.as_ptr(), v.as_ptr());
            };
            g("verbose", "0");
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, Some(on_err));
            let mode = std::env::var("LLSYM_Z3").unwrap_or("bvpush".into());
            let s = match mode.as_str() {
                "simple" => Z3_mk_simple_solver(c),
                m => {
                    let l = CString::new(if m.starts_with("fd") { "QF_FD" } else { "QF_BV" }).unwrap();
                    Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()))
                }
            };
            Z3_solver_inc_ref(c, s);
            let params = Z3_mk_params(c);
            Z3_params_inc_ref(c, params);
            let k = CString::new("timeout").unwrap();
            let k_timeout = Z3_mk_string_symbol(c, k.as_ptr());
            let t = Z3_mk_true(c);
            Z3_inc_ref(c, t);
            let f = Z3_mk_false(c);
            Z3_inc_ref(c, f);
            let s1 = Z3_mk_bv_sort(c, 1);
            Z3_inc_ref(c, s1);
            let b1 = Z3_mk_unsigned_int64(c, 1, s1);
            Z3_inc_ref(c, b1);
            let b0 = Z3_mk_unsigned_int64(c, 0, s1);
            Z3_inc_ref(c, b0);
            Z3 {
                c,
                s,
                params,
                k_timeout,
                memo: HashMap::default(),
                sorts: HashMap::default(),
                t,
                f,
                b1,
                b0,
                stats: Default::default(),
                timeout_ms,
                fallback_s,
                deadline: None,
                mulvar: HashMap::default(),
                dump: std::env::var("LLSYM_DUMP").ok(),
                ndump: 0,
                dump_min: std::env::var("LLSYM_DUMP_MIN").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
                pushes: mode.contains("push"),
            }
        }
    }
    fn sort(&mut self, w: u32) -> P {
        if let Some(s) = self.sorts.get(&w) {
            return *s;
        }
        let s = unsafe {
            let s = Z3_mk_bv_sort(self.c, w);
            Z3_inc_ref(self.c, s);
            s
        };
        self.sorts.insert(w, s);
        s
    }
    /// As bit-vector term (width-1 nodes are Bool in z3 and wrapped here).
    fn bv(&mut self, x: &Ctx, e: E) -> P {
        let a = self.tr(x, e);
        if x.w(e) == 1 {
            unsafe { self.keep(Z3_mk_ite(self.c, a, self.b1, self.b0)) }
        } else {
            a
        }
    }
    fn tr(&mut self, x: &Ctx, e: E) -> P {
        if let Some(p) = self.memo.get(&e) {
            return *p;
        }
        // explicit post-order to avoid deep recursion
        let mut st = vec![e];
        while let Some(&y) = st.last() {
            if self.memo.contains_key(&y) {
                st.pop();
                continue;
            }
            let mut pending = false;
            for ch in x.children(y).into_iter().flatten() {
                if !self.memo.contains_key(&ch) {
                    st.push(ch);
                    pending = true;
                }
            }
            if pending {
                continue;
            }
            let p = self.tr1(x, y);
            unsafe { Z3_inc_ref(self.c, p) };
            self.memo.insert(y, p);
            st.pop();
        }
        self.memo[&e]
    }
    fn tr1(&mut self, x: &Ctx, e: E) -> P {
        let c = self.c;
        let w = x.w(e);
        unsafe {
            match x.n(e).clone() {
                N::Const(v) => {
                    if w == 1 {
                        return if v.is_zero() { self.f } else { self.t };
                    }
                    let s = self.sort(w);
                    if w <= 64 {
                        Z3_mk_unsigned_int64(c, v.u128() as u64, s)
                    } else {
                        let d = CString::new(v.big().to_string()).unwrap();
                        Z3_mk_numeral(c, d.as_ptr(), s)
                    }
                }
                N::Var(i) => {
                    let n = CString::new(format!("v{i}")).unwrap();
                    let sym = Z3_mk_string_symbol(c, n.as_ptr());
                    let s = if w == 1 { self.keep(Z3_mk_bool_sort(c)) } else { self.sort(w) };
                    Z3_mk_const(c, sym, s)
                }
                N::Bin(op, a, b) => {
                    if w == 1 {
                        let p = self.tr(x, a);
                        let q = self.tr(x, b);
                        match op {
                            Op::And | Op::Mul => Z3_mk_and(c, 2, [p, q].as_ptr()),
                            Op::Or => Z3_mk_or(c, 2, [p, q].as_ptr()),
                            Op::Xor | Op::Add | Op::Sub => {
                                if x.is_true(b) {
                                    Z3_mk_not(c, p)
                                } else {
                                    Z3_mk_xor(c, p, q)
                                }
                            }
                            _ => {
                                let p = self.bv(x, a);
                                let q = self.bv(x, b);
                                let r = self.keep(self.binop(op, p, q));
                                Z3_mk_eq(c, r, self.b1)
                            }
                        }
                    } else {
                        let p = self.tr(x, a);
                        let q = self.tr(x, b);
                        self.binop(op, p, q)
                    }
                }
                N::Cmp(p, a, b) => {
                    if x.w(a) == 1 && p == Pred::Eq {
                        let p = self.tr(x, a);
                        let q = self.tr(x, b);
                        return Z3_mk_eq(c, p, q);
                    }
                    let l = self.bv(x, a);
                    let r = self.bv(x, b);
                    match p {
                        Pred::Eq => Z3_mk_eq(c, l, r),
                        Pred::Ult => Z3_mk_bvult(c, l, r),
                        Pred::Ule => Z3_mk_bvule(c, l, r),
                        Pred::Slt => Z3_mk_bvslt(c, l, r),
                        Pred::Sle => Z3_mk_bvsle(c, l, r),
                    }
                }
                N::Ite(k, a, b) => {
                    let k = self.tr(x, k);
                    let p = self.tr(x, a);
                    let q = self.tr(x, b);
                    Z3_mk_ite(c, k, p, q)
                }
                N::Extract(a, lo) => {
                    let p = self.bv(x, a);
                    let r = self.keep(Z3_mk_extract(c, lo + w - 1, lo, p));
                    if w == 1 {
                        Z3_mk_eq(c, r, self.b1)
                    } else {
                        r
                    }
                }
                N::Concat(a, b) => {
                    let p = self.bv(x, a);
                    let q = self.bv(x, b);
                    Z3_mk_concat(c, p, q)
                }
                N::SExt(a) => {
                    let p = self.bv(x, a);
                    Z3_mk_sign_ext(c, w - x.w(a), p)
                }
                N::MulOvf(a, b) => {
                    let p = self.bv(x, a);
                    let q = self.bv(x, b);
                    let r = self.keep(Z3_mk_bvmul_no_overflow(c, p, q, false));
                    Z3_mk_not(c, r)
                }
                N::SMulOvf(a, b) => {
                    let p = self.bv(x, a);
                    let q = self.bv(x, b);
                    let r = self.keep(Z3_mk_bvmul_no_overflow(c, p, q, true));
                    let u = self.keep(Z3_mk_bvmul_no_underflow(c, p, q));
                    let a = self.keep(Z3_mk_and(c, 2, [r, u].as_ptr()));
                    Z3_mk_not(c, a)
                }
            }
        }
    }
    fn keep(&self, p: P) -> P {
        unsafe { Z3_inc_ref(self.c, p) };
        p
    }
    fn binop(&self, op: Op, p: P, q: P) -> P {
        let c = self.c;
        unsafe {
            match op {
                Op::Add => Z3_mk_bvadd(c, p, q),
                Op::Sub => Z3_mk_bvsub(c, p, q),
                Op::Mul => Z3_mk_bvmul(c, p, q),
                Op::UDiv => Z3_mk_bvudiv(c, p, q),
                Op::SDiv => Z3_mk_bvsdiv(c, p, q),
                Op::URem => Z3_mk_bvurem(c, p, q),
                Op::SRem => Z3_mk_bvsrem(c, p, q),
                Op::Shl => Z3_mk_bvshl(c, p, q),
                Op::LShr => Z3_mk_bvlshr(c, p, q),
                Op::AShr => Z3_mk_bvashr(c, p, q),
                Op::And => Z3_mk_bvand(c, p, q),
                Op::Or => Z3_mk_bvor(c, p, q),
                Op::Xor => Z3_mk_bvxor(c, p, q),
            }
        }
    }

    pub fn check(&mut self, x: &mut Ctx, cs: &[E]) -> Res {
        let t0 = Instant::now();
        self.stats.queries += 1;
        let r = self.check0(x, cs);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.time += dt;
        if dt > self.stats.max_time {
            self.stats.max_time = dt;
        }
        if let Some(d) = &self.dump {
            if dt >= self.dump_min {
                self.ndump += 1;
                let _ = std::fs::write(format!("{d}/q{}_{:.1}.smt2", self.ndump, dt), smt2(x, cs));
            }
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
    fn check0(&mut self, x: &mut Ctx, cs: &[E]) -> Res {
        // products as unknowns within their range: unsat there is unsat here
        let abs = self.abstract_mul(x, cs);
        if let Some(abs) = &abs {
            match self.check1(x, abs, self.timeout_ms, false) {
                Res::Unsat => return Res::Unsat,
                Res::Sat(m) => {
                    // a model that happens to be right about the products
                    let mut memo = HashMap::default();
                    if cs.iter().all(|c| !x.eval(*c, &m, &mut memo).is_zero()) {
                        return Res::Sat(m);
                    }
                }
                Res::Unknown => {}
            }
        }
        match self.check1(x, cs, self.timeout_ms, true) {
            Res::Unknown => {
                let left = self.deadline.map_or(3600, |d| d.saturating_duration_since(Instant::now()).as_secs());
                let secs = self.fallback_s.min(left);
                if secs == 0 {
                    return Res::Unknown;
                }
                self.stats.fallback += 1;
                if let Some(abs) = abs {
                    if matches!(self.portfolio(x, &abs, secs.min(8), true), Res::Unsat) {
                        return Res::Unsat;
                    }
                }
                self.portfolio(x, cs, secs, false)
            }
            o => o,
        }
    }
    fn check1(&mut self, x: &mut Ctx, cs: &[E], to: u32, _exact: bool) -> Res {
        unsafe {
            let c = self.c;
            Z3_params_set_uint(c, self.params, self.k_timeout, to);
            Z3_solver_set_params(c, self.s, self.params);
            if self.pushes {
                Z3_solver_push(c, self.s);
            } else {
                Z3_solver_reset(c, self.s);
            }
            for e in cs {
                let p = self.tr(x, *e);
                Z3_solver_assert(c, self.s, p);
            }
            let r = Z3_solver_check(c, self.s);
            let out = match r {
                1 => {
                    let m = Z3_solver_get_model(c, self.s);
                    Z3_model_inc_ref(c, m);
                    let mut vars = std::collections::BTreeSet::new();
                    for e in cs {
                        vars.extend(x.vars_of(*e).iter().copied());
                    }
                    let mut out = Model::default();
                    for v in vars {
                        let e = x.var_expr[v as usize];
                        let w = x.w(e);
                        let p = self.tr(x, e);
                        let mut o: P = std::ptr::null_mut();
                        if !Z3_model_eval(c, m, p, true, &mut o) {
                            continue;
                        }
                        Z3_inc_ref(c, o);
                        let val = if w == 1 {
                            V::S((Z3_get_bool_value(c, o) == 1) as u128)
                        } else {
                            let mut u = 0u64;
                            if w <= 64 && Z3_get_numeral_uint64(c, o, &mut u) {
                                V::S(u as u128)
                            } else {
                                let s = CStr::from_ptr(Z3_get_numeral_string(c, o));
                                let b = BigUint::parse_bytes(s.to_bytes(), 10).expect("numeral");
                                V::from_big(w, b)
                            }
                        };
                        out.insert(v, val);
                    }
                    Z3_model_dec_ref(c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if self.pushes {
                Z3_solver_pop(c, self.s, 1);
            }
            out
        }
    }

    /// Replace every product of two non-constants by a fresh variable bounded by the product of the
    /// operands' maxima. None if there is no such product.
    fn abstract_mul(&mut self, x: &mut Ctx, cs: &[E]) -> Option<Vec<E>> {
        let mut seen = crate::expr::HashSet::default();
        let mut todo: Vec<E> = cs.to_vec();
        let mut muls = vec![];
        while let Some(e) = todo.pop() {
            if !seen.insert(e) {
                continue;
            }
            match x.n(e).clone() {
                N::Const(_) | N::Var(_) => {}
                N::Bin(op, a, b) => {
                    if op == Op::Mul && x.cv(a).is_none() && x.cv(b).is_none() {
                        muls.push((e, a, b));
                    }
                    todo.push(a);
                    todo.push(b);
                }
                N::Cmp(_, a, b) | N::Concat(a, b) | N::MulOvf(a, b) | N::SMulOvf(a, b) => {
                    if matches!(x.n(e), N::MulOvf(..)) && x.cv(a).is_none() && x.cv(b).is_none() {
                        muls.push((e, a, b));
                    }
                    todo.push(a);
                    todo.push(b);
                }
                N::Ite(c, a, b) => {
                    todo.push(c);
                    todo.push(a);
                    todo.push(b);
                }
                N::Extract(a, _) | N::SExt(a) => todo.push(a),
            }
        }
        if muls.is_empty() {
            return None;
        }
        let strip = |x: &Ctx, e: E| -> E {
            if let N::Concat(h, l) = x.n(e) {
                if x.cv(*h).map_or(false, |v| v.is_zero()) {
                    return *l;
                }
            }
            e
        };
        let mut sub: HashMap<E, E> = HashMap::default();
        let mut extra = vec![];
        let mut known = crate::expr::HashSet::default();
        for (e, a, b) in muls {
            let w = x.w(a);
            let (a, b) = (strip(x, a), strip(x, b));
            let (a, b) = (a.min(b), a.max(b));
            let (wa, wb) = (x.w(a), x.w(b));
            let full = wa + wb;
            let p = match self.mulvar.get(&(a, b)) {
                Some(v) => *v,
                None => {
                    let v = x.new_var("product", full);
                    self.mulvar.insert((a, b), v);
                    v
                }
            };
            if known.insert((a, b)) {
                let one = BigUint::from(1u32);
                let max = ((&one << wa) - &one) * ((&one << wb) - &one);
                let k = x.kv(full, V::from_big(full, max));
                let c = x.cmp(Pred::Ule, p, k);
                extra.push(c);
            }
            let r = if let N::MulOvf(..) = x.n(e) {
                if w >= full {
                    x.fals()
                } else {
                    let h = x.extract(p, w, full - w);
                    let z = x.konst(full - w, 0);
                    let q = x.cmp(Pred::Eq, h, z);
                    x.not(q)
                }
            } else if w <= full {
                x.extract(p, 0, w)
            } else {
                x.zext(p, w)
            };
            sub.insert(e, r);
        }
        let mut memo = HashMap::default();
        let mut budget = 200_000;
        let mut out: Vec<E> = cs.iter().map(|c| x.substitute(*c, &sub, &mut memo, &mut budget)).collect();
        if budget == 0 {
            return None;
        }
        out.extend(extra);
        Some(out)
    }

    fn portfolio(&mut self, x: &mut Ctx, cs: &[E], secs: u64, abs: bool) -> Res {
        let txt = smt2(x, cs);
        if abs && self.dump.is_some() {
            self.ndump += 1;
            let _ = std::fs::write(format!("{}/abs{}.smt2", self.dump.as_ref().unwrap(), self.ndump), &txt);
        }
        let dir = std::env::temp_dir().join(format!("llsym.{}", std::process::id()));
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join("q.smt2");
        std::fs::File::create(&f).unwrap().write_all(txt.as_bytes()).unwrap();
        let cands: Vec<(&str, Vec<String>)> = vec![
            ("cvc5-int", vec!["cvc5".into(), "--produce-models".into(), "--solve-bv-as-int=sum".into(), format!("--tlimit={}", secs * 1000)]),
            ("cvc5-bv", vec!["cvc5".into(), "--produce-models".into(), format!("--tlimit={}", secs * 1000)]),
            ("z3-new", vec!["z3-new".into(), format!("-T:{secs}"), "model.completion=true".into()]),
        ];
        let mut kids = vec![];
        for (n, a) in cands {
            let o = dir.join(format!("{n}.out"));
            let out = std::fs::File::create(&o).unwrap();
            if let Ok(k) = std::process::Command::new(&a[0])
                .args(&a[1..])
                .arg(&f)
                .stdin(std::process::Stdio::null())
                .stdout(out)
                .stderr(std::process::Stdio::null())
                .spawn()
            {
                kids.push((n, k, o, false));
            }
        }
        let t0 = Instant::now();
        let mut ans = Res::Unknown;
        'o: while t0.elapsed() < Duration::from_secs(secs + 5) {
            let mut alive = false;
            for (n, k, o, done) in kids.iter_mut() {
                if *done {
                    continue;
                }
                match k.try_wait() {
                    Ok(Some(_)) => {
                        *done = true;
                        let s = std::fs::read_to_string(&*o).unwrap_or_default();
                        let first = s.lines().next().unwrap_or("").trim().to_string();
                        if s.contains("(error") && first != "unsat" {
                            continue;
                        }
                        if first == "unsat" {
                            *self.stats.fallback_solved.entry(format!("{n}{}", if abs { "-abs" } else { "" })).or_default() += 1;
                            ans = Res::Unsat;
                            break 'o;
                        }
                        if first == "sat" && abs {
                            break 'o;
                        }
                        if first == "sat" {
                            let m = parse_values(x, &s);
                            // trust only a model that satisfies the constraints under our own evaluator
                            let mut memo = HashMap::default();
                            if cs.iter().all(|c| !x.eval(*c, &m, &mut memo).is_zero()) {
                                *self.stats.fallback_solved.entry(n.to_string()).or_default() += 1;
                                ans = Res::Sat(m);
                                break 'o;
                            }
                        }
                    }
                    Ok(None) => alive = true,
                    Err(_) => *done = true,
                }
            }
            if !alive {
                break;
            }
            std::thread::sleep(Duration::from_millis(10));
        }
        for (_, k, _, _) in kids.iter_mut() {
            let _ = k.kill();
            let _ = k.wait();
        }
        let _ = std::fs::remove_dir_all(&dir);
        ans
    }
}

fn parse_values(x: &Ctx, s: &str) -> Model {
    // tokens of the form (v12 #x..) / (v12 #b..) / (v3 true)
    let mut m = Model::default();
    let toks: Vec<String> = s
        .replace('(', " ( ")
        .replace(')', " ) ")
        .split_whitespace()
        .map(|t| t.to_string())
        .collect();
    let mut i = 0;
    while i + 1 < toks.len() {
        if let Some(id) = toks[i].strip_prefix('v').and_then(|d| d.parse::<u32>().ok()) {
            if (id as usize) < x.vars.len() {
                let w = x.vars[id as usize].w;
                let t = &toks[i + 1];
                let v = if let Some(h) = t.strip_prefix("#x") {
                    BigUint::parse_bytes(h.as_bytes(), 16)
                } else if let Some(b) = t.strip_prefix("#b") {
                    BigUint::parse_bytes(b.as_bytes(), 2)
                } else if t == "true" {
                    Some(BigUint::from(1u32))
                } else if t == "false" {
                    Some(BigUint::from(0u32))
                } else {
                    None
                };
                if let Some(v) = v {
                    m.insert(id, V::from_big(w, v));
                }
            }
        }
        i += 1;
    }
    m
}

/// SMT-LIB2 text; every shared node becomes a define-fun.
pub fn smt2(x: &mut Ctx, cs: &[E]) -> String {
    use std::fmt::Write as _;
    let mut o = String::new();
    o.push_str("(set-option :produce-models true)\n(set-logic QF_BV)\n");
    let mut vars = std::collections::BTreeSet::new();
    for e in cs {
        vars.extend(x.vars_of(*e).iter().copied());
    }
    for v in &vars {
        let w = x.vars[*v as usize].w;
        if w == 1 {
            let _ = writeln!(o, "(declare-const v{v} Bool)");
        } else {
            let _ = writeln!(o, "(declare-const v{v} (_ BitVec {w}))");
        }
    }
    let mut name: HashMap<E, String> = HashMap::default();
    let mut st: Vec<E> = cs.to_vec();
    while let Some(&y) = st.last() {
        if name.contains_key(&y) {
            st.pop();
            continue;
        }
        let mut pending = false;
        for ch in x.children(y).into_iter().flatten() {
            if !name.contains_key(&ch) {
                st.push(ch);
                pending = true;
            }
        }
        if pending {
            continue;
        }
        st.pop();
        let w = x.w(y);
        let bv = |e: E| -> String {
            if x.w(e) == 1 {
                format!("(ite {} #b1 #b0)", name[&e])
            } else {
                name[&e].clone()
            }
        };
        let opn = |op: Op| match op {
            Op::Add => "bvadd",
            Op::Sub => "bvsub",
            Op::Mul => "bvmul",
            Op::UDiv => "bvudiv",
            Op::SDiv => "bvsdiv",
            Op::URem => "bvurem",
            Op::SRem => "bvsrem",
            Op::Shl => "bvshl",
            Op::LShr => "bvlshr",
            Op::AShr => "bvashr",
            Op::And => "bvand",
            Op::Or => "bvor",
            Op::Xor => "bvxor",
        };
        let t = match x.n(y).clone() {
            N::Const(v) => {
                let s = if w == 1 {
                    if v.is_zero() { "false".to_string() } else { "true".to_string() }
                } else {
                    format!("(_ bv{} {w})", v.big())
                };
                name.insert(y, s);
                continue;
            }
            N::Var(i) => {
                name.insert(y, format!("v{i}"));
                continue;
            }
            N::Bin(op, a, b) if w == 1 && matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul) => {
                let k = match op {
                    Op::And | Op::Mul => "and",
                    Op::Or => "or",
                    _ => "xor",
                };
                format!("({k} {} {})", name[&a], name[&b])
            }
            N::Bin(op, a, b) => {
                let t = format!("({} {} {})", opn(op), bv(a), bv(b));
                if w == 1 { format!("(= {t} #b1)") } else { t }
            }
            N::Cmp(p, a, b) => {
                let k = match p {
                    Pred::Eq => "=",
                    Pred::Ult => "bvult",
                    Pred::Ule => "bvule",
                    Pred::Slt => "bvslt",
                    Pred::Sle => "bvsle",
                };
                format!("({k} {} {})", bv(a), bv(b))
            }
            N::Ite(c, a, b) => format!("(ite {} {} {})", name[&c], name[&a], name[&b]),
            N::Extract(a, lo) => {
                let t = format!("((_ extract {} {lo}) {})", lo + w - 1, bv(a));
                if w == 1 { format!("(= {t} #b1)") } else { t }
            }
            N::Concat(a, b) => format!("(concat {} {})", bv(a), bv(b)),
            N::SExt(a) => format!("((_ sign_extend {}) {})", w - x.w(a), bv(a)),
            N::MulOvf(a, b) => {
                let n = x.w(a);
                format!(
                    "(not (= ((_ extract {} {n}) (bvmul ((_ zero_extend {n}) {}) ((_ zero_extend {n}) {}))) (_ bv0 {n})))",
                    2 * n - 1, bv(a), bv(b)
                )
            }
            N::SMulOvf(a, b) => {
                let n = x.w(a);
                let m = format!("(bvmul ((_ sign_extend {n}) {}) ((_ sign_extend {n}) {}))", bv(a), bv(b));
                format!("(let ((m {m})) (not (= m ((_ sign_extend {n}) ((_ extract {} 0) m)))))", n - 1)
            }
        };
        let nm = format!("e{y}");
        if w == 1 {
            let _ = writeln!(o, "(define-fun {nm} () Bool {t})");
        } else {
            let _ = writeln!(o, "(define-fun {nm} () (_ BitVec {w}) {t})");
        }
        name.insert(y, nm);
    }
    for e in cs {
        let _ = writeln!(o, "(assert {})", name[e]);
    }
    o.push_str("(check-sat)\n");
    if !vars.is_empty() {
        o.push_str("(get-value (");
        for v in &vars {
            let _ = write!(o, "v{v} ");
        }
        o.push_str("))\n");
    }
    o
}

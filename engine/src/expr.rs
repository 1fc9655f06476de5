//! Hash-consed bit-vector expression DAG with local simplification and concrete evaluation.
use num_bigint::BigUint;
use num_integer::Integer;
use num_traits::{One, ToPrimitive, Zero};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;
pub type HashSet<K> = std::collections::HashSet<K, std::hash::BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V {
    S(u128),
    B(BigUint),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Pred {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Const(V),
    Var(u32),
    Bin(Op, E, E),
    Cmp(Pred, E, E),
    Ite(E, E, E),
    Extract(E, u32), // (expr, low bit); width is the node's width
    Concat(E, E),    // (high, low)
    SExt(E),
    MulOvf(E, E), // unsigned multiplication overflow predicate (width 1)
    SMulOvf(E, E),
}

pub struct VarInfo {
    pub name: String,
    pub w: u32,
}

pub struct Ctx {
    pub nodes: Vec<(N, u32)>,
    map: HashMap<(N, u32), E>,
    pub vars: Vec<VarInfo>,
    pub var_expr: Vec<E>,
    varset_cache: HashMap<E, std::rc::Rc<Vec<u32>>>,
    /// upper bound of each node's value (None: 2^128 or more)
    umax: Vec<Option<u128>>,
}

pub fn mask128(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl V {
    pub fn new(w: u32, v: u128) -> V {
        if w <= 128 {
            V::S(v & mask128(w))
        } else {
            V::B(BigUint::from(v))
        }
    }
    pub fn big(&self) -> BigUint {
        match self {
            V::S(x) => BigUint::from(*x),
            V::B(b) => b.clone(),
        }
    }
    pub fn from_big(w: u32, b: BigUint) -> V {
        let m = (BigUint::one() << w) - BigUint::one();
        let b = b & m;
        if w <= 128 {
            V::S(b.to_u128().unwrap())
        } else {
            V::B(b)
        }
    }
    pub fn is_zero(&self) -> bool {
        match self {
            V::S(x) => *x == 0,
            V::B(b) => b.is_zero(),
        }
    }
    pub fn ones(w: u32) -> V {
        if w <= 128 {
            V::S(mask128(w))
        } else {
            V::B((BigUint::one() << w) - BigUint::one())
        }
    }
    pub fn is_ones(&self, w: u32) -> bool {
        *self == V::ones(w)
    }
    pub fn u128(&self) -> u128 {
        match self {
            V::S(x) => *x,
            V::B(b) => (b & BigUint::from(u128::MAX)).to_u128().unwrap(),
        }
    }
}

fn sext128(w: u32, x: u128) -> i128 {
    if w >= 128 {
        x as i128
    } else {
        ((x << (128 - w)) as i128) >> (128 - w)
    }
}

fn neg_big(w: u32, b: &BigUint) -> BigUint {
    let m = BigUint::one() << w;
    if b.is_zero() {
        BigUint::zero()
    } else {
        m - b
    }
}
fn sign_big(w: u32, b: &BigUint) -> bool {
    b.bit((w - 1) as u64)
}

/// SMT-LIB semantics of division by zero (never relied upon: execution guards it).
pub fn eval_op(op: Op, w: u32, a: &V, b: &V) -> V {
    if w <= 128 {
        let (x, y) = (a.u128(), b.u128());
        let m = mask128(w);
        let r = match op {
            Op::Add => x.wrapping_add(y),
            Op::Sub => x.wrapping_sub(y),
            Op::Mul => x.wrapping_mul(y),
            Op::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            Op::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            Op::SDiv => {
                let (sx, sy) = (sext128(w, x), sext128(w, y));
                if sy == 0 {
                    if sx < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    sx.wrapping_div(sy) as u128
                }
            }
            Op::SRem => {
                let (sx, sy) = (sext128(w, x), sext128(w, y));
                if sy == 0 {
                    x
                } else {
                    sx.wrapping_rem(sy) as u128
                }
            }
            Op::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            Op::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            Op::AShr => {
                let sx = sext128(w, x);
                let s = if y >= w as u128 { w - 1 } else { y as u32 };
                (sx >> s) as u128
            }
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
        };
        return V::S(r & m);
    }
    let (x, y) = (a.big(), b.big());
    let full = BigUint::one() << w;
    let r = match op {
        Op::Add => x + y,
        Op::Sub => x + &full - y,
        Op::Mul => x * y,
        Op::UDiv => {
            if y.is_zero() {
                &full - BigUint::one()
            } else {
                x / y
            }
        }
        Op::URem => {
            if y.is_zero() {
                x
            } else {
                x % y
            }
        }
        Op::SDiv | Op::SRem => {
            let (nx, ny) = (sign_big(w, &x), sign_big(w, &y));
            let ax = if nx { neg_big(w, &x) } else { x.clone() };
            let ay = if ny { neg_big(w, &y) } else { y.clone() };
            if ay.is_zero() {
                if op == Op::SRem {
                    x
                } else if nx {
                    BigUint::one()
                } else {
                    &full - BigUint::one()
                }
            } else {
                let (q, r) = ax.div_rem(&ay);
                if op == Op::SDiv {
                    if nx != ny {
                        neg_big(w, &q)
                    } else {
                        q
                    }
                } else if nx {
                    neg_big(w, &r)
                } else {
                    r
                }
            }
        }
        Op::Shl => match y.to_u32() {
            Some(s) if s < w => x << s,
            _ => BigUint::zero(),
        },
        Op::LShr => match y.to_u32() {
            Some(s) if s < w => x >> s,
            _ => BigUint::zero(),
        },
        Op::AShr => {
            let s = match y.to_u32() {
                Some(s) if s < w => s,
                _ => w - 1,
            };
            if sign_big(w, &x) {
                let nx = (&full - BigUint::one()) - &x;
                (&full - BigUint::one()) - (nx >> s)
            } else {
                x >> s
            }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
    };
    V::from_big(w, r)
}

pub fn eval_cmp(p: Pred, w: u32, a: &V, b: &V) -> bool {
    if w <= 128 {
        let (x, y) = (a.u128(), b.u128());
        match p {
            Pred::Eq => x == y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Slt => sext128(w, x) < sext128(w, y),
            Pred::Sle => sext128(w, x) <= sext128(w, y),
        }
    } else {
        let (x, y) = (a.big(), b.big());
        let (sx, sy) = (sign_big(w, &x), sign_big(w, &y));
        match p {
            Pred::Eq => x == y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Slt => {
                if sx != sy {
                    sx
                } else {
                    x < y
                }
            }
            Pred::Sle => {
                if sx != sy {
                    sx
                } else {
                    x <= y
                }
            }
        }
    }
}

pub fn eval_extract(v: &V, lo: u32, w: u32) -> V {
    match v {
        V::S(x) => V::new(w, if lo >= 128 { 0 } else { x >> lo }),
        V::B(b) => V::from_big(w, b >> lo),
    }
}
pub fn eval_concat(wa: u32, a: &V, wb: u32, b: &V) -> V {
    if wa + wb <= 128 {
        V::S((if wb >= 128 { 0 } else { a.u128() << wb }) | b.u128())
    } else {
        V::from_big(wa + wb, (a.big() << wb) | b.big())
    }
}
pub fn eval_sext(w: u32, v: &V, nw: u32) -> V {
    if nw <= 128 {
        V::new(nw, sext128(w, v.u128()) as u128)
    } else {
        let b = v.big();
        if sign_big(w, &b) {
            let full = BigUint::one() << nw;
            let low = BigUint::one() << w;
            V::from_big(nw, full - low + b)
        } else {
            V::from_big(nw, b)
        }
    }
}
pub fn eval_mulovf(w: u32, a: &V, b: &V) -> bool {
    (a.big() * b.big()).bits() > w as u64
}
pub fn eval_smulovf(w: u32, a: &V, b: &V) -> bool {
    let (x, y) = (a.big(), b.big());
    let (nx, ny) = (sign_big(w, &x), sign_big(w, &y));
    let ax = if nx { neg_big(w, &x) } else { x };
    let ay = if ny { neg_big(w, &y) } else { y };
    let p = ax * ay;
    let lim = BigUint::one() << (w - 1);
    if nx != ny {
        p > lim
    } else {
        p >= lim
    }
}

pub type Model = HashMap<u32, V>;

impl Ctx {
    pub fn new() -> Ctx {
        Ctx {
            nodes: vec![],
            map: HashMap::default(),
            vars: vec![],
            var_expr: vec![],
            varset_cache: HashMap::default(),
            umax: vec![],
        }
    }
    fn mk(&mut self, n: N, w: u32) -> E {
        let k = (n, w);
        if let Some(e) = self.map.get(&k) {
            return *e;
        }
        let id = self.nodes.len() as E;
        let m = self.bound(&k.0, w);
        self.umax.push(m);
        self.nodes.push(k.clone());
        self.map.insert(k, id);
        id
    }
    /// Upper bound of the value of a node, from its children's.
    fn bound(&self, n: &N, w: u32) -> Option<u128> {
        let full = if w <= 128 { Some(mask128(w)) } else { None };
        let clip = |v: Option<u128>| match (v, full) {
            (Some(v), Some(f)) if v > f => Some(f),
            (None, f) => f,
            (v, _) => v,
        };
        let u = |e: E| self.umax[e as usize];
        let pow = |v: u128| if v == 0 { 0 } else { u128::MAX >> v.leading_zeros() };
        match n {
            N::Const(V::S(v)) => Some(*v),
            N::Const(V::B(b)) => {
                if b.bits() <= 128 {
                    Some(V::B(b.clone()).u128())
                } else {
                    None
                }
            }
            N::Var(_) => full,
            N::Cmp(..) | N::MulOvf(..) | N::SMulOvf(..) => Some(1),
            N::Concat(h, l) => {
                let wl = self.w(*l);
                match (u(*h), u(*l)) {
                    (Some(0), l) => clip(l),
                    (Some(h), Some(l)) if wl < 128 && h <= u128::MAX >> wl => clip(Some((h << wl) + l)),
                    _ => full,
                }
            }
            N::Extract(x, lo) => match u(*x) {
                Some(m) if *lo >= 128 => clip(Some(if m == 0 { 0 } else { 0 })),
                Some(m) => clip(Some(m >> lo)),
                None => full,
            },
            N::SExt(x) => match u(*x) {
                Some(m) if self.w(*x) <= 128 && m < 1u128 << (self.w(*x) - 1) => Some(m),
                _ => full,
            },
            N::Ite(_, a, b) => match (u(*a), u(*b)) {
                (Some(a), Some(b)) => Some(a.max(b)),
                _ => full,
            },
            N::Bin(op, a, b) => {
                let (ua, ub) = (u(*a), u(*b));
                let nowrap = |v: Option<u128>| match (v, full) {
                    (Some(v), Some(f)) if v <= f => Some(v),
                    (Some(v), None) => Some(v),
                    _ => full,
                };
                match op {
                    Op::And => match (ua, ub) {
                        (Some(a), Some(b)) => Some(a.min(b)),
                        (Some(a), None) | (None, Some(a)) => Some(a),
                        _ => full,
                    },
                    Op::Or | Op::Xor => match (ua, ub) {
                        (Some(a), Some(b)) => clip(Some(pow(a) | pow(b))),
                        _ => full,
                    },
                    Op::Add => nowrap(ua.zip(ub).and_then(|(a, b)| a.checked_add(b))),
                    Op::Mul => nowrap(ua.zip(ub).and_then(|(a, b)| a.checked_mul(b))),
                    Op::UDiv => match self.cv(*b) {
                        Some(c) if !c.is_zero() && c.big().bits() <= 128 => match ua {
                            Some(a) => Some(a / c.u128()),
                            None => full,
                        },
                        _ => full,
                    },
                    Op::URem => match self.cv(*b) {
                        Some(c) if !c.is_zero() && c.big().bits() <= 128 => {
                            let m = c.u128() - 1;
                            Some(ua.map_or(m, |a| a.min(m)))
                        }
                        _ => clip(ua),
                    },
                    Op::LShr => clip(ua),
                    _ => full,
                }
            }
        }
    }
    pub fn ub(&self, e: E) -> Option<u128> {
        self.umax[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].1
    }
    pub fn n(&self, e: E) -> &N {
        &self.nodes[e as usize].0
    }
    pub fn cv(&self, e: E) -> Option<&V> {
        match &self.nodes[e as usize].0 {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    pub fn konst(&mut self, w: u32, v: u128) -> E {
        self.mk(N::Const(V::new(w, v)), w)
    }
    pub fn kv(&mut self, w: u32, v: V) -> E {
        let v = if w > 128 {
            V::B(v.big())
        } else {
            v
        };
        self.mk(N::Const(v), w)
    }
    pub fn tru(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn fals(&mut self) -> E {
        self.konst(1, 0)
    }
    pub fn var(&mut self, id: u32) -> E {
        self.var_expr[id as usize]
    }
    pub fn new_var(&mut self, name: &str, w: u32) -> E {
        let id = self.vars.len() as u32;
        self.vars.push(VarInfo {
            name: name.to_string(),
            w,
        });
        let e = self.mk(N::Var(id), w);
        self.var_expr.push(e);
        e
    }
    pub fn is_true(&self, e: E) -> bool {
        matches!(self.n(e), N::Const(V::S(1))) && self.w(e) == 1
    }
    pub fn is_false(&self, e: E) -> bool {
        matches!(self.n(e), N::Const(V::S(0))) && self.w(e) == 1
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = eval_op(op, w, x, y);
            return self.kv(w, r);
        }
        if matches!(op, Op::Add | Op::Mul) && w > 8 && w <= 128 {
            if let Some(r) = self.linear(op, a, b, w) {
                return r;
            }
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        let (a, b) = if comm && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b)) {
            (b, a)
        } else {
            (a, b)
        };
        // constant on the right (or none)
        if let Some(y) = self.cv(b).cloned() {
            let z = y.is_zero();
            match op {
                Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if z => {
                    return a
                }
                Op::Mul | Op::And if z => return b,
                Op::And if y.is_ones(w) => return a,
                Op::Or if y.is_ones(w) => return b,
                Op::Mul | Op::UDiv if y == V::new(w, 1) => return a,
                Op::URem if y == V::new(w, 1) => return self.konst(w, 0),
                _ => {}
            }
            match op {
                Op::Sub => {
                    let zero = V::new(w, 0);
                    let ny = eval_op(Op::Sub, w, &zero, &y);
                    let nb = self.kv(w, ny);
                    return self.bin(Op::Add, a, nb);
                }
                Op::Add => {
                    // concat(h, l) + c without a carry out of l
                    if let N::Concat(h, l) = self.n(a).clone() {
                        let (wh, wl) = (self.w(h), self.w(l));
                        if wl <= 64 {
                            let low = eval_extract(&y, 0, wl).u128();
                            let carry = low != 0
                                && self.umax[l as usize].map_or(true, |m| m + low > mask128(wl));
                            if !carry && (self.cv(h).is_some() || low == 0) {
                                let hi = eval_extract(&y, wl, wh);
                                let (kh, kl) = (self.kv(wh, hi), self.konst(wl, low));
                                let nh = self.bin(Op::Add, h, kh);
                                let nl = self.bin(Op::Add, l, kl);
                                return self.concat(nh, nl);
                            }
                        }
                    }
                    if let N::Bin(Op::Add, x, c) = self.n(a).clone() {
                        if self.cv(c).is_some() {
                            let nc = self.bin(Op::Add, c, b);
                            return self.bin(Op::Add, x, nc);
                        }
                    }
                }
                Op::Xor => {
                    if let N::Bin(Op::Xor, x, c) = self.n(a).clone() {
                        if self.cv(c).is_some() {
                            let nc = self.bin(Op::Xor, c, b);
                            return self.bin(Op::Xor, x, nc);
                        }
                    }
                    if w == 1 {
                        // not
                        if let N::Cmp(p, x, y) = self.n(a).clone() {
                            match p {
                                Pred::Ult => return self.cmp(Pred::Ule, y, x),
                                Pred::Ule => return self.cmp(Pred::Ult, y, x),
                                Pred::Slt => return self.cmp(Pred::Sle, y, x),
                                Pred::Sle => return self.cmp(Pred::Slt, y, x),
                                _ => {}
                            }
                        }
                        if let N::Ite(c, x, y) = self.n(a).clone() {
                            if self.cv(x).is_some() || self.cv(y).is_some() {
                                let nx = self.not(x);
                                let ny = self.not(y);
                                return self.ite(c, nx, ny);
                            }
                        }
                    }
                }
                Op::Shl => {
                    let s = y.u128();
                    if y.big().bits() > 32 || s >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let s = s as u32;
                    let hi = self.extract(a, 0, w - s);
                    let z = self.konst(s, 0);
                    return self.concat(hi, z);
                }
                Op::LShr => {
                    let s = y.u128();
                    if y.big().bits() > 32 || s >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let s = s as u32;
                    let lo = self.extract(a, s, w - s);
                    return self.zext(lo, w);
                }
                Op::AShr => {
                    let s = y.u128();
                    let s = if y.big().bits() > 32 || s >= w as u128 {
                        w - 1
                    } else {
                        s as u32
                    };
                    let lo = self.extract(a, s, w - s);
                    return self.sext(lo, w);
                }
                Op::And => {
                    // contiguous mask -> concat/extract
                    let yb = y.big();
                    let bits = yb.bits() as u32;
                    let tz = yb.trailing_zeros().unwrap_or(0) as u32;
                    let cont = {
                        let s = (&yb >> tz) + BigUint::one();
                        s.count_ones() == 1
                    };
                    if cont {
                        let mid = self.extract(a, tz, bits - tz);
                        let m = if tz > 0 {
                            let z = self.konst(tz, 0);
                            self.concat(mid, z)
                        } else {
                            mid
                        };
                        return self.zext(m, w);
                    }
                    if let N::Ite(c, x, y) = self.n(a).clone() {
                        if self.cv(x).is_some() && self.cv(y).is_some() {
                            let nx = self.bin(op, x, b);
                            let ny = self.bin(op, y, b);
                            return self.ite(c, nx, ny);
                        }
                    }
                }
                Op::Mul => {
                    let yb = y.big();
                    if yb.count_ones() == 1 {
                        let tz = yb.trailing_zeros().unwrap();
                        let s = self.konst(w, tz as u128);
                        return self.bin(Op::Shl, a, s);
                    }
                }
                Op::UDiv => {
                    let yb = y.big();
                    if yb.count_ones() == 1 {
                        let tz = yb.trailing_zeros().unwrap();
                        let s = self.konst(w, tz as u128);
                        return self.bin(Op::LShr, a, s);
                    }
                }
                Op::URem => {
                    let yb = y.big();
                    if yb.count_ones() == 1 {
                        let m = self.kv(w, V::from_big(w, yb - BigUint::one()));
                        return self.bin(Op::And, a, m);
                    }
                }
                _ => {}
            }
            if matches!(op, Op::Add | Op::Or | Op::Mul | Op::Xor) {
                if let N::Ite(c, x, y) = self.n(a).clone() {
                    if self.cv(x).is_some() && self.cv(y).is_some() {
                        let nx = self.bin(op, x, b);
                        let ny = self.bin(op, y, b);
                        return self.ite(c, nx, ny);
                    }
                }
            }
        }
        if let Some(x) = self.cv(a).cloned() {
            if x.is_zero()
                && matches!(
                    op,
                    Op::UDiv | Op::URem | Op::Shl | Op::LShr | Op::AShr
                )
            {
                return a;
            }
        }
        if a == b {
            match op {
                Op::Sub | Op::Xor => return self.konst(w, 0),
                Op::And | Op::Or => return a,
                _ => {}
            }
        }
        if matches!(op, Op::UDiv | Op::URem) && w > 1 {
            if let Some(r) = self.narrow(op, a, b, w) {
                return r;
            }
        }
        if op == Op::Sub && w > 8 && w <= 128 {
            if let Some((p, q)) = self.cancel(a, b, w) {
                return self.bin(Op::Sub, p, q);
            }
        }
        match op {
            Op::Sub => {
                // (x + b) - b, (a' + c1) - ...
                if let N::Bin(Op::Add, x, y) = self.n(a).clone() {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                    // (x + c) - (y + d)
                    if let N::Bin(Op::Add, x2, y2) = self.n(b).clone() {
                        if x == x2 {
                            return self.bin(Op::Sub, y, y2);
                        }
                    }
                }
                if let N::Bin(Op::Add, x, y) = self.n(b).clone() {
                    if x == a {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Sub, z, y);
                    }
                    if y == a {
                        let z = self.konst(w, 0);
                        return self.bin(Op::Sub, z, x);
                    }
                }
            }
            Op::Add => {
                if let N::Bin(Op::Sub, x, y) = self.n(a).clone() {
                    if y == b {
                        return x;
                    }
                }
                if let N::Bin(Op::Sub, x, y) = self.n(b).clone() {
                    if y == a {
                        return x;
                    }
                }
            }
            Op::Or | Op::Xor => {
                // disjoint concat merging
                if let Some(r) = self.merge_or(op, a, b) {
                    return r;
                }
                if w == 1 && op == Op::Or {
                    if self.not(a) == b {
                        return self.tru();
                    }
                }
            }
            Op::And => {
                if w > 1 {
                    // push into zero-extended concat: (0 ++ x) & y  => 0 ++ (x & y.lo)
                    for (p, q) in [(a, b), (b, a)] {
                        if let N::Concat(h, l) = self.n(p).clone() {
                            if self.cv(h).map(|v| v.is_zero()).unwrap_or(false) {
                                let lw = self.w(l);
                                let ql = self.extract(q, 0, lw);
                                let r = self.bin(Op::And, l, ql);
                                return self.zext(r, w);
                            }
                        }
                    }
                } else if self.not(a) == b {
                    return self.fals();
                }
            }
            _ => {}
        }
        self.mk(N::Bin(op, a, b), w)
    }

    /// Sums of small terms that cannot wrap: one canonical form, sum of coefficient * term.
    fn linear(&mut self, op: Op, a: E, b: E, w: u32) -> Option<E> {
        let is = |s: &Self, e: E| {
            let e = match s.n(e) {
                N::Concat(h, l) if s.is_zero_e(*h) => *l,
                _ => e,
            };
            match s.n(e) {
                N::Bin(Op::Add, _, _) => true,
                N::Bin(Op::Mul, _, k) => s.cv(*k).is_some(),
                N::Concat(_, l) => s.is_zero_e(*l),
                _ => false,
            }
        };
        let (ua, ub) = (self.umax[a as usize]?, self.umax[b as usize]?);
        let top = match op {
            Op::Add => ua.checked_add(ub)?,
            _ => ua.checked_mul(ub)?,
        };
        if w < 128 && top > mask128(w) {
            return None;
        }
        let (mut terms, mut k) = (vec![], 0u128);
        if op == Op::Mul {
            let (x, c) = match (self.cv(a), self.cv(b)) {
                (Some(V::S(c)), None) => (b, *c),
                (None, Some(V::S(c))) => (a, *c),
                _ => return None,
            };
            if c < 2 || !is(self, x) {
                return None;
            }
            if !self.terms(x, c, w, &mut terms, &mut k) || (terms.len() + (k != 0) as usize) < 2 {
                return None;
            }
        } else {
            if !(is(self, a) || is(self, b)) {
                return None;
            }
            if !self.terms(a, 1, w, &mut terms, &mut k) || !self.terms(b, 1, w, &mut terms, &mut k) {
                return None;
            }
        }
        let m = Self::collect(terms);
        Some(self.sum(m, k, w))
    }
    fn collect(mut terms: Vec<(E, u128)>) -> Vec<(E, u128)> {
        terms.sort();
        let mut m: Vec<(E, u128)> = vec![];
        for (e, c) in terms {
            match m.last_mut() {
                Some(l) if l.0 == e => l.1 += c,
                _ => m.push((e, c)),
            }
        }
        m
    }
    fn sum(&mut self, m: Vec<(E, u128)>, k: u128, w: u32) -> E {
        let mut acc: Option<E> = None;
        for (e, c) in m {
            let t = if c == 1 {
                e
            } else if c.is_power_of_two() {
                let tz = c.trailing_zeros();
                let hi = self.extract(e, 0, w - tz);
                let z = self.konst(tz, 0);
                self.concat(hi, z)
            } else {
                let kc = self.konst(w, c);
                self.mk(N::Bin(Op::Mul, e, kc), w)
            };
            acc = Some(match acc {
                None => t,
                Some(x) => self.mk(N::Bin(Op::Add, x, t), w),
            });
        }
        let acc = match acc {
            None => return self.konst(w, k),
            Some(x) => x,
        };
        if k == 0 {
            return acc;
        }
        let kc = self.konst(w, k);
        self.mk(N::Bin(Op::Add, acc, kc), w)
    }
    /// a and b without the summands they have in common, when both are sums that do not wrap.
    fn cancel(&mut self, a: E, b: E, w: u32) -> Option<(E, E)> {
        let is = |s: &Self, e: E| {
            let e = match s.n(e) {
                N::Concat(h, l) if s.is_zero_e(*h) => *l,
                _ => e,
            };
            matches!(s.n(e), N::Bin(Op::Add, _, _))
        };
        if !(is(self, a) || is(self, b)) {
            return None;
        }
        self.umax[a as usize]?;
        self.umax[b as usize]?;
        let (mut ta, mut ka, mut tb, mut kb) = (vec![], 0, vec![], 0);
        if !self.terms(a, 1, w, &mut ta, &mut ka) || !self.terms(b, 1, w, &mut tb, &mut kb) {
            return None;
        }
        let (mut ma, mut mb) = (Self::collect(ta), Self::collect(tb));
        let mut any = false;
        let k = ka.min(kb);
        if k != 0 {
            any = true;
            ka -= k;
            kb -= k;
        }
        for (e, c) in ma.iter_mut() {
            if let Some((_, d)) = mb.iter_mut().find(|(f, _)| f == e) {
                let t = (*c).min(*d);
                *c -= t;
                *d -= t;
                any |= t != 0;
            }
        }
        if !any {
            return None;
        }
        ma.retain(|(_, c)| *c != 0);
        mb.retain(|(_, c)| *c != 0);
        Some((self.sum(ma, ka, w), self.sum(mb, kb, w)))
    }
    /// Collects coef * e (e of width <= w, no wrapping anywhere) as terms of width w.
    fn terms(&mut self, e: E, coef: u128, w: u32, out: &mut Vec<(E, u128)>, k: &mut u128) -> bool {
        let ew = self.w(e);
        let fits = |s: &Self, x: E, y: E, mul: bool| match (s.umax[x as usize], s.umax[y as usize]) {
            (Some(p), Some(q)) => {
                (if mul { p.checked_mul(q) } else { p.checked_add(q) }).map_or(false, |t| t <= mask128(ew))
            }
            _ => false,
        };
        match self.n(e).clone() {
            N::Const(V::S(v)) => match v.checked_mul(coef).and_then(|p| p.checked_add(*k)) {
                Some(s) => {
                    *k = s;
                    return true;
                }
                None => return false,
            },
            N::Bin(Op::Add, x, y) if fits(self, x, y, false) => {
                return self.terms(x, coef, w, out, k) && self.terms(y, coef, w, out, k);
            }
            N::Bin(Op::Mul, x, y) if self.cv(y).is_some() && fits(self, x, y, true) => {
                if let Some(V::S(v)) = self.cv(y) {
                    return match v.checked_mul(coef) {
                        Some(c) => self.terms(x, c, w, out, k),
                        None => false,
                    };
                }
            }
            N::Concat(h, l) if self.is_zero_e(h) => return self.terms(l, coef, w, out, k),
            N::Concat(h, l) if self.is_zero_e(l) && self.w(l) < 64 => {
                return match (1u128 << self.w(l)).checked_mul(coef) {
                    Some(c) => self.terms(h, c, w, out, k),
                    None => false,
                };
            }
            _ => {}
        }
        if out.len() >= 12 {
            return false;
        }
        let z = self.zext(e, w);
        out.push((z, coef));
        true
    }

    /// e as c*q + r without wrapping, where r keeps the terms that are not multiples of c.
    fn split_multiple(&mut self, e: E, c: u128, depth: u32) -> (Option<E>, Option<E>) {
        let w = self.w(e);
        match self.n(e).clone() {
            N::Const(V::S(v)) => {
                let (q, r) = (v / c, v % c);
                let q = if q == 0 { None } else { Some(self.konst(w, q)) };
                let r = if r == 0 { None } else { Some(self.konst(w, r)) };
                (q, r)
            }
            N::Bin(Op::Mul, x, k) if matches!(self.n(k), N::Const(V::S(v)) if *v % c == 0) => {
                let fits = match (self.umax[x as usize], self.cv(k)) {
                    (Some(m), Some(V::S(v))) => m.checked_mul(*v).map_or(false, |p| w >= 128 || p <= mask128(w)),
                    _ => false,
                };
                if !fits {
                    return (None, Some(e));
                }
                let V::S(v) = self.cv(k).unwrap().clone() else { unreachable!() };
                let k = self.konst(w, v / c);
                (Some(self.bin(Op::Mul, x, k)), None)
            }
            N::Bin(Op::Add, x, y) if depth < 12 => {
                let fits = match (self.umax[x as usize], self.umax[y as usize]) {
                    (Some(a), Some(b)) => a.checked_add(b).map_or(false, |p| w >= 128 || p <= mask128(w)),
                    _ => false,
                };
                if !fits {
                    return (None, Some(e));
                }
                let (q1, r1) = self.split_multiple(x, c, depth + 1);
                let (q2, r2) = self.split_multiple(y, c, depth + 1);
                let mut sum = |a: Option<E>, b: Option<E>| match (a, b) {
                    (Some(a), Some(b)) => Some(self.bin(Op::Add, a, b)),
                    (a, b) => a.or(b),
                };
                (sum(q1, q2), sum(r1, r2))
            }
            N::Concat(h, l) if self.cv(h).map_or(false, |v| v.is_zero()) => {
                let (q, r) = self.split_multiple(l, c, depth + 1);
                (q.map(|q| self.zext(q, w)), r.map(|r| self.zext(r, w)))
            }
            _ => (None, Some(e)),
        }
    }

    fn narrow(&mut self, op: Op, a: E, b: E, w: u32) -> Option<E> {
        let (ua, ub) = (self.umax[a as usize]?, self.umax[b as usize]?);
        if op != Op::Mul {
            if let Some(V::S(c)) = self.cv(b).cloned() {
                if c != 0 {
                    if ua < c {
                        return Some(if op == Op::URem { a } else { self.konst(w, 0) });
                    }
                    let (q, r) = self.split_multiple(a, c, 0);
                    if let Some(q) = q {
                        let rest = match r {
                            Some(r) => self.bin(op, r, b),
                            None => self.konst(w, 0),
                        };
                        return Some(if op == Op::URem { rest } else { self.bin(Op::Add, q, rest) });
                    }
                }
            }
        }
        let top = match op {
            Op::Mul => ua.checked_mul(ub)?,
            // x / 0 is all ones
            Op::UDiv if self.cv(b).is_none() => return None,
            _ => 0,
        };
        let m = ua | ub | top;
        let k = (128 - m.leading_zeros()).max(1);
        if k >= w {
            return None;
        }
        let (x, y) = (self.extract(a, 0, k), self.extract(b, 0, k));
        let r = self.bin(op, x, y);
        Some(self.zext(r, w))
    }

    fn is_zero_e(&self, e: E) -> bool {
        self.cv(e).map(|v| v.is_zero()).unwrap_or(false)
    }

    /// (a | b) where halves are known zero: distribute over concat structure.
    fn merge_or(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        for (p, q) in [(a, b), (b, a)] {
            if let N::Concat(h, l) = self.n(p).clone() {
                let lw = self.w(l);
                let zh = self.is_zero_e(h);
                let zl = self.is_zero_e(l);
                if zh || zl {
                    if let N::Concat(_, _) = self.n(q) {
                        // Only when splitting q keeps things simple on at least one side.
                        let qh = self.extract(q, lw, w - lw);
                        let ql = self.extract(q, 0, lw);
                        if self.is_zero_e(qh) || self.is_zero_e(ql) || (zh && zl) {
                            let nh = self.bin(op, h, qh);
                            let nl = self.bin(op, l, ql);
                            return Some(self.concat(nh, nl));
                        }
                    } else if self.cv(q).is_some() {
                        let qh = self.extract(q, lw, w - lw);
                        let ql = self.extract(q, 0, lw);
                        let nh = self.bin(op, h, qh);
                        let nl = self.bin(op, l, ql);
                        return Some(self.concat(nh, nl));
                    }
                }
            }
        }
        None
    }

    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let o = self.kv(w, V::ones(w));
        self.bin(Op::Xor, a, o)
    }
    pub fn neg(&mut self, a: E) -> E {
        let w = self.w(a);
        let z = self.konst(w, 0);
        self.bin(Op::Sub, z, a)
    }
    pub fn and1(&mut self, a: E, b: E) -> E {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: E, b: E) -> E {
        self.bin(Op::Or, a, b)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.cmp(Pred::Eq, a, b)
    }
    pub fn ne(&mut self, a: E, b: E) -> E {
        let e = self.cmp(Pred::Eq, a, b);
        self.not(e)
    }

    pub fn lz(&self, e: E) -> u32 {
        self.lead_zeros(e, 0)
    }

    /// Number of known-zero leading bits (cheap, structural).
    /// known zero bits at the bottom
    pub fn tz(&self, e: E) -> u32 {
        match self.n(e) {
            N::Const(v) => v.big().trailing_zeros().map_or(self.w(e), |t| t as u32),
            N::Concat(h, l) => {
                let t = self.tz(*l);
                if t == self.w(*l) {
                    t + self.tz(*h)
                } else {
                    t
                }
            }
            _ => 0,
        }
    }
    fn lead_zeros(&self, e: E, depth: u32) -> u32 {
        let w = self.w(e);
        if let Some(m) = self.umax[e as usize] {
            return w - (128 - m.leading_zeros()).min(w);
        }
        match self.n(e) {
            N::Const(v) => w - (v.big().bits() as u32),
            N::Concat(h, l) => {
                let hz = self.lead_zeros(*h, depth);
                if hz == self.w(*h) && depth < 8 {
                    hz + self.lead_zeros(*l, depth + 1)
                } else {
                    hz
                }
            }
            N::Ite(_, a, b) if depth < 4 => self
                .lead_zeros(*a, depth + 1)
                .min(self.lead_zeros(*b, depth + 1)),
            N::Bin(Op::And, a, b) if depth < 4 => self
                .lead_zeros(*a, depth + 1)
                .max(self.lead_zeros(*b, depth + 1)),
            N::Bin(Op::UDiv, a, _) if depth < 4 => self.lead_zeros(*a, depth + 1),
            N::Bin(Op::URem, a, b) if depth < 4 => self
                .lead_zeros(*a, depth + 1)
                .max(self.lead_zeros(*b, depth + 1)),
            N::Bin(Op::Or, a, b) | N::Bin(Op::Xor, a, b) if depth < 4 => self
                .lead_zeros(*a, depth + 1)
                .min(self.lead_zeros(*b, depth + 1)),
            N::Bin(Op::Add, a, b) if depth < 4 => self
                .lead_zeros(*a, depth + 1)
                .min(self.lead_zeros(*b, depth + 1))
                .saturating_sub(1),
            _ => 0,
        }
    }

    pub fn cmp(&mut self, p: Pred, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = eval_cmp(p, w, x, y);
            return self.konst(1, r as u128);
        }
        if a == b {
            return match p {
                Pred::Eq | Pred::Ule | Pred::Sle => self.tru(),
                _ => self.fals(),
            };
        }
        let (a, b) = if p == Pred::Eq && (self.cv(a).is_some() || (self.cv(b).is_none() && a > b))
        {
            (b, a)
        } else {
            (a, b)
        };
        // narrowing of unsigned comparisons / equality using known-zero leading bits
        if w > 1 && !matches!(p, Pred::Slt | Pred::Sle) {
            let (za, zb) = (self.lead_zeros(a, 0), self.lead_zeros(b, 0));
            if let (Some(V::S(v)), Some(m)) = (self.cv(b).cloned(), self.umax[a as usize]) {
                match p {
                    Pred::Eq if m < v => return self.fals(),
                    Pred::Ult if m < v => return self.tru(),
                    Pred::Ule if m <= v => return self.tru(),
                    _ => {}
                }
            }
            if let (Some(V::S(v)), Some(m)) = (self.cv(a).cloned(), self.umax[b as usize]) {
                match p {
                    Pred::Ult if v >= m => return self.fals(),
                    Pred::Ule if v > m => return self.fals(),
                    _ => {}
                }
            }
            if let Some(v) = self.cv(b).cloned() {
                // a has za leading zeros: a < 2^(w-za)
                let nb = v.big().bits() as u32;
                if nb > w - za {
                    // b > a always
                    return match p {
                        Pred::Eq => self.fals(),
                        _ => self.tru(),
                    };
                }
            }
            if let Some(v) = self.cv(a).cloned() {
                let na = v.big().bits() as u32;
                if na > w - zb {
                    return self.fals();
                }
            }
            if w > 8 && w <= 128 && self.cv(a).is_none() && self.cv(b).is_none() {
                if let Some((x, y)) = self.cancel(a, b, w) {
                    return self.cmp(p, x, y);
                }
            }
            // x <= x + y when the sum cannot wrap
            for (x, s, flip) in [(a, b, false), (b, a, true)] {
                if let N::Bin(Op::Add, p1, p2) = self.n(s).clone() {
                    if p1 == x || p2 == x {
                        let fits = match (self.umax[p1 as usize], self.umax[p2 as usize]) {
                            (Some(p), Some(q)) => p.checked_add(q).map_or(false, |t| w >= 128 || t <= mask128(w)),
                            _ => false,
                        };
                        if fits && p == Pred::Ule && !flip {
                            return self.tru();
                        }
                        if fits && p == Pred::Ult && flip {
                            return self.fals();
                        }
                    }
                }
            }
            // x*y <> z*y  when neither product wraps
            if let (N::Bin(Op::Mul, a1, a2), N::Bin(Op::Mul, b1, b2)) = (self.n(a).clone(), self.n(b).clone()) {
                let common = if a1 == b1 {
                    Some((a1, a2, b2))
                } else if a1 == b2 {
                    Some((a1, a2, b1))
                } else if a2 == b1 {
                    Some((a2, a1, b2))
                } else if a2 == b2 {
                    Some((a2, a1, b1))
                } else {
                    None
                };
                if let Some((y, p1, q1)) = common {
                    let fits = |x: &Ctx, u: E, v: E| {
                        x.lead_zeros(u, 0) + x.lead_zeros(v, 0) >= w
                            || match (x.umax[u as usize], x.umax[v as usize]) {
                                (Some(p), Some(q)) => p.checked_mul(q).map_or(false, |t| w >= 128 || t <= mask128(w)),
                                _ => false,
                            }
                    };
                    if fits(self, y, p1) && fits(self, y, q1) {
                        let zero = self.konst(w, 0);
                        let y0 = self.cmp(Pred::Eq, y, zero);
                        let c = self.cmp(p, p1, q1);
                        return match p {
                            Pred::Ult => {
                                let ny = self.not(y0);
                                self.and1(ny, c)
                            }
                            _ => self.or1(y0, c),
                        };
                    }
                }
            }
            let z = za.min(zb);
            if z > 0 && z < w {
                let na = self.extract(a, 0, w - z);
                let nb = self.extract(b, 0, w - z);
                return self.cmp(p, na, nb);
            }
        }
        if matches!(p, Pred::Slt | Pred::Sle) && w > 1 {
            let (za, zb) = (self.lead_zeros(a, 0), self.lead_zeros(b, 0));
            if za > 0 && zb > 0 {
                let q = if p == Pred::Slt { Pred::Ult } else { Pred::Ule };
                return self.cmp(q, a, b);
            }
        }
        match p {
            Pred::Eq => {
                if w == 1 {
                    if let Some(v) = self.cv(b) {
                        return if v.is_zero() { self.not(a) } else { a };
                    }
                }
                if let Some(v) = self.cv(b).cloned() {
                    match self.n(a).clone() {
                        N::Concat(h, l) => {
                            let (wh, wl) = (self.w(h), self.w(l));
                            let vh = eval_extract(&v, wl, wh);
                            let vl = eval_extract(&v, 0, wl);
                            let kh = self.kv(wh, vh);
                            let kl = self.kv(wl, vl);
                            let e1 = self.cmp(Pred::Eq, h, kh);
                            if self.is_false(e1) {
                                return e1;
                            }
                            let e2 = self.cmp(Pred::Eq, l, kl);
                            return self.and1(e1, e2);
                        }
                        N::Ite(c, x, y) => {
                            if self.cv(x).is_some() || self.cv(y).is_some() {
                                let ex = self.cmp(Pred::Eq, x, b);
                                let ey = self.cmp(Pred::Eq, y, b);
                                if self.cv(ex).is_some() || self.cv(ey).is_some() {
                                    return self.ite(c, ex, ey);
                                }
                            }
                        }
                        N::Bin(Op::Add, x, c) if self.cv(c).is_some() => {
                            let k = self.bin(Op::Sub, b, c);
                            return self.cmp(Pred::Eq, x, k);
                        }
                        N::Bin(Op::Xor, x, c) if self.cv(c).is_some() => {
                            let k = self.bin(Op::Xor, b, c);
                            return self.cmp(Pred::Eq, x, k);
                        }
                        N::Bin(Op::Xor, x, y) if v.is_zero() => {
                            return self.cmp(Pred::Eq, x, y);
                        }
                        N::Bin(Op::Sub, x, y) if v.is_zero() => {
                            return self.cmp(Pred::Eq, x, y);
                        }
                        N::Bin(Op::Or, x, y) if v.is_zero() => {
                            let ex = self.cmp(Pred::Eq, x, b);
                            let ey = self.cmp(Pred::Eq, y, b);
                            return self.and1(ex, ey);
                        }
                        N::SExt(x) => {
                            let xw = self.w(x);
                            let lo = eval_extract(&v, 0, xw);
                            let back = eval_sext(xw, &lo, w);
                            if back != v {
                                return self.fals();
                            }
                            let k = self.kv(xw, lo);
                            return self.cmp(Pred::Eq, x, k);
                        }
                        _ => {}
                    }
                } else {
                    // concat == concat with same split
                    if let (N::Concat(h1, l1), N::Concat(h2, l2)) =
                        (self.n(a).clone(), self.n(b).clone())
                    {
                        if self.w(l1) == self.w(l2) {
                            let e1 = self.cmp(Pred::Eq, h1, h2);
                            if self.is_false(e1) {
                                return e1;
                            }
                            let e2 = self.cmp(Pred::Eq, l1, l2);
                            return self.and1(e1, e2);
                        }
                    }
                    if let (N::Bin(Op::Add, x, y), N::Bin(Op::Add, x2, y2)) =
                        (self.n(a).clone(), self.n(b).clone())
                    {
                        if x == x2 {
                            return self.cmp(Pred::Eq, y, y2);
                        }
                        if y == y2 {
                            return self.cmp(Pred::Eq, x, x2);
                        }
                    }
                }
            }
            Pred::Ult => {
                if self.is_zero_e(b) {
                    return self.fals();
                }
                if let Some(v) = self.cv(b) {
                    if *v == V::new(w, 1) {
                        let z = self.konst(w, 0);
                        return self.cmp(Pred::Eq, a, z);
                    }
                }
                if self.is_zero_e(a) {
                    let e = self.cmp(Pred::Eq, a, b);
                    return self.not(e);
                }
                if let Some(v) = self.cv(a) {
                    if v.is_ones(w) {
                        return self.fals();
                    }
                }
                if let Some(v) = self.cv(b) {
                    if v.is_ones(w) {
                        let e = self.cmp(Pred::Eq, a, b);
                        return self.not(e);
                    }
                }
            }
            Pred::Ule => {
                if self.is_zero_e(a) {
                    return self.tru();
                }
                if let Some(v) = self.cv(b) {
                    if v.is_ones(w) {
                        return self.tru();
                    }
                    if v.is_zero() {
                        return self.cmp(Pred::Eq, a, b);
                    }
                }
                if let Some(v) = self.cv(a) {
                    if v.is_ones(w) {
                        return self.cmp(Pred::Eq, a, b);
                    }
                    if *v == V::new(w, 1) {
                        let z = self.konst(w, 0);
                        let e = self.cmp(Pred::Eq, b, z);
                        return self.not(e);
                    }
                }
            }
            Pred::Slt => {
                // x < 0 (sign test)
                if self.is_zero_e(b) {
                    return self.extract(a, w - 1, 1);
                }
                if let Some(v) = self.cv(a) {
                    if v.is_ones(w) {
                        let s = self.extract(b, w - 1, 1);
                        return self.not(s);
                    }
                }
            }
            Pred::Sle => {
                if self.is_zero_e(a) {
                    let s = self.extract(b, w - 1, 1);
                    return self.not(s);
                }
                if let Some(v) = self.cv(b) {
                    if v.is_ones(w) {
                        return self.extract(a, w - 1, 1);
                    }
                }
            }
        }
        // ite with constants on one side
        if self.cv(b).is_some() {
            if let N::Ite(c, x, y) = self.n(a).clone() {
                if self.cv(x).is_some() && self.cv(y).is_some() {
                    let ex = self.cmp(p, x, b);
                    let ey = self.cmp(p, y, b);
                    return self.ite(c, ex, ey);
                }
            }
        }
        if self.cv(a).is_some() {
            if let N::Ite(c, x, y) = self.n(b).clone() {
                if self.cv(x).is_some() && self.cv(y).is_some() {
                    let ex = self.cmp(p, a, x);
                    let ey = self.cmp(p, a, y);
                    return self.ite(c, ex, ey);
                }
            }
        }
        self.mk(N::Cmp(p, a, b), 1)
    }

    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if self.is_true(c) || a == b {
            return a;
        }
        if self.is_false(c) {
            return b;
        }
        // not-condition normalisation
        if let N::Bin(Op::Xor, x, k) = self.n(c).clone() {
            if self.is_true(k) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            if self.is_true(a) && self.is_false(b) {
                return c;
            }
            if self.is_false(a) && self.is_true(b) {
                return self.not(c);
            }
            if self.is_true(a) {
                return self.or1(c, b);
            }
            if self.is_false(b) {
                return self.and1(c, a);
            }
            if self.is_false(a) {
                let nc = self.not(c);
                return self.and1(nc, b);
            }
            if self.is_true(b) {
                let nc = self.not(c);
                return self.or1(nc, a);
            }
        }
        if let N::Ite(c2, x, y) = self.n(a).clone() {
            if c2 == c {
                return self.ite(c, x, b);
            }
            if y == b {
                let cc = self.and1(c, c2);
                return self.ite(cc, x, b);
            }
        }
        if let N::Ite(c2, x, y) = self.n(b).clone() {
            if c2 == c {
                return self.ite(c, a, y);
            }
            if x == a {
                let cc = self.or1(c, c2);
                return self.ite(cc, a, y);
            }
        }
        // common concat structure
        if let (N::Concat(h1, l1), N::Concat(h2, l2)) = (self.n(a).clone(), self.n(b).clone()) {
            if self.w(l1) == self.w(l2) && (h1 == h2 || l1 == l2) {
                let h = self.ite(c, h1, h2);
                let l = self.ite(c, l1, l2);
                return self.concat(h, l);
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }

    fn splits(&self, e: E) -> bool {
        matches!(self.n(e), N::Const(_) | N::Concat(..))
    }

    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw && w > 0, "extract {lo} {w} of {aw}");
        if w == aw {
            return a;
        }
        match self.n(a).clone() {
            N::Const(v) => {
                let r = eval_extract(&v, lo, w);
                self.kv(w, r)
            }
            N::Extract(x, lo2) => self.extract(x, lo + lo2, w),
            N::Concat(h, l) => {
                let lw = self.w(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let pl = self.extract(l, lo, lw - lo);
                    let ph = self.extract(h, 0, lo + w - lw);
                    self.concat(ph, pl)
                }
            }
            N::SExt(x) => {
                let xw = self.w(x);
                if lo + w <= xw {
                    self.extract(x, lo, w)
                } else if lo >= xw {
                    let s = self.extract(x, xw - 1, 1);
                    self.sext(s, w)
                } else {
                    let p = self.extract(x, lo, xw - lo);
                    self.sext(p, w)
                }
            }
            N::Ite(c, x, y)
                if self.cv(x).is_some()
                    || self.cv(y).is_some()
                    || matches!(self.n(x), N::Concat(..) | N::Extract(..))
                    || matches!(self.n(y), N::Concat(..) | N::Extract(..)) =>
            {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.ite(c, ex, ey)
            }
            N::Bin(op @ (Op::And | Op::Or | Op::Xor), x, y)
                if self.splits(x) || self.splits(y) =>
            {
                let ex = self.extract(x, lo, w);
                let ey = self.extract(y, lo, w);
                self.bin(op, ex, ey)
            }
            N::Bin(op @ (Op::Add | Op::Sub | Op::Mul), x, y)
                if lo == 0
                    && (self.cv(x).is_some() || self.lead_zeros(x, 0) >= aw - w)
                    && (self.cv(y).is_some() || self.lead_zeros(y, 0) >= aw - w) =>
            {
                let ex = self.extract(x, 0, w);
                let ey = self.extract(y, 0, w);
                self.bin(op, ex, ey)
            }
            _ => self.mk(N::Extract(a, lo), w),
        }
    }

    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.cv(h), self.cv(l)) {
            let r = eval_concat(wh, x, wl, y);
            return self.kv(w, r);
        }
        // adjacent extracts
        if let (N::Extract(x, lo1), N::Extract(y, lo2)) = (self.n(h), self.n(l)) {
            if x == y && *lo1 == *lo2 + wl {
                let (x, lo2) = (*x, *lo2);
                return self.extract(x, lo2, w);
            }
        }
        // h extract over full low x:  concat(extract(x, wl..), x[0..wl]) where l is var extracted => handled above
        // reassociate: concat(h, concat(h2, l2)) where (h,h2) merge
        if let N::Concat(h2, l2) = self.n(l).clone() {
            if let (N::Extract(x, lo1), N::Extract(y, lo2)) = (self.n(h), self.n(h2)) {
                if x == y && *lo1 == *lo2 + self.w(h2) {
                    let (x, lo2) = (*x, *lo2);
                    let m = self.extract(x, lo2, wh + self.w(h2));
                    return self.concat(m, l2);
                }
            }
            if self.cv(h).is_some() && self.cv(h2).is_some() {
                let m = self.concat(h, h2);
                return self.concat(m, l2);
            }
        }
        // left-nested: concat(concat(a,b), l): keep right-assoc form
        if let N::Concat(h1, l1) = self.n(h).clone() {
            let r = self.concat(l1, l);
            return self.concat(h1, r);
        }
        // extract(x, xlo) on h adjacent with SExt etc: skip
        if let (N::Ite(c1, x1, y1), N::Ite(c2, x2, y2)) = (self.n(h).clone(), self.n(l).clone()) {
            if c1 == c2 {
                let a = self.concat(x1, x2);
                let b = self.concat(y1, y2);
                return self.ite(c1, a, b);
            }
        }
        self.mk(N::Concat(h, l), w)
    }

    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let z = self.konst(w - aw, 0);
        self.concat(z, a)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        match self.n(a).clone() {
            N::Const(v) => {
                let r = eval_sext(aw, &v, w);
                self.kv(w, r)
            }
            N::SExt(x) => self.sext(x, w),
            N::Concat(h, _) if self.is_zero_e(h) => self.zext(a, w),
            N::Ite(c, x, y) if self.cv(x).is_some() && self.cv(y).is_some() => {
                let ex = self.sext(x, w);
                let ey = self.sext(y, w);
                self.ite(c, ex, ey)
            }
            _ => self.mk(N::SExt(a), w),
        }
    }
    pub fn mulovf(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = eval_mulovf(w, x, y);
            return self.konst(1, r as u128);
        }
        let (za, zb) = (self.lead_zeros(a, 0), self.lead_zeros(b, 0));
        if za + zb >= w {
            return self.fals();
        }
        // constant operand: a*c overflows iff a > MAX / c
        for (x, y) in [(a, b), (b, a)] {
            if let Some(v) = self.cv(y).cloned() {
                if v.is_zero() {
                    return self.fals();
                }
                let q = eval_op(Op::UDiv, w, &V::ones(w), &v);
                let k = self.kv(w, q);
                return self.cmp(Pred::Ult, k, x);
            }
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(N::MulOvf(a, b), 1)
    }
    pub fn smulovf(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = eval_smulovf(w, x, y);
            return self.konst(1, r as u128);
        }
        let (a, b) = if a > b { (b, a) } else { (a, b) };
        self.mk(N::SMulOvf(a, b), 1)
    }

    /// Evaluate under a model; unassigned variables are zero.
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, V>) -> V {
        if let N::Const(v) = self.n(e) {
            return v.clone();
        }
        if let Some(v) = memo.get(&e) {
            return v.clone();
        }
        let w = self.w(e);
        let r = match self.n(e) {
            N::Const(v) => v.clone(),
            N::Var(i) => m.get(i).cloned().unwrap_or_else(|| V::new(w, 0)),
            N::Bin(op, a, b) => {
                let x = self.eval(*a, m, memo);
                let y = self.eval(*b, m, memo);
                eval_op(*op, w, &x, &y)
            }
            N::Cmp(p, a, b) => {
                let x = self.eval(*a, m, memo);
                let y = self.eval(*b, m, memo);
                V::S(eval_cmp(*p, self.w(*a), &x, &y) as u128)
            }
            N::Ite(c, a, b) => {
                let c = self.eval(*c, m, memo);
                if c.is_zero() {
                    self.eval(*b, m, memo)
                } else {
                    self.eval(*a, m, memo)
                }
            }
            N::Extract(a, lo) => {
                let x = self.eval(*a, m, memo);
                eval_extract(&x, *lo, w)
            }
            N::Concat(a, b) => {
                let x = self.eval(*a, m, memo);
                let y = self.eval(*b, m, memo);
                eval_concat(self.w(*a), &x, self.w(*b), &y)
            }
            N::SExt(a) => {
                let x = self.eval(*a, m, memo);
                eval_sext(self.w(*a), &x, w)
            }
            N::MulOvf(a, b) => {
                let x = self.eval(*a, m, memo);
                let y = self.eval(*b, m, memo);
                V::S(eval_mulovf(self.w(*a), &x, &y) as u128)
            }
            N::SMulOvf(a, b) => {
                let x = self.eval(*a, m, memo);
                let y = self.eval(*b, m, memo);
                V::S(eval_smulovf(self.w(*a), &x, &y) as u128)
            }
        };
        memo.insert(e, r.clone());
        r
    }

    pub fn children(&self, e: E) -> [Option<E>; 3] {
        match self.n(e) {
            N::Const(_) | N::Var(_) => [None, None, None],
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) | N::MulOvf(a, b) | N::SMulOvf(a, b) => {
                [Some(*a), Some(*b), None]
            }
            N::Ite(c, a, b) => [Some(*c), Some(*a), Some(*b)],
            N::Extract(a, _) | N::SExt(a) => [Some(*a), None, None],
        }
    }

    /// Sorted set of variables an expression depends on.
    pub fn vars_of(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = self.varset_cache.get(&e) {
            return v.clone();
        }
        let mut seen = HashSet::default();
        let mut out = std::collections::BTreeSet::new();
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            if x != e {
                if let Some(v) = self.varset_cache.get(&x) {
                    out.extend(v.iter().copied());
                    continue;
                }
            }
            if let N::Var(i) = self.n(x) {
                out.insert(*i);
            }
            for c in self.children(x).into_iter().flatten() {
                st.push(c);
            }
        }
        let r = std::rc::Rc::new(out.into_iter().collect::<Vec<_>>());
        self.varset_cache.insert(e, r.clone());
        r
    }

    /// Rebuild `e` replacing sub-expressions according to `sub` (memoised in `memo`).
    pub fn substitute(
        &mut self,
        e: E,
        sub: &HashMap<E, E>,
        memo: &mut HashMap<E, E>,
        budget: &mut u32,
    ) -> E {
        if let Some(r) = sub.get(&e) {
            return *r;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        if *budget == 0 {
            return e;
        }
        *budget -= 1;
        let r = match self.n(e).clone() {
            N::Const(_) | N::Var(_) => e,
            N::Bin(op, a, b) => {
                let x = self.substitute(a, sub, memo, budget);
                let y = self.substitute(b, sub, memo, budget);
                if x == a && y == b {
                    e
                } else {
                    self.bin(op, x, y)
                }
            }
            N::Cmp(p, a, b) => {
                let x = self.substitute(a, sub, memo, budget);
                let y = self.substitute(b, sub, memo, budget);
                if x == a && y == b {
                    e
                } else {
                    self.cmp(p, x, y)
                }
            }
            N::Ite(c, a, b) => {
                let z = self.substitute(c, sub, memo, budget);
                if self.is_true(z) {
                    return self.substitute(a, sub, memo, budget);
                }
                if self.is_false(z) {
                    return self.substitute(b, sub, memo, budget);
                }
                let x = self.substitute(a, sub, memo, budget);
                let y = self.substitute(b, sub, memo, budget);
                if x == a && y == b && z == c {
                    e
                } else {
                    self.ite(z, x, y)
                }
            }
            N::Extract(a, lo) => {
                let x = self.substitute(a, sub, memo, budget);
                if x == a {
                    e
                } else {
                    let w = self.w(e);
                    self.extract(x, lo, w)
                }
            }
            N::Concat(a, b) => {
                let x = self.substitute(a, sub, memo, budget);
                let y = self.substitute(b, sub, memo, budget);
                if x == a && y == b {
                    e
                } else {
                    self.concat(x, y)
                }
            }
            N::SExt(a) => {
                let x = self.substitute(a, sub, memo, budget);
                if x == a {
                    e
                } else {
                    let w = self.w(e);
                    self.sext(x, w)
                }
            }
            N::MulOvf(a, b) => {
                let x = self.substitute(a, sub, memo, budget);
                let y = self.substitute(b, sub, memo, budget);
                if x == a && y == b {
                    e
                } else {
                    self.mulovf(x, y)
                }
            }
            N::SMulOvf(a, b) => {
                let x = self.substitute(a, sub, memo, budget);
                let y = self.substitute(b, sub, memo, budget);
                if x == a && y == b {
                    e
                } else {
                    self.smulovf(x, y)
                }
            }
        };
        memo.insert(e, r);
        r
    }
}

//! Parser for textual LLVM IR (as emitted by rustc after fat LTO). Function bodies are parsed lazily.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

fn align_up(x: u64, a: u64) -> u64 {
    x.div_ceil(a) * a
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                b.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    /// bytes written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64).div_ceil(8),
            Ty::Vec(n, t) => (n * t.bits() as u64).div_ceil(8),
            _ => self.size(),
        }
    }
    /// allocation size
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(_) => align_up(self.store_size(), self.align()),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(..) => align_up(self.store_size(), self.align()),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    o += t.size();
                }
                if !packed {
                    o = align_up(o, self.align());
                }
                o
            }
            _ => 0,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            Ty::Vec(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {self:?}"),
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = align_up(o, t.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_off {self:?}"),
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field_ty {self:?}"),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..))
    }
    pub fn n_fields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// Constants (fully resolved: addresses are numbers).
#[derive(Clone, Debug)]
pub enum C {
    Int(num_bigint::BigUint),
    Undef,
    Agg(Vec<C>),
    Bytes(Vec<u8>),
    Zero,
    Float(f64),
}

#[derive(Clone, Debug)]
pub enum O {
    Reg(u32),
    K(C, Ty),
    Pre(u32),
}

impl I {
    pub fn ops<F: FnMut(&mut O)>(&mut self, f: &mut F) {
        match self {
            I::Alloca(_, a, _) | I::Load(_, a) | I::Cast(_, _, a, _) | I::ExtractValue(_, a, _)
            | I::CondBr(a, _, _) | I::Switch(_, a, _, _) | I::Freeze(_, a) | I::FNeg(_, a) => f(a),
            I::Store(_, a, b) | I::Bin(_, _, a, b) | I::Icmp(_, _, a, b) | I::Fcmp(_, _, a, b)
            | I::InsertValue(_, a, _, b, _) | I::ExtractElem(_, a, b) | I::Shuffle(_, a, b, _)
            | I::AtomicRmw(_, _, a, b) => {
                f(a);
                f(b)
            }
            I::Select(_, a, b, c, _) | I::InsertElem(_, a, b, c) | I::CmpXchg(_, a, b, c) => {
                f(a);
                f(b);
                f(c)
            }
            I::Gep(_, a, v, _) => {
                f(a);
                for (_, o) in v {
                    f(o)
                }
            }
            I::Phi(_, v) => {
                for p in v {
                    f(&mut p.v)
                }
            }
            I::Call(c, v, _, _) => {
                if let Callee::Indirect(o) = c {
                    f(o)
                }
                for (_, o) in v {
                    f(o)
                }
            }
            I::Ret(Some((_, o))) => f(o),
            _ => {}
        }
    }
}

#[derive(Clone, Debug)]
pub struct PhiIn {
    pub from: u32,
    pub v: O,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(String),
    Indirect(O),
}

#[derive(Clone, Debug)]
pub enum I {
    Alloca(Ty, O, u64),
    Load(Ty, O),
    Store(Ty, O, O),
    Gep(Ty, O, Vec<(Ty, O)>, Option<Ty>), // last: vector-of-pointers result (unsupported)
    Bin(String, Ty, O, O),
    Icmp(String, Ty, O, O),
    Fcmp(String, Ty, O, O),
    Select(Ty, O, O, O, Ty),
    Phi(Ty, Vec<PhiIn>),
    Cast(String, Ty, O, Ty),
    Call(Callee, Vec<(Ty, O)>, Ty, Option<(u32, u32)>),
    ExtractValue(Ty, O, Vec<u64>),
    InsertValue(Ty, O, Ty, O, Vec<u64>),
    ExtractElem(Ty, O, O),
    InsertElem(Ty, O, O, O),
    Shuffle(Ty, O, O, Vec<Option<u64>>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(Ty, O, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, O)>),
    Unreachable,
    AtomicRmw(String, Ty, O, O),
    CmpXchg(Ty, O, O, O),
    Fence,
    Freeze(Ty, O),
    FNeg(Ty, O),
    Unsupported(String),
}

pub struct Ins {
    pub dst: Option<u32>,
    pub i: I,
    pub dbg: u32,
    pub raw_off: usize,
}

pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub ret: Ty,
    pub nregs: u32,
    pub blocks: Vec<Vec<Ins>>,
    pub id: u32,
}

pub struct GlobalDef {
    pub ty: Ty,
    pub size: u64,
    pub addr: u64,
    pub konst: bool,
    pub external: bool,
    line: (usize, usize),
    init_at: usize,
}

pub struct Module {
    pub text: Vec<u8>,
    pub types: HashMap<String, Ty>,
    pub globals: HashMap<String, GlobalDef>,
    pub global_by_addr: std::collections::BTreeMap<u64, String>,
    pub aliases: HashMap<String, String>,
    pub func_spans: HashMap<String, (usize, usize)>,
    pub declared: HashMap<String, usize>,
    pub func_addr: HashMap<String, u64>,
    pub func_by_addr: HashMap<u64, String>,
    pub md: HashMap<u32, (usize, usize)>,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    W(String),      // word / keyword / type name / number
    Local(String),  // %x
    Global(String), // @x
    Md(String),     // !x
    Str(Vec<u8>),   // "..."
    CStr(Vec<u8>),  // c"..."
    P(u8),          // punctuation
    NL,
    Eof,
}

struct Lex<'a> {
    s: &'a [u8],
    p: usize,
    end: usize,
    depth: i32,
}

fn is_word(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' || c == b'+'
}

impl<'a> Lex<'a> {
    fn quoted(&mut self) -> Vec<u8> {
        // at opening quote
        self.p += 1;
        let mut out = vec![];
        while self.s[self.p] != b'"' {
            if self.s[self.p] == b'\\' {
                if self.s[self.p + 1] == b'\\' {
                    out.push(b'\\');
                    self.p += 2;
                    continue;
                }
                let h = std::str::from_utf8(&self.s[self.p + 1..self.p + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                self.p += 3;
            } else {
                out.push(self.s[self.p]);
                self.p += 1;
            }
        }
        self.p += 1;
        out
    }
    fn next(&mut self) -> T {
        loop {
            if self.p >= self.end {
                return T::Eof;
            }
            let c = self.s[self.p];
            match c {
                b' ' | b'\t' | b'\r' => self.p += 1,
                b'\n' => {
                    self.p += 1;
                    if self.depth == 0 {
                        return T::NL;
                    }
                }
                b';' => {
                    while self.p < self.end && self.s[self.p] != b'\n' {
                        self.p += 1;
                    }
                }
                b'%' | b'@' | b'!' | b'$' if c != b'$' => {
                    self.p += 1;
                    if self.p < self.end && self.s[self.p] == b'"' {
                        let n = String::from_utf8_lossy(&self.quoted()).into_owned();
                        return match c {
                            b'%' => T::Local(n),
                            b'@' => T::Global(n),
                            _ => T::Md(n),
                        };
                    }
                    let st = self.p;
                    while self.p < self.end && is_word(self.s[self.p]) {
                        self.p += 1;
                    }
                    let n = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
                    return match c {
                        b'%' => T::Local(n),
                        b'@' => T::Global(n),
                        _ => T::Md(n),
                    };
                }
                b'"' => return T::Str(self.quoted()),
                b'c' if self.p + 1 < self.end && self.s[self.p + 1] == b'"' => {
                    self.p += 1;
                    return T::CStr(self.quoted());
                }
                b'#' => {
                    let st = self.p;
                    self.p += 1;
                    while self.p < self.end && is_word(self.s[self.p]) {
                        self.p += 1;
                    }
                    return T::W(String::from_utf8_lossy(&self.s[st..self.p]).into_owned());
                }
                _ if is_word(c) => {
                    let st = self.p;
                    while self.p < self.end && is_word(self.s[self.p]) {
                        self.p += 1;
                    }
                    return T::W(String::from_utf8_lossy(&self.s[st..self.p]).into_owned());
                }
                _ => {
                    self.p += 1;
                    match c {
                        b'(' | b'[' | b'{' | b'<' => self.depth += 1,
                        b')' | b']' | b'}' | b'>' => self.depth -= 1,
                        _ => {}
                    }
                    return T::P(c);
                }
            }
        }
    }
}

struct P<'a> {
    l: Lex<'a>,
    t: T,
    t_start: usize,
    m: &'a Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'a> P<'a> {
    fn new(m: &'a Module, start: usize, end: usize) -> P<'a> {
        let mut p = P {
            l: Lex {
                s: &m.text,
                p: start,
                end,
                depth: 0,
            },
            t: T::Eof,
            t_start: start,
            m,
            regs: HashMap::new(),
            blocks: HashMap::new(),
        };
        p.adv();
        p
    }
    fn adv(&mut self) -> T {
        self.t_start = self.l.p;
        let n = self.l.next();
        std::mem::replace(&mut self.t, n)
    }
    fn is_p(&self, c: u8) -> bool {
        self.t == T::P(c)
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(&self.t, T::W(x) if x == w)
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.is_p(c) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.adv();
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: u8) {
        if !self.eat_p(c) {
            self.fail(&format!("expected {:?}", c as char));
        }
    }
    fn fail(&self, msg: &str) -> ! {
        let p = self.t_start;
        let mut s = p;
        while s > 0 && self.m.text[s - 1] != b'\n' {
            s -= 1;
        }
        let mut e = p;
        while e < self.m.text.len() && self.m.text[e] != b'\n' {
            e += 1;
        }
        panic!(
            "parse error: {msg} at token {:?}: {}",
            self.t,
            String::from_utf8_lossy(&self.m.text[s..e.min(s + 600)])
        );
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.t {
                T::P(b'(') | T::P(b'[') | T::P(b'{') | T::P(b'<') => d += 1,
                T::P(b')') | T::P(b']') | T::P(b'}') | T::P(b'>') => d -= 1,
                T::Eof => self.fail("eof"),
                _ => {}
            }
            self.adv();
            if d == 0 {
                return;
            }
        }
    }
    fn at_type(&self) -> bool {
        match &self.t {
            T::W(w) => {
                matches!(
                    w.as_str(),
                    "void" | "ptr" | "float" | "double" | "half" | "label" | "metadata" | "token"
                        | "fp128" | "x86_fp80" | "bfloat"
                ) || (w.len() > 1
                    && w.as_bytes()[0] == b'i'
                    && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            T::P(b'{') | T::P(b'[') | T::P(b'<') => true,
            T::Local(_) => true,
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        match self.adv() {
            T::W(w) => match w.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.adv();
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "half" | "label" | "metadata" | "token" | "fp128" | "x86_fp80" | "bfloat" => {
                    Ty::Other
                }
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap()),
                _ => self.fail(&format!("type {w}")),
            },
            T::Local(n) => match self.m.types.get(&n) {
                Some(t) => t.clone(),
                None => self.fail(&format!("unknown type %{n}")),
            },
            T::P(b'[') => {
                let n = self.num() as u64;
                self.adv(); // x
                let t = self.ty();
                self.exp(b']');
                Ty::Arr(n, Rc::new(t))
            }
            T::P(b'<') => {
                if self.is_p(b'{') {
                    self.adv();
                    let f = self.fields();
                    self.exp(b'>');
                    return Ty::Struct(Rc::new(f), true);
                }
                let n = self.num() as u64;
                self.adv();
                let t = self.ty();
                self.exp(b'>');
                Ty::Vec(n, Rc::new(t))
            }
            T::P(b'{') => {
                let f = self.fields();
                Ty::Struct(Rc::new(f), false)
            }
            t => self.fail(&format!("type token {t:?}")),
        }
    }
    fn fields(&mut self) -> Vec<Ty> {
        let mut f = vec![];
        while !self.is_p(b'}') {
            f.push(self.ty());
            if !self.eat_p(b',') {
                break;
            }
        }
        self.exp(b'}');
        f
    }
    fn num(&mut self) -> i128 {
        match self.adv() {
            T::W(w) => w.parse().unwrap_or_else(|_| self.fail("number")),
            _ => self.fail("number"),
        }
    }
    fn kint(v: i128, w: u32) -> C {
        let m = num_bigint::BigUint::from(1u32) << w;
        if v >= 0 {
            C::Int(num_bigint::BigUint::from(v as u128) % m)
        } else {
            let a = num_bigint::BigUint::from(v.unsigned_abs()) % &m;
            C::Int((&m - a) % m)
        }
    }
    /// constant of the given type
    fn konst(&mut self, ty: &Ty) -> C {
        match self.t.clone() {
            T::W(w) => match w.as_str() {
                "true" => {
                    self.adv();
                    Self::kint(1, 1)
                }
                "false" => {
                    self.adv();
                    Self::kint(0, 1)
                }
                "null" => {
                    self.adv();
                    C::Zero
                }
                "zeroinitializer" | "none" => {
                    self.adv();
                    C::Zero
                }
                "undef" | "poison" => {
                    self.adv();
                    C::Undef
                }
                "splat" => {
                    self.adv();
                    self.exp(b'(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    self.exp(b')');
                    C::Agg(vec![c; ty.n_fields()])
                }
                "getelementptr" => {
                    self.adv();
                    while !self.is_p(b'(') {
                        if let T::W(x) = &self.t {
                            if x == "inrange" {
                                self.adv();
                                self.skip_parens();
                                continue;
                            }
                        }
                        self.adv();
                    }
                    self.exp(b'(');
                    let bt = self.ty();
                    self.exp(b',');
                    let pt = self.ty();
                    let base = self.konst(&pt);
                    let mut a = c_u64(&base);
                    let mut cur = bt;
                    let mut first = true;
                    while self.eat_p(b',') {
                        self.eat_w("inrange");
                        let it = self.ty();
                        let idx = self.konst(&it);
                        let i = sx(c_u64(&idx), it.bits());
                        if first {
                            a = a.wrapping_add((i * cur.size() as i64) as u64);
                            first = false;
                        } else {
                            a = a.wrapping_add(cur.field_off(i as usize));
                            cur = cur.field_ty(i as usize);
                        }
                    }
                    self.exp(b')');
                    Self::kint(a as i128, 64)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast"
                | "ptrtoaddr" => {
                    self.adv();
                    while !self.is_p(b'(') {
                        self.adv();
                    }
                    self.exp(b'(');
                    let t = self.ty();
                    let c = self.konst(&t);
                    self.eat_w("to");
                    let t2 = self.ty();
                    self.exp(b')');
                    if w == "sext" {
                        return Self::kint(sx(c_u64(&c), t.bits()) as i128, t2.bits());
                    }
                    Self::kint(c_u64(&c) as i128, t2.bits())
                }
                "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                    self.adv();
                    while !self.is_p(b'(') {
                        self.adv();
                    }
                    self.exp(b'(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.exp(b',');
                    let t2 = self.ty();
                    let b = self.konst(&t2);
                    self.exp(b')');
                    let (x, y) = (c_u64(&a), c_u64(&b));
                    let r = match w.as_str() {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        "mul" => x.wrapping_mul(y),
                        "xor" => x ^ y,
                        "and" => x & y,
                        "or" => x | y,
                        "shl" => x << y,
                        _ => x >> y,
                    };
                    Self::kint(r as i128, t.bits())
                }
                "blockaddress" | "dso_local_equivalent" | "no_cfi" => self.fail("const"),
                "asm" => self.fail("asm"),
                _ => {
                    self.adv();
                    match ty {
                        Ty::F64 | Ty::F32 => {
                            if let Some(h) = w.strip_prefix("0x") {
                                C::Float(f64::from_bits(u64::from_str_radix(h, 16).unwrap_or(0)))
                            } else {
                                C::Float(w.parse().unwrap_or(0.0))
                            }
                        }
                        Ty::Int(bw) => {
                            if *bw <= 126 {
                                match w.parse::<i128>() {
                                    Ok(v) => return Self::kint(v, *bw),
                                    Err(_) => {}
                                }
                            }
                            let neg = w.starts_with('-');
                            let d = w.trim_start_matches('-');
                            let v = num_bigint::BigUint::parse_bytes(d.as_bytes(), 10)
                                .unwrap_or_else(|| self.fail("int"));
                            let m = num_bigint::BigUint::from(1u32) << *bw;
                            if neg {
                                C::Int((&m - (v % &m)) % m)
                            } else {
                                C::Int(v % m)
                            }
                        }
                        _ => self.fail(&format!("constant {w} of {ty:?}")),
                    }
                }
            },
            T::Global(g) => {
                self.adv();
                Self::kint(self.m.addr_of(&g) as i128, 64)
            }
            T::CStr(b) => {
                self.adv();
                C::Bytes(b)
            }
            T::P(b'{') | T::P(b'[') => {
                let close = if self.is_p(b'{') { b'}' } else { b']' };
                self.adv();
                let r = self.klist(close);
                C::Agg(r)
            }
            T::P(b'<') => {
                self.adv();
                if self.eat_p(b'{') {
                    let r = self.klist(b'}');
                    self.exp(b'>');
                    C::Agg(r)
                } else {
                    C::Agg(self.klist(b'>'))
                }
            }
            _ => self.fail("constant"),
        }
    }
    fn klist(&mut self, close: u8) -> Vec<C> {
        let mut r = vec![];
        while !self.is_p(close) {
            let t = self.ty();
            r.push(self.konst(&t));
            if !self.eat_p(b',') {
                break;
            }
        }
        self.exp(close);
        r
    }
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn block(&mut self, n: &str) -> u32 {
        let l = self.blocks.len() as u32;
        *self.blocks.entry(n.to_string()).or_insert(l)
    }
    fn val(&mut self, ty: &Ty) -> O {
        if let T::Local(n) = self.t.clone() {
            self.adv();
            return O::Reg(self.reg(&n));
        }
        O::K(self.konst(ty), ty.clone())
    }
    fn tv(&mut self) -> (Ty, O) {
        let t = self.ty();
        let v = self.val(&t);
        (t, v)
    }
    fn label(&mut self) -> u32 {
        // "label %x"
        self.adv();
        match self.adv() {
            T::Local(n) => self.block(&n),
            _ => self.fail("label"),
        }
    }
    /// skip parameter/return attributes
    fn attrs(&mut self) {
        loop {
            match &self.t {
                T::W(w) => {
                    let w = w.clone();
                    if matches!(
                        w.as_str(),
                        "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "none"
                            | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc"
                            | "add" | "sub" | "mul" | "xor" | "splat" | "and" | "or" | "shl"
                            | "asm" | "ptrtoaddr" | "lshr" | "zext" | "sext"
                    ) || w.as_bytes()[0].is_ascii_digit()
                        || w.as_bytes()[0] == b'-'
                    {
                        return;
                    }
                    if self.at_type() {
                        return;
                    }
                    self.adv();
                    if w == "align" && !self.is_p(b'(') {
                        self.adv();
                        continue;
                    }
                    if self.is_p(b'(') {
                        self.skip_parens();
                    }
                }
                T::Str(_) => {
                    self.adv();
                    if self.eat_p(b'=') {
                        self.adv();
                    }
                }
                _ => return,
            }
        }
    }
    fn skip_line(&mut self) -> u32 {
        // returns dbg id
        let mut dbg = 0;
        while self.t != T::NL && self.t != T::Eof {
            if self.t == T::Md("dbg".into()) {
                self.adv();
                if let T::Md(n) = &self.t {
                    dbg = n.parse().unwrap_or(0);
                }
            }
            self.adv();
        }
        self.adv();
        dbg
    }

    fn call(&mut self, invoke: bool) -> I {
        // fast-math flags, cc, ret attrs
        loop {
            if let T::W(w) = &self.t {
                if self.at_type() {
                    break;
                }
                let w = w.clone();
                self.adv();
                if w == "align" {
                    self.adv();
                } else if self.is_p(b'(') {
                    self.skip_parens();
                }
                continue;
            }
            break;
        }
        let mut ret = self.ty();
        if self.is_p(b'(') {
            // function type (varargs)
            self.skip_parens();
        }
        let callee = match self.t.clone() {
            T::Global(g) => {
                self.adv();
                Callee::Direct(g)
            }
            T::Local(n) => {
                self.adv();
                Callee::Indirect(O::Reg(self.reg(&n)))
            }
            T::W(w) if w == "asm" => {
                self.adv();
                while !self.is_p(b'(') {
                    self.adv();
                }
                Callee::Direct("asm".into())
            }
            _ => Callee::Indirect(O::K(self.konst(&Ty::Ptr), Ty::Ptr)),
        };
        self.exp(b'(');
        let mut args = vec![];
        while !self.is_p(b')') {
            let t = self.ty();
            if t == Ty::Other {
                // metadata operand
                let mut d = 0;
                loop {
                    match self.t {
                        T::P(b'(') | T::P(b'{') => d += 1,
                        T::P(b')') if d == 0 => break,
                        T::P(b')') | T::P(b'}') => d -= 1,
                        T::P(b',') if d == 0 => break,
                        _ => {}
                    }
                    self.adv();
                }
                args.push((t, O::K(C::Zero, Ty::Int(64))));
            } else {
                self.attrs();
                let v = self.val(&t);
                args.push((t, v));
            }
            if !self.eat_p(b',') {
                break;
            }
        }
        self.exp(b')');
        let mut dest = None;
        if invoke {
            while !self.is_w("to") {
                self.adv();
            }
            self.adv();
            let a = self.label();
            while !self.is_w("unwind") {
                self.adv();
            }
            self.adv();
            let b = self.label();
            dest = Some((a, b));
        }
        if ret == Ty::Other {
            ret = Ty::Void;
        }
        I::Call(callee, args, ret, dest)
    }

    fn instr(&mut self) -> I {
        let op = match self.adv() {
            T::W(w) => w,
            t => self.fail(&format!("instruction {t:?}")),
        };
        let flags = |p: &mut Self| {
            while let T::W(w) = &p.t {
                if matches!(
                    w.as_str(),
                    "nuw" | "nsw" | "exact" | "disjoint" | "inbounds" | "nusw" | "nneg"
                        | "samesign" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn"
                        | "reassoc" | "fast"
                ) {
                    p.adv();
                } else if w == "inrange" {
                    p.adv();
                    p.skip_parens();
                } else {
                    break;
                }
            }
        };
        match op.as_str() {
            "alloca" => {
                self.eat_w("inalloca");
                let t = self.ty();
                let mut cnt = O::K(P::kint(1, 64), Ty::Int(64));
                let mut al = t.align();
                while self.eat_p(b',') {
                    if self.eat_w("align") {
                        al = self.num() as u64;
                    } else if let T::Md(_) = self.t {
                        break;
                    } else {
                        let (_, v) = self.tv();
                        cnt = v;
                    }
                }
                I::Alloca(t, cnt, al)
            }
            "load" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let t = self.ty();
                self.exp(b',');
                let (_, p) = self.tv();
                I::Load(t, p)
            }
            "store" => {
                self.eat_w("atomic");
                self.eat_w("volatile");
                let (t, v) = self.tv();
                self.exp(b',');
                let (_, p) = self.tv();
                I::Store(t, v, p)
            }
            "getelementptr" => {
                flags(self);
                let t = self.ty();
                self.exp(b',');
                let (pt, p) = self.tv();
                let mut idx = vec![];
                while self.is_p(b',') {
                    self.adv();
                    if let T::Md(_) = self.t {
                        break;
                    }
                    idx.push(self.tv());
                }
                let vecres = if matches!(pt, Ty::Vec(..)) { Some(pt) } else { None };
                I::Gep(t, p, idx, vecres)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr"
            | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(self);
                let (t, a) = self.tv();
                self.exp(b',');
                let b = self.val(&t);
                I::Bin(op, t, a, b)
            }
            "icmp" | "fcmp" => {
                flags(self);
                let pred = match self.adv() {
                    T::W(w) => w,
                    _ => self.fail("pred"),
                };
                let (t, a) = self.tv();
                self.exp(b',');
                let b = self.val(&t);
                if op == "icmp" {
                    I::Icmp(pred, t, a, b)
                } else {
                    I::Fcmp(pred, t, a, b)
                }
            }
            "select" => {
                flags(self);
                let (ct, c) = self.tv();
                self.exp(b',');
                let (t, a) = self.tv();
                self.exp(b',');
                let (_, b) = self.tv();
                I::Select(ct, c, a, b, t)
            }
            "phi" => {
                flags(self);
                let t = self.ty();
                let mut v = vec![];
                loop {
                    if !self.eat_p(b'[') {
                        break;
                    }
                    let o = self.val(&t);
                    self.exp(b',');
                    let from = match self.adv() {
                        T::Local(n) => self.block(&n),
                        _ => self.fail("phi"),
                    };
                    self.exp(b']');
                    v.push(PhiIn { from, v: o });
                    if !self.eat_p(b',') {
                        break;
                    }
                }
                I::Phi(t, v)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "fptoui"
            | "fptosi" | "uitofp" | "sitofp" | "fptrunc" | "fpext" | "addrspacecast"
            | "ptrtoaddr" => {
                flags(self);
                let (t, v) = self.tv();
                self.eat_w("to");
                let t2 = self.ty();
                I::Cast(op, t, v, t2)
            }
            "freeze" => {
                let (t, v) = self.tv();
                I::Freeze(t, v)
            }
            "fneg" => {
                flags(self);
                let (t, v) = self.tv();
                I::FNeg(t, v)
            }
            "tail" | "musttail" | "notail" => {
                self.eat_w("call");
                self.call(false)
            }
            "call" => self.call(false),
            "invoke" => self.call(true),
            "extractvalue" => {
                let (t, v) = self.tv();
                let mut idx = vec![];
                while self.eat_p(b',') {
                    if let T::Md(_) = self.t {
                        break;
                    }
                    idx.push(self.num() as u64);
                }
                I::ExtractValue(t, v, idx)
            }
            "insertvalue" => {
                let (t, v) = self.tv();
                self.exp(b',');
                let (t2, v2) = self.tv();
                let mut idx = vec![];
                while self.eat_p(b',') {
                    if let T::Md(_) = self.t {
                        break;
                    }
                    idx.push(self.num() as u64);
                }
                I::InsertValue(t, v, t2, v2, idx)
            }
            "extractelement" => {
                let (t, v) = self.tv();
                self.exp(b',');
                let (_, i) = self.tv();
                I::ExtractElem(t, v, i)
            }
            "insertelement" => {
                let (t, v) = self.tv();
                self.exp(b',');
                let (_, e) = self.tv();
                self.exp(b',');
                let (_, i) = self.tv();
                I::InsertElem(t, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tv();
                self.exp(b',');
                let (_, b) = self.tv();
                self.exp(b',');
                let mt = self.ty();
                let m = self.konst(&mt);
                let n = mt.n_fields();
                let mask = match m {
                    C::Zero => vec![Some(0); n],
                    C::Undef => vec![None; n],
                    C::Agg(v) => v
                        .iter()
                        .map(|c| match c {
                            C::Undef => None,
                            c => Some(c_u64(c)),
                        })
                        .collect(),
                    _ => self.fail("mask"),
                };
                I::Shuffle(t, a, b, mask)
            }
            "br" => {
                if self.is_w("label") {
                    return I::Br(self.label());
                }
                let (_, c) = self.tv();
                self.exp(b',');
                let a = self.label();
                self.exp(b',');
                let b = self.label();
                I::CondBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.tv();
                self.exp(b',');
                let d = self.label();
                self.exp(b'[');
                let mut cases = vec![];
                while !self.is_p(b']') {
                    let ct = self.ty();
                    let c = self.konst(&ct);
                    self.exp(b',');
                    let l = self.label();
                    cases.push((c_u128(&c), l));
                }
                self.exp(b']');
                I::Switch(t, v, d, cases)
            }
            "ret" => {
                if self.is_w("void") {
                    self.adv();
                    return I::Ret(None);
                }
                I::Ret(Some(self.tv()))
            }
            "unreachable" => I::Unreachable,
            "resume" => I::Unsupported("resume".into()),
            "fence" => I::Fence,
            "atomicrmw" => {
                self.eat_w("volatile");
                let o = match self.adv() {
                    T::W(w) => w,
                    _ => self.fail("rmw"),
                };
                let (_, p) = self.tv();
                self.exp(b',');
                let (t, v) = self.tv();
                I::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                self.eat_w("weak");
                self.eat_w("volatile");
                let (_, p) = self.tv();
                self.exp(b',');
                let (t, c) = self.tv();
                self.exp(b',');
                let (_, n) = self.tv();
                I::CmpXchg(t, p, c, n)
            }
            _ => I::Unsupported(op),
        }
    }
}

pub fn c_u128(c: &C) -> u128 {
    use num_traits::ToPrimitive;
    match c {
        C::Int(b) => b.to_u128().unwrap_or(0),
        _ => 0,
    }
}
pub fn c_u64(c: &C) -> u64 {
    c_u128(c) as u64
}
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

pub const FUNC_BASE: u64 = 0x1000_0000;
pub const GLOB_BASE: u64 = 0x2000_0000;

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read ll");
        let mut m = Module {
            text,
            types: HashMap::new(),
            globals: HashMap::new(),
            global_by_addr: Default::default(),
            aliases: HashMap::new(),
            func_spans: HashMap::new(),
            declared: HashMap::new(),
            func_addr: HashMap::new(),
            func_by_addr: HashMap::new(),
            md: HashMap::new(),
        };
        // pass 1: line index
        let n = m.text.len();
        let mut i = 0;
        let mut type_lines = vec![];
        let mut glob_lines = vec![];
        let mut fn_lines = vec![];
        while i < n {
            let mut e = i;
            while e < n && m.text[e] != b'\n' {
                e += 1;
            }
            let line = &m.text[i..e];
            if line.starts_with(b"define ") {
                // find end: line == "}"
                let mut j = e + 1;
                loop {
                    let mut k = j;
                    while k < n && m.text[k] != b'\n' {
                        k += 1;
                    }
                    if &m.text[j..k] == b"}" {
                        e = k;
                        break;
                    }
                    if k >= n {
                        panic!("unterminated function");
                    }
                    j = k + 1;
                }
                fn_lines.push((i, e, true));
            } else if line.starts_with(b"declare ") {
                fn_lines.push((i, e, false));
            } else if line.starts_with(b"@") {
                glob_lines.push((i, e));
            } else if line.starts_with(b"%") {
                type_lines.push((i, e));
            } else if line.starts_with(b"!") && line.len() > 1 && line[1].is_ascii_digit() {
                let mut k = 1;
                while line[k].is_ascii_digit() {
                    k += 1;
                }
                let id: u32 = std::str::from_utf8(&line[1..k]).unwrap().parse().unwrap();
                m.md.insert(id, (i, e));
            }
            i = e + 1;
        }
        for (s, e) in type_lines {
            let (name, ty) = {
                let mut p = P::new(&m, s, e);
                let name = match p.adv() {
                    T::Local(n) => n,
                    _ => continue,
                };
                p.exp(b'=');
                p.adv(); // type
                if p.is_w("opaque") {
                    continue;
                }
                (name, p.ty())
            };
            m.types.insert(name, ty);
        }
        let fname = |m: &Module, s: usize, e: usize| -> String {
            let mut p = P::new(m, s, e);
            loop {
                if let T::Global(g) = p.adv() {
                    return g;
                }
            }
        };
        let mut fa = FUNC_BASE;
        for (s, e, def) in fn_lines {
            let mut e1 = s;
            while m.text[e1] != b'\n' {
                e1 += 1;
            }
            let name = fname(&m, s, e1);
            if def {
                m.func_spans.insert(name.clone(), (s, e));
            } else {
                m.declared.insert(name.clone(), s);
            }
            m.func_addr.insert(name.clone(), fa);
            m.func_by_addr.insert(fa, name);
            fa += 16;
        }
        let mut ga = GLOB_BASE;
        for (s, e) in glob_lines {
            let mut p = P::new(&m, s, e);
            let name = match p.adv() {
                T::Global(g) => g,
                _ => continue,
            };
            p.exp(b'=');
            let mut konst = false;
            let mut external = false;
            let mut alias = false;
            loop {
                match p.adv() {
                    T::W(w) => match w.as_str() {
                        "constant" => {
                            konst = true;
                            break;
                        }
                        "global" => break,
                        "alias" | "ifunc" => {
                            alias = true;
                            break;
                        }
                        "external" | "extern_weak" => external = true,
                        "thread_local" => {
                            if p.is_p(b'(') {
                                p.skip_parens();
                            }
                        }
                        _ => {}
                    },
                    T::P(_) => {}
                    T::Eof => p.fail("global"),
                    _ => {}
                }
            }
            if alias {
                let mut target = None;
                loop {
                    match p.adv() {
                        T::Global(g) => {
                            target = Some(g);
                        }
                        T::Eof => break,
                        _ => {}
                    }
                }
                m.aliases.insert(name, target.expect("alias target"));
                continue;
            }
            let ty = p.ty();
            let init_at = p.t_start;
            // alignment
            let mut al = 16;
            {
                let line = &m.text[s..e];
                let txt = String::from_utf8_lossy(line);
                if let Some(k) = txt.rfind(", align ") {
                    let d: String = txt[k + 8..]
                        .chars()
                        .take_while(|c| c.is_ascii_digit())
                        .collect();
                    if let Ok(a) = d.parse::<u64>() {
                        al = al.max(a);
                    }
                }
            }
            let size = ty.size();
            ga = align_up(ga, al);
            let addr = ga;
            ga += size.max(1) + 32;
            m.global_by_addr.insert(addr, name.clone());
            m.globals.insert(
                name,
                GlobalDef {
                    ty,
                    size,
                    addr,
                    konst,
                    external,
                    line: (s, e),
                    init_at,
                },
            );
        }
        m
    }

    pub fn addr_of(&self, g: &str) -> u64 {
        let mut g = g;
        while let Some(a) = self.aliases.get(g) {
            g = a;
        }
        if let Some(d) = self.globals.get(g) {
            if d.external && g.starts_with("__") && !g.contains("rust") {
                return d.addr;
            }
            return d.addr;
        }
        if let Some(a) = self.func_addr.get(g) {
            return *a;
        }
        panic!("unknown global @{g}")
    }

    pub fn global_init(&self, g: &str) -> Vec<u8> {
        let d = &self.globals[g];
        let mut out = vec![0u8; d.size as usize];
        if d.external {
            return out;
        }
        let mut p = P::new(self, d.init_at, d.line.1);
        let c = p.konst(&d.ty);
        fill(&mut out, &d.ty, &c);
        out
    }

    pub fn func(&self, name: &str, id: u32) -> Option<Func> {
        let (s, e) = *self.func_spans.get(name)?;
        let mut p = P::new(self, s, e);
        p.adv(); // define
        let mut ret = Ty::Void;
        loop {
            if p.at_type() {
                ret = p.ty();
                // might be an attribute type? e.g. range(i8 ..) handled by parens skipping
                p.attrs();
                if let T::Global(_) = p.t {
                    break;
                }
                continue;
            }
            if let T::Global(_) = p.t {
                break;
            }
            p.adv();
            if p.is_p(b'(') {
                p.skip_parens();
            }
        }
        p.adv(); // name
        p.exp(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        while !p.is_p(b')') {
            if p.is_p(b'.') || p.is_w("...") {
                p.adv();
                break;
            }
            let t = p.ty();
            p.attrs();
            let name = match p.t.clone() {
                T::Local(n) => {
                    p.adv();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    n
                }
                _ => {
                    unnamed += 1;
                    format!("{}", unnamed - 1)
                }
            };
            let r = p.reg(&name);
            params.push((t, r));
            if !p.eat_p(b',') {
                break;
            }
        }
        p.exp(b')');
        // to "{"
        while !p.is_p(b'{') {
            p.adv();
        }
        p.l.depth = 0;
        p.adv();
        let mut blocks: Vec<(u32, Vec<Ins>)> = vec![];
        let mut cur: Option<(u32, Vec<Ins>)> = None;
        loop {
            match p.t.clone() {
                T::NL => {
                    p.adv();
                }
                T::Eof | T::P(b'}') => break,
                T::Local(n) => {
                    // assignment
                    let raw = p.t_start;
                    p.adv();
                    p.exp(b'=');
                    let r = p.reg(&n);
                    if cur.is_none() {
                        let b = p.block(&format!("{unnamed}"));
                        cur = Some((b, vec![]));
                    }
                    if p.is_w("landingpad") {
                        // skip clauses up to the next line starting an instruction
                        p.skip_line();
                        while p.is_w("cleanup") || p.is_w("catch") || p.is_w("filter") {
                            p.skip_line();
                        }
                        cur.as_mut().unwrap().1.push(Ins {
                            dst: Some(r),
                            i: I::Unsupported("landingpad".into()),
                            dbg: 0,
                            raw_off: raw,
                        });
                        continue;
                    }
                    let i = p.instr_ml();
                    let dbg = p.skip_line();
                    cur.as_mut().unwrap().1.push(Ins {
                        dst: Some(r),
                        i,
                        dbg,
                        raw_off: raw,
                    });
                }
                T::W(w) if w.starts_with("#dbg") => {
                    p.skip_line();
                }
                T::W(w) => {
                    // label or instruction
                    if p.m.text[p.l.p] == b':' {
                        p.adv();
                        p.adv();
                        let b = p.block(&w);
                        if let Some(c) = cur.take() {
                            blocks.push(c);
                        }
                        cur = Some((b, vec![]));
                        continue;
                    }
                    let raw = p.t_start;
                    if cur.is_none() {
                        let b = p.block(&format!("{unnamed}"));
                        cur = Some((b, vec![]));
                    }
                    let i = p.instr_ml();
                    let dbg = p.skip_line();
                    cur.as_mut().unwrap().1.push(Ins {
                        dst: None,
                        i,
                        dbg,
                        raw_off: raw,
                    });
                }
                T::Str(s) => {
                    // quoted label
                    let w = String::from_utf8_lossy(&s).into_owned();
                    p.adv();
                    p.exp(b':');
                    let b = p.block(&w);
                    if let Some(c) = cur.take() {
                        blocks.push(c);
                    }
                    cur = Some((b, vec![]));
                }
                _ => p.fail("statement"),
            }
        }
        if let Some(c) = cur.take() {
            blocks.push(c);
        }
        let nb = p.blocks.len();
        let entry = blocks[0].0;
        let mut out: Vec<Vec<Ins>> = (0..nb).map(|_| vec![]).collect();
        for (b, v) in blocks {
            out[b as usize] = v;
        }
        if entry != 0 {
            // normalise: entry must be block 0
            out.swap(0, entry as usize);
            let sw = |b: &mut u32| {
                if *b == 0 {
                    *b = entry
                } else if *b == entry {
                    *b = 0
                }
            };
            for bl in out.iter_mut() {
                for ins in bl.iter_mut() {
                    match &mut ins.i {
                        I::Br(a) => sw(a),
                        I::CondBr(_, a, b) => {
                            sw(a);
                            sw(b)
                        }
                        I::Switch(_, _, d, c) => {
                            sw(d);
                            for (_, l) in c {
                                sw(l)
                            }
                        }
                        I::Phi(_, v) => {
                            for x in v {
                                sw(&mut x.from)
                            }
                        }
                        I::Call(_, _, _, Some((a, b))) => {
                            sw(a);
                            sw(b)
                        }
                        _ => {}
                    }
                }
            }
        }
        Some(Func {
            name: name.to_string(),
            params,
            ret,
            nregs: p.regs.len() as u32,
            blocks: out,
            id,
        })
    }

    /// (file, line, function) from the innermost inlined scope outwards
    pub fn dbg_chain(&self, id: u32) -> Vec<(String, u32, String)> {
        let mut out = vec![];
        let mut cur = id;
        for _ in 0..40 {
            let l = match self.md_line(cur) {
                Some(l) => l,
                None => break,
            };
            let line = md_num(l, "line: ").unwrap_or(0);
            let mut sc = md_ref(l, "scope: ");
            let mut file = String::new();
            let mut func = String::new();
            for _ in 0..40 {
                let sl = match sc.and_then(|s| self.md_line(s)) {
                    Some(s) => s,
                    None => break,
                };
                if file.is_empty() {
                    if let Some(fl) = md_ref(sl, "file: ").and_then(|f| self.md_line(f)) {
                        file = md_str(fl, "filename: ").unwrap_or_default();
                    }
                }
                if sl.contains("DISubprogram") {
                    func = md_str(sl, "name: ").unwrap_or_default();
                    // qualify with the enclosing namespace names
                    let mut ns = md_ref(sl, "scope: ");
                    for _ in 0..6 {
                        match ns.and_then(|n| self.md_line(n)) {
                            Some(nl) if nl.contains("DINamespace") => {
                                if let Some(n) = md_str(nl, "name: ") {
                                    func = format!("{n}::{func}");
                                }
                                ns = md_ref(nl, "scope: ");
                            }
                            _ => break,
                        }
                    }
                    break;
                }
                sc = md_ref(sl, "scope: ");
            }
            out.push((file, line, func));
            match md_ref(l, "inlinedAt: ") {
                Some(n) => cur = n,
                None => break,
            }
        }
        out
    }

    pub fn md_line(&self, id: u32) -> Option<&str> {
        let (s, e) = *self.md.get(&id)?;
        std::str::from_utf8(&self.text[s..e]).ok()
    }
}

impl<'a> P<'a> {
    /// instruction possibly spanning lines (invoke)
    fn instr_ml(&mut self) -> I {
        if self.is_w("invoke") {
            // newline tokens inside: treat as whitespace by raising depth
            self.l.depth += 1;
            let i = self.instr();
            self.l.depth -= 1;
            // a newline may have been swallowed already by lookahead; resync
            if self.t != T::NL {
                // lookahead token belongs to the next line or the dbg suffix
                if let T::P(b',') = self.t {
                    // dbg suffix on this line
                } else {
                    // push back a virtual newline
                    let save = self.t_start;
                    self.l.p = save;
                    self.t = T::NL;
                }
            }
            return i;
        }
        self.instr()
    }
}

pub fn fill(out: &mut [u8], ty: &Ty, c: &C) {
    match c {
        C::Zero | C::Undef => {}
        C::Bytes(b) => out[..b.len()].copy_from_slice(b),
        C::Int(v) => {
            let b = v.to_bytes_le();
            let n = b.len().min(out.len());
            out[..n].copy_from_slice(&b[..n]);
        }
        C::Float(f) => match ty {
            Ty::F64 => out[..8].copy_from_slice(&f.to_bits().to_le_bytes()),
            _ => out[..4].copy_from_slice(&(*f as f32).to_bits().to_le_bytes()),
        },
        C::Agg(v) => {
            for (i, x) in v.iter().enumerate() {
                let o = ty.field_off(i) as usize;
                let ft = ty.field_ty(i);
                let sz = ft.size() as usize;
                fill(&mut out[o..o + sz], &ft, x);
            }
        }
    }
}

fn md_num(l: &str, k: &str) -> Option<u32> {
    let p = l.find(k)? + k.len();
    let d: String = l[p..].chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
fn md_ref(l: &str, k: &str) -> Option<u32> {
    let p = l.find(k)? + k.len();
    let r = l[p..].strip_prefix('!')?;
    let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
fn md_str(l: &str, k: &str) -> Option<String> {
    let p = l.find(k)? + k.len();
    let r = l[p..].strip_prefix('"')?;
    let e = r.find('"')?;
    Some(r[..e].to_string())
}

//! Byte-addressed memory of one symbolic state.
use crate::expr::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct SB {
    pub e: u32, // CONC: concrete byte in `i`; otherwise byte `i` of expression `e`
    pub i: u32,
}
pub const CONC: u32 = u32::MAX;

#[derive(Clone, Debug)]
pub enum Data {
    Conc(Vec<u8>),
    Sym(Vec<SB>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
    Const,
}

#[derive(Clone, Debug)]
pub struct Obj {
    pub size: u64,
    pub kind: Kind,
    pub data: Data,
}

impl Obj {
    pub fn len(&self) -> usize {
        match &self.data {
            Data::Conc(v) => v.len(),
            Data::Sym(v) => v.len(),
        }
    }
    pub fn byte(&self, i: usize) -> SB {
        match &self.data {
            Data::Conc(v) => SB {
                e: CONC,
                i: v[i] as u32,
            },
            Data::Sym(v) => v[i],
        }
    }
    fn to_sym(&mut self) -> &mut Vec<SB> {
        if let Data::Conc(v) = &self.data {
            self.data = Data::Sym(
                v.iter()
                    .map(|b| SB {
                        e: CONC,
                        i: *b as u32,
                    })
                    .collect(),
            );
        }
        match &mut self.data {
            Data::Sym(v) => v,
            _ => unreachable!(),
        }
    }
    pub fn set(&mut self, i: usize, b: SB) {
        if b.e == CONC {
            match &mut self.data {
                Data::Conc(v) => v[i] = b.i as u8,
                Data::Sym(v) => v[i] = b,
            }
        } else {
            self.to_sym()[i] = b;
        }
    }
    pub fn write(&mut self, off: usize, bs: &[SB]) {
        if let Data::Conc(v) = &mut self.data {
            if bs.iter().all(|b| b.e == CONC) {
                for (k, b) in bs.iter().enumerate() {
                    v[off + k] = b.i as u8;
                }
                return;
            }
        }
        self.to_sym()[off..off + bs.len()].copy_from_slice(bs);
    }
    pub fn read(&self, off: usize, n: usize) -> Vec<SB> {
        match &self.data {
            Data::Conc(v) => v[off..off + n]
                .iter()
                .map(|b| SB {
                    e: CONC,
                    i: *b as u32,
                })
                .collect(),
            Data::Sym(v) => v[off..off + n].to_vec(),
        }
    }
}

#[derive(Clone, Default)]
pub struct Mem {
    pub objs: BTreeMap<u64, Rc<Obj>>,
}

/// Turn an expression into memory bytes (little endian). Width is padded to a byte multiple.
pub fn to_bytes(x: &mut Ctx, e: E, n: usize, out: &mut Vec<SB>) {
    let w = x.w(e);
    let e = if (w as usize) < n * 8 {
        x.zext(e, n as u32 * 8)
    } else {
        e
    };
    if let Some(v) = x.cv(e) {
        match v {
            V::S(u) => {
                for k in 0..n {
                    out.push(SB {
                        e: CONC,
                        i: if k < 16 { ((u >> (8 * k)) & 0xff) as u32 } else { 0 },
                    });
                }
            }
            V::B(b) => {
                let d = b.to_bytes_le();
                for k in 0..n {
                    out.push(SB {
                        e: CONC,
                        i: d.get(k).copied().unwrap_or(0) as u32,
                    });
                }
            }
        }
        return;
    }
    for k in 0..n {
        out.push(SB { e, i: k as u32 });
    }
}

pub fn byte_expr(x: &mut Ctx, b: SB) -> E {
    if b.e == CONC {
        x.konst(8, b.i as u128)
    } else {
        x.extract(b.e, b.i * 8, 8)
    }
}

/// Assemble bytes (little endian) into one expression of 8*n bits.
pub fn from_bytes(x: &mut Ctx, b: &[SB]) -> E {
    let n = b.len();
    if n <= 16 && b.iter().all(|c| c.e == CONC) {
        let mut v = 0u128;
        for (k, c) in b.iter().enumerate() {
            v |= (c.i as u128) << (8 * k);
        }
        return x.konst(8 * n as u32, v);
    }
    // maximal runs, from most significant to least, concatenated
    let mut res: Option<E> = None;
    let mut k = 0usize;
    while k < n {
        let s = k;
        let part = if b[s].e == CONC {
            let mut v = 0u128;
            while k < n && b[k].e == CONC && k - s < 16 {
                v |= (b[k].i as u128) << (8 * (k - s));
                k += 1;
            }
            x.konst(8 * (k - s) as u32, v)
        } else {
            k += 1;
            while k < n && b[k].e == b[s].e && b[k].i == b[k - 1].i + 1 {
                k += 1;
            }
            x.extract(b[s].e, b[s].i * 8, 8 * (k - s) as u32)
        };
        res = Some(match res {
            None => part,
            Some(lo) => x.concat(part, lo),
        });
    }
    res.unwrap()
}

//! Hash-consed bit-vector expression DAG with local simplification and concrete evaluation.
use std::collections::HashMap;

pub type E = u32;

#[allow(dead_code)]
#[repr(u8)]
#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Zext, Sext, Extract, Concat,
    FAdd, FSub, FMul, FDiv, FRem, FOeq, FOlt, FOle, FUno,
    UiToF, SiToF, FToUi, FToSi, FToUiSat, FToSiSat, FExt, FTrunc, FFloor, FCeil, FTruncI, FRint, FSqrt,
}

#[derive(Copy, Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub type VarSet = [u64; 4];
pub const NOVARS: VarSet = [0; 4];
pub fn vs_or(a: &VarSet, b: &VarSet) -> VarSet {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn vs_inter(a: &VarSet, b: &VarSet) -> bool {
    (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]) != 0
}
pub fn vs_sub(a: &VarSet, b: &VarSet) -> VarSet {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
pub fn vs_empty(a: &VarSet) -> bool {
    a[0] | a[1] | a[2] | a[3] == 0
}
pub fn vs_list(a: &VarSet) -> Vec<u32> {
    let mut v = vec![];
    for i in 0..4 {
        let mut x = a[i];
        while x != 0 {
            v.push((i as u32) * 64 + x.trailing_zeros());
            x &= x - 1;
        }
    }
    v
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    tbl: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    consts: Vec<u128>,
    ctbl: HashMap<(u16, u128), E, std::hash::BuildHasherDefault<Fx>>,
    memo: Vec<(u32, u128)>,
    gen: u32,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

impl Exprs {
    pub fn new() -> Exprs {
        let mut e = Exprs { nodes: vec![], vars: vec![], tbl: Default::default(), consts: vec![], ctbl: Default::default(), memo: vec![], gen: 0 };
        e.cst(1, 0);
        e.cst(1, 1);
        e
    }
    fn intern(&mut self, n: Node, vs: VarSet) -> E {
        if let Some(&e) = self.tbl.get(&n) {
            return e;
        }
        let id = self.nodes.len() as u32;
        self.nodes.push(n);
        self.vars.push(vs);
        self.memo.push((0, 0));
        self.tbl.insert(n, id);
        id
    }
    pub fn cst(&mut self, w: u32, v: u128) -> E {
        let v = v & mask(w);
        if let Some(&e) = self.ctbl.get(&(w as u16, v)) {
            return e;
        }
        let ci = self.consts.len() as u32;
        self.consts.push(v);
        let id = self.nodes.len() as u32;
        self.nodes.push(Node { op: Op::Const, w: w as u16, a: ci, b: 0, c: 0 });
        self.vars.push(NOVARS);
        self.memo.push((0, 0));
        self.ctbl.insert((w as u16, v), id);
        id
    }
    pub fn var(&mut self, w: u32, idx: u32) -> E {
        assert!(idx < 256, "more than 256 symbolic variables on one path");
        let mut vs = NOVARS;
        vs[(idx / 64) as usize] |= 1u64 << (idx % 64);
        self.intern(Node { op: Op::Var, w: w as u16, a: idx, b: 0, c: 0 }, vs)
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w as u32 }
    pub fn is_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const { Some(self.consts[n.a as usize]) } else { None }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, nargs: u32) -> E {
        let mut vs = self.vars[a as usize];
        if nargs > 1 { vs = vs_or(&vs, &self.vars[b as usize]); }
        if nargs > 2 { vs = vs_or(&vs, &self.vars[c as usize]); }
        self.intern(Node { op, w: w as u16, a, b, c }, vs)
    }
    pub fn fold2(op: Op, w: u32, x: u128, y: u128) -> Option<u128> {
        use Op::*;
        let m = mask(w);
        Some(match op {
            Add => x.wrapping_add(y) & m,
            Sub => x.wrapping_sub(y) & m,
            Mul => x.wrapping_mul(y) & m,
            UDiv => if y == 0 { m } else { x / y },
            URem => if y == 0 { x } else { x % y },
            SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { (a.wrapping_div(b) as u128) & m } }
            SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { (a.wrapping_rem(b) as u128) & m } }
            And => x & y,
            Or => x | y,
            Xor => x ^ y,
            Shl => if y >= w as u128 { 0 } else { (x << y) & m },
            LShr => if y >= w as u128 { 0 } else { x >> y },
            AShr => { let a = sext(x, w); ((if y >= w as u128 { if a < 0 { -1 } else { 0 } } else { a >> y }) as u128) & m }
            Eq => (x == y) as u128,
            Ult => (x < y) as u128,
            Ule => (x <= y) as u128,
            Slt => (sext(x, w) < sext(y, w)) as u128,
            Sle => (sext(x, w) <= sext(y, w)) as u128,
            FAdd | FSub | FMul | FDiv | FRem => {
                if w == 64 {
                    let (a, b) = (f64::from_bits(x as u64), f64::from_bits(y as u64));
                    (match op { FAdd => a + b, FSub => a - b, FMul => a * b, FDiv => a / b, _ => a % b }).to_bits() as u128
                } else {
                    let (a, b) = (f32::from_bits(x as u32), f32::from_bits(y as u32));
                    (match op { FAdd => a + b, FSub => a - b, FMul => a * b, FDiv => a / b, _ => a % b }).to_bits() as u128
                }
            }
            FOeq | FOlt | FOle | FUno => {
                let (a, b) = if w == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                (match op { FOeq => a == b, FOlt => a < b, FOle => a <= b, _ => a.is_nan() || b.is_nan() }) as u128
            }
            _ => return None,
        })
    }
    /// binary op; for comparisons the result has width 1
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        use Op::*;
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        let cmp = matches!(op, Eq | Ult | Ule | Slt | Sle | FOeq | FOlt | FOle | FUno);
        let rw = if cmp { 1 } else { w };
        if let (Some(x), Some(y)) = (ca, cb) {
            if let Some(r) = Self::fold2(op, w, x, y) {
                return self.cst(rw, r);
            }
        }
        let m = mask(w);
        // constant to the right for commutative operators
        if ca.is_some() && cb.is_none() && matches!(op, Add | Mul | And | Or | Xor | Eq) {
            return self.bin(op, b, a);
        }
        match op {
            Add => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Add {
                        if let Some(x) = self.is_const(n.b) {
                            let k = self.cst(w, x.wrapping_add(y));
                            return self.bin(Add, n.a, k);
                        }
                    }
                }
                if ca.is_none() && cb.is_none() && a > b { return self.mk(Add, w, b, a, 0, 2); }
            }
            Sub => {
                if cb == Some(0) { return a; }
                if a == b { return self.cst(w, 0); }
                if let Some(y) = cb {
                    let k = self.cst(w, y.wrapping_neg());
                    return self.bin(Add, a, k);
                }
                let n = self.nodes[a as usize];
                if n.op == Add && n.a == b { return n.b; }
                if n.op == Add && n.b == b { return n.a; }
            }
            Mul => {
                if cb == Some(0) { return b; }
                if cb == Some(1) { return a; }
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.cst(w, y.trailing_zeros() as u128);
                        return self.bin(Shl, a, k);
                    }
                }
            }
            UDiv => {
                if cb == Some(1) { return a; }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(w, y.trailing_zeros() as u128); return self.bin(LShr, a, k); } }
            }
            URem => {
                if cb == Some(1) { return self.cst(w, 0); }
                if let Some(y) = cb { if y.is_power_of_two() { let k = self.cst(w, y - 1); return self.bin(And, a, k); } }
            }
            And => {
                if a == b { return a; }
                if cb == Some(0) { return b; }
                if cb == Some(m) { return a; }
                if let Some(y) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Zext {
                        let iw = self.w(n.a);
                        if y & mask(iw) == mask(iw) { return a; }
                        if iw < w { let k = self.cst(iw, y & mask(iw)); let x = self.bin(And, n.a, k); return self.zext(x, w); }
                    }
                    if n.op == And { if let Some(x) = self.is_const(n.b) { let k = self.cst(w, x & y); return self.bin(And, n.a, k); } }
                    // low mask -> zext(extract)
                    if y & (y + 1) == 0 { let k = y.count_ones(); let x = self.extract(a, 0, k); return self.zext(x, w); }
                }
                if w == 1 && ca.is_none() && cb.is_none() {
                    if self.not_of(a) == Some(b) || self.not_of(b) == Some(a) { return self.cst(1, 0); }
                }
                if a > b && cb.is_none() { return self.mk(And, w, b, a, 0, 2); }
            }
            Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; }
                if cb == Some(m) { return b; }
                // or of shl(zext hi) and zext lo -> concat
                let (na, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                for (x, y, nx, ny) in [(a, b, na, nb), (b, a, nb, na)] {
                    let _ = (x, y);
                    if nx.op == Zext && ny.op == Concat {
                        if let Some(0) = self.is_const(ny.b) {
                            let lw = self.w(ny.b);
                            if self.w(nx.a) <= lw { let lo = self.zext(nx.a, lw); return self.concat(ny.a, lo); }
                        }
                    }
                    if nx.op == Zext && ny.op == Zext {
                        let yi = self.nodes[ny.a as usize];
                        if yi.op == Concat { if let Some(0) = self.is_const(yi.b) {
                            let lw = self.w(yi.b);
                            if self.w(nx.a) <= lw { let lo = self.zext(nx.a, lw); let c = self.concat(yi.a, lo); return self.zext(c, w); }
                        } }
                    }
                }
                if w == 1 && (self.not_of(a) == Some(b) || self.not_of(b) == Some(a)) { return self.cst(1, 1); }
                if a > b && cb.is_none() { return self.mk(Or, w, b, a, 0, 2); }
            }
            Xor => {
                if a == b { return self.cst(w, 0); }
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let n = self.nodes[a as usize];
                    if n.op == Xor { if let Some(x) = self.is_const(n.b) { let k = self.cst(w, x ^ y); return self.bin(Xor, n.a, k); } }
                    if w == 1 && y == 1 {
                        // push negation into comparisons
                        match n.op {
                            Ult => return self.bin(Ule, n.b, n.a),
                            Ule => return self.bin(Ult, n.b, n.a),
                            Slt => return self.bin(Sle, n.b, n.a),
                            Sle => return self.bin(Slt, n.b, n.a),
                            _ => {}
                        }
                    }
                }
            }
            Shl => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { return self.cst(w, 0); }
                    let k = y as u32;
                    let hi = self.extract(a, 0, w - k);
                    let z = self.cst(k, 0);
                    return self.concat(hi, z);
                }
            }
            LShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    if y >= w as u128 { return self.cst(w, 0); }
                    let k = y as u32;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            AShr => {
                if cb == Some(0) { return a; }
                if let Some(y) = cb {
                    let k = (y.min(w as u128 - 1)) as u32;
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Eq => {
                if a == b { return 1; }
                if w == 1 {
                    if cb == Some(1) { return a; }
                    if cb == Some(0) { let one = 1; return self.bin(Xor, a, one); }
                }
                let n = self.nodes[a as usize];
                if let Some(y) = cb {
                    match n.op {
                        Zext => {
                            let iw = self.w(n.a);
                            if y > mask(iw) { return 0; }
                            let k = self.cst(iw, y);
                            return self.bin(Eq, n.a, k);
                        }
                        Sext => {
                            let iw = self.w(n.a);
                            if (sext(y & mask(iw), iw) as u128) & m != y { return 0; }
                            let k = self.cst(iw, y);
                            return self.bin(Eq, n.a, k);
                        }
                        Concat => {
                            let lw = self.w(n.b);
                            let hw = self.w(n.a);
                            let kl = self.cst(lw, y & mask(lw));
                            let kh = self.cst(hw, y >> lw);
                            let l = self.bin(Eq, n.b, kl);
                            if l == 0 { return 0; }
                            let h = self.bin(Eq, n.a, kh);
                            return self.bin(And, l, h);
                        }
                        Ite => {
                            let (x, z) = (self.is_const(n.b), self.is_const(n.c));
                            match (x, z) {
                                (Some(x), Some(z)) => {
                                    if x == y && z == y { return 1; }
                                    if x == y { return n.a; }
                                    if z == y { return self.bin(Xor, n.a, 1); }
                                    return 0;
                                }
                                (Some(x), None) if x != y => { let r = self.bin(Eq, n.c, b); let na = self.bin(Xor, n.a, 1); return self.bin(And, na, r); }
                                (None, Some(z)) if z != y => { let r = self.bin(Eq, n.b, b); return self.bin(And, n.a, r); }
                                (Some(_), None) => { let r = self.bin(Eq, n.c, b); return self.bin(Or, n.a, r); }
                                (None, Some(_)) => { let r = self.bin(Eq, n.b, b); let na = self.bin(Xor, n.a, 1); return self.bin(Or, na, r); }
                                _ => {}
                            }
                        }
                        Add => {
                            if let Some(x) = self.is_const(n.b) { let k = self.cst(w, y.wrapping_sub(x)); return self.bin(Eq, n.a, k); }
                        }
                        Xor => {
                            if let Some(x) = self.is_const(n.b) { let k = self.cst(w, y ^ x); return self.bin(Eq, n.a, k); }
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.nodes[b as usize];
                    if n.op == Zext && nb.op == Zext && self.w(n.a) == self.w(nb.a) { return self.bin(Eq, n.a, nb.a); }
                    if n.op == Sext && nb.op == Sext && self.w(n.a) == self.w(nb.a) { return self.bin(Eq, n.a, nb.a); }
                    if n.op == Concat && nb.op == Concat && self.w(n.a) == self.w(nb.a) {
                        let x = self.bin(Eq, n.a, nb.a);
                        let y = self.bin(Eq, n.b, nb.b);
                        return self.bin(And, x, y);
                    }
                    if n.op == Add && nb.op == Add && n.b == nb.b { return self.bin(Eq, n.a, nb.a); }
                    if n.op == UiToF && nb.op == UiToF && self.w(n.a) == self.w(nb.a) && self.w(n.a) <= 32 && w == 64 { return self.bin(Eq, n.a, nb.a); }
                    if a > b { return self.mk(Eq, 1, b, a, 0, 2); }
                }
            }
            Ult => {
                if a == b { return 0; }
                if cb == Some(0) { return 0; }
                if cb == Some(1) { let z = self.cst(w, 0); return self.bin(Eq, a, z); }
                if ca == Some(m) { return 0; }
                if ca == Some(0) { let z = self.cst(w, 0); let q = self.bin(Eq, b, z); return self.bin(Xor, q, 1); }
                let n = self.nodes[a as usize];
                let nb = self.nodes[b as usize];
                if n.op == Zext {
                    let iw = self.w(n.a);
                    if let Some(y) = cb { if y > mask(iw) { return 1; } let k = self.cst(iw, y); return self.bin(Ult, n.a, k); }
                    if nb.op == Zext && self.w(nb.a) == iw { return self.bin(Ult, n.a, nb.a); }
                }
                if nb.op == Zext { if let Some(x) = ca { let iw = self.w(nb.a); if x >= mask(iw) { return 0; } let k = self.cst(iw, x); return self.bin(Ult, k, nb.a); } }
            }
            Ule => {
                if a == b { return 1; }
                if ca == Some(0) || cb == Some(m) { return 1; }
                if cb == Some(0) { return self.bin(Eq, a, b); }
                if let Some(y) = cb { let k = self.cst(w, y + 1); return self.bin(Ult, a, k); }
                if let Some(x) = ca { let k = self.cst(w, x - 1); return self.bin(Ult, k, b); }
                let n = self.nodes[a as usize];
                let nb = self.nodes[b as usize];
                if n.op == Zext && nb.op == Zext && self.w(nb.a) == self.w(n.a) { return self.bin(Ule, n.a, nb.a); }
            }
            Slt | Sle => {
                if a == b { return (op == Sle) as u32; }
                let n = self.nodes[a as usize];
                let nb = self.nodes[b as usize];
                let uop = if op == Slt { Ult } else { Ule };
                // both provably non-negative: unsigned comparison
                let nn = |n: &Node, c: Option<u128>| n.op == Zext || c.map_or(false, |x| x >> (w - 1) == 0);
                if nn(&n, ca) && nn(&nb, cb) { return self.bin(uop, a, b); }
                if n.op == Zext { if let Some(y) = cb { if y >> (w - 1) == 1 { return 0; } } }
                if nb.op == Zext { if let Some(x) = ca { if x >> (w - 1) == 1 { return 1; } } }
            }
            FOeq => {
                let (n, nb) = (self.nodes[a as usize], self.nodes[b as usize]);
                if w == 64 && n.op == UiToF && nb.op == UiToF && self.w(n.a) == self.w(nb.a) && self.w(n.a) <= 32 { return self.bin(Eq, n.a, nb.a); }
                if w == 64 && n.op == UiToF && self.w(n.a) <= 32 {
                    if let Some(y) = cb {
                        let f = f64::from_bits(y as u64);
                        let iw = self.w(n.a);
                        if !(f >= 0.0 && f.fract() == 0.0 && f <= mask(iw) as f64) { return 0; }
                        let k = self.cst(iw, f as u128);
                        return self.bin(Eq, n.a, k);
                    }
                }
                if ca.is_some() && cb.is_none() { return self.bin(FOeq, b, a); }
            }
            FUno => {
                let isnum = |s: &Self, e: E| { let n = s.nodes[e as usize]; matches!(n.op, UiToF | SiToF) || s.is_const(e).map_or(false, |v| if w == 64 { !f64::from_bits(v as u64).is_nan() } else { !f32::from_bits(v as u32).is_nan() }) };
                if isnum(self, a) && isnum(self, b) { return 0; }
            }
            _ => {}
        }
        self.mk(op, rw, a, b, 0, 2)
    }
    fn not_of(&self, e: E) -> Option<E> {
        let n = self.nodes[e as usize];
        if n.w == 1 && n.op == Op::Xor && n.b == 1 { Some(n.a) } else { None }
    }
    pub fn not(&mut self, e: E) -> E { self.bin(Op::Xor, e, 1) }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if c == 1 || a == b { return a; }
        if c == 0 { return b; }
        let w = self.w(a);
        if w == 1 {
            match (a, b) {
                (1, 0) => return c,
                (0, 1) => return self.not(c),
                (1, _) => return self.bin(Op::Or, c, b),
                (0, _) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (_, 0) => return self.bin(Op::And, c, a),
                (_, 1) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                _ => {}
            }
        }
        if let Some(x) = self.not_of(c) { return self.ite(x, b, a); }
        self.mk(Op::Ite, w, c, a, b, 3)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        debug_assert!(ew < w);
        if let Some(x) = self.is_const(e) { return self.cst(w, x); }
        let n = self.nodes[e as usize];
        if n.op == Op::Zext { return self.zext(n.a, w); }
        self.mk(Op::Zext, w, e, 0, 0, 1)
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let ew = self.w(e);
        if ew == w { return e; }
        if let Some(x) = self.is_const(e) { return self.cst(w, sext(x, ew) as u128); }
        let n = self.nodes[e as usize];
        if n.op == Op::Zext { return self.zext(n.a, w); }
        self.mk(Op::Sext, w, e, 0, 0, 1)
    }
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let ew = self.w(e);
        if lo == 0 && w == ew { return e; }
        if let Some(x) = self.is_const(e) { return self.cst(w, x >> lo); }
        let n = self.nodes[e as usize];
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Zext => {
                let iw = self.w(n.a);
                if lo >= iw { return self.cst(w, 0); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::Sext => {
                let iw = self.w(n.a);
                if lo + w <= iw { return self.extract(n.a, lo, w); }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { return self.extract(n.b, lo, w); }
                if lo >= lw { return self.extract(n.a, lo - lw, w); }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_const(n.b).is_some() {
                    let x = self.extract(n.a, lo, w);
                    let y = self.extract(n.b, lo, w);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Mul | Op::Sub => {
                if lo == 0 && self.is_const(n.b).is_some() {
                    let x = self.extract(n.a, 0, w);
                    let y = self.extract(n.b, 0, w);
                    return self.bin(n.op, x, y);
                }
            }
            _ => {}
        }
        self.mk(Op::Extract, w, e, lo, 0, 1)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (hw, lw) = (self.w(hi), self.w(lo));
        let w = hw + lw;
        assert!(w <= 128);
        if let (Some(h), Some(l)) = (self.is_const(hi), self.is_const(lo)) { return self.cst(w, (h << lw) | l); }
        if let Some(0) = self.is_const(hi) { return self.zext(lo, w); }
        let (nh, nl) = (self.nodes[hi as usize], self.nodes[lo as usize]);
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + lw { return self.extract(nh.a, nl.b, w); }
        if nh.op == Op::Extract && nh.b == lw && lw == nl.w as u32 && nh.a == lo { return hi; }
        // concat(extract(x, k), low part of x that simplified to something else)
        if nh.op == Op::Extract && nh.a != lo {
            if nh.b == lw { let t = self.extract(nh.a, 0, lw); if t == lo { return self.extract(nh.a, 0, w); } }
        }
        if nh.op == Op::Zext {
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        self.mk(Op::Concat, w, hi, lo, 0, 2)
    }
    /// unary floating-point/conversion node; `w` is the result width
    pub fn fun(&mut self, op: Op, e: E, w: u32) -> E {
        if let Some(x) = self.is_const(e) {
            let ew = self.w(e);
            return { let r = Self::fold1(op, x, ew, w); self.cst(w, r) };
        }
        // an integer of at most 32 bits goes through a double unchanged
        let n = self.nodes[e as usize];
        if matches!(op, Op::FToUi | Op::FToUiSat) && n.op == Op::UiToF && n.w == 64 && self.w(n.a) <= 32 && w >= self.w(n.a) { let a = n.a; return if w == self.w(a) { a } else { self.zext(a, w) }; }
        self.mk(op, w, e, 0, 0, 1)
    }
    pub fn fold1(op: Op, x: u128, ew: u32, w: u32) -> u128 {
        use Op::*;
        let fin = |x: u128| if ew == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
        match op {
            UiToF => if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 },
            SiToF => { let s = sext(x, ew); if w == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 } }
            FToUi | FToUiSat => { let f = fin(x); if f.is_nan() || f <= 0.0 { 0 } else { (f as u128).min(mask(w)) } }
            FToSi | FToSiSat => { let f = fin(x); let hi = (mask(w) >> 1) as i128; (if f.is_nan() { 0 } else { (f as i128).clamp(-hi - 1, hi) }) as u128 & mask(w) }
            FExt => (f32::from_bits(x as u32) as f64).to_bits() as u128,
            FTrunc => (f64::from_bits(x as u64) as f32).to_bits() as u128,
            FFloor | FCeil | FTruncI | FRint | FSqrt => {
                if ew == 64 {
                    let f = f64::from_bits(x as u64);
                    (match op { FFloor => f.floor(), FCeil => f.ceil(), FTruncI => f.trunc(), FRint => f.round_ties_even(), _ => f.sqrt() }).to_bits() as u128
                } else {
                    let f = f32::from_bits(x as u32);
                    (match op { FFloor => f.floor(), FCeil => f.ceil(), FTruncI => f.trunc(), FRint => f.round_ties_even(), _ => f.sqrt() }).to_bits() as u128
                }
            }
            _ => unreachable!(),
        }
    }
    pub fn new_gen(&mut self) { self.gen += 1; }
    /// evaluate under a model (call new_gen when the model changes)
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return self.consts[n.a as usize],
            Op::Var => return model.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(n.w as u32),
            _ => {}
        }
        let mm = self.memo[e as usize];
        if mm.0 == self.gen { return mm.1; }
        use Op::*;
        let w = n.w as u32;
        let r = match n.op {
            Ite => if self.eval(n.a, model) != 0 { self.eval(n.b, model) } else { self.eval(n.c, model) },
            Zext => self.eval(n.a, model),
            Sext => { let x = self.eval(n.a, model); sext(x, self.w(n.a)) as u128 & mask(w) }
            Extract => (self.eval(n.a, model) >> n.b) & mask(w),
            Concat => { let h = self.eval(n.a, model); let l = self.eval(n.b, model); (h << self.w(n.b)) | l }
            UiToF | SiToF | FToUi | FToSi | FToUiSat | FToSiSat | FExt | FTrunc | FFloor | FCeil | FTruncI | FRint | FSqrt => {
                let x = self.eval(n.a, model);
                Self::fold1(n.op, x, self.w(n.a), w)
            }
            _ => {
                let x = self.eval(n.a, model);
                let y = self.eval(n.b, model);
                Self::fold2(n.op, self.w(n.a), x, y).unwrap()
            }
        };
        self.memo[e as usize] = (self.gen, r);
        r
    }
    pub fn show(&self, e: E) -> String {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}:{}", self.consts[n.a as usize], n.w),
            Op::Var => format!("v{}:{}", n.a, n.w),
            Op::Ite => format!("(ite {} {} {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            Op::Extract => format!("(extract {} +{} {})", n.w, n.b, self.show(n.a)),
            Op::Zext | Op::Sext => format!("({:?} {} {})", n.op, n.w, self.show(n.a)),
            _ if n.op as u8 >= Op::UiToF as u8 => format!("({:?} {} {})", n.op, n.w, self.show(n.a)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a), self.show(n.b)),
        }
    }
}

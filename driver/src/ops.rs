//! Leaf-level transfer functions.
use crate::mdd::Leaf;
use crate::mem::mask;
use rustc_middle::mir::BinOp;

pub fn sext(x: u128, size: u32) -> i128 {
    if size >= 16 {
        return x as i128;
    }
    let sh = 128 - size * 8;
    ((x << sh) as i128) >> sh
}
fn b(x: bool) -> Leaf {
    Leaf::Int(x as u128)
}
fn rng(lo: u128, hi: u128) -> Leaf {
    if lo == hi { Leaf::Int(lo) } else { Leaf::Range(lo, hi) }
}
fn bounds(l: Leaf) -> Option<(u128, u128)> {
    match l {
        Leaf::Int(x) => Some((x, x)),
        Leaf::Range(a, c) => Some((a, c)),
        _ => None,
    }
}
/// interval as signed values, if the unsigned interval does not straddle the sign boundary
fn sbounds(l: Leaf, size: u32) -> Option<(i128, i128)> {
    let (lo, hi) = bounds(l)?;
    let half = 1u128 << (size * 8 - 1);
    if (lo < half) == (hi < half) {
        Some((sext(lo, size), sext(hi, size)))
    } else {
        let h = half as i128;
        Some((-h, h - 1))
    }
}

pub fn int_bin(op: BinOp, size: u32, signed: bool, x: Leaf, y: Leaf) -> Leaf {
    use BinOp::*;
    use Leaf::*;
    let mk = |v: u128| Int(v & mask(size));
    match (x, y) {
        (Undef, _) | (_, Undef) => return Undef,
        _ => {}
    }
    // algebraic facts independent of the value
    if x == y && x != Top && !matches!(x, Range(..)) {
        match op {
            Eq | Le | Ge => return b(true),
            Ne | Lt | Gt => return b(false),
            _ => {}
        }
    }
    match op {
        BitAnd if x == Int(0) || y == Int(0) => return Int(0),
        Mul | MulUnchecked if x == Int(0) || y == Int(0) => return Int(0),
        BitOr if size == 1 && (x == Int(mask(1)) || y == Int(mask(1))) => return Int(mask(1)),
        Rem if y == Int(1) => return Int(0),
        Add | AddUnchecked | BitOr | BitXor if x == Int(0) => return y,
        Add | AddUnchecked | Sub | SubUnchecked | BitOr | BitXor | Shl | Shr | ShlUnchecked | ShrUnchecked if y == Int(0) => return x,
        BitAnd if y == Int(mask(size)) => return x,
        BitAnd if x == Int(mask(size)) => return y,
        _ => {}
    }
    match (x, y) {
        (Int(a), Int(c)) => {
            let (sa, sc) = (sext(a, size), sext(c, size));
            match op {
                Add | AddUnchecked => mk(a.wrapping_add(c)),
                Sub | SubUnchecked => mk(a.wrapping_sub(c)),
                Mul | MulUnchecked => mk(a.wrapping_mul(c)),
                Div => {
                    if c == 0 {
                        Undef
                    } else if signed {
                        mk(sa.wrapping_div(sc) as u128)
                    } else {
                        mk(a / c)
                    }
                }
                Rem => {
                    if c == 0 {
                        Undef
                    } else if signed {
                        mk(sa.wrapping_rem(sc) as u128)
                    } else {
                        mk(a % c)
                    }
                }
                BitXor => mk(a ^ c),
                BitAnd => mk(a & c),
                BitOr => mk(a | c),
                Shl | ShlUnchecked => mk(a.wrapping_shl(c as u32 & (size * 8 - 1))),
                Shr | ShrUnchecked => {
                    let s = c as u32 & (size * 8 - 1);
                    if signed { mk((sa >> s) as u128) } else { mk(a >> s) }
                }
                Eq => b(a == c),
                Ne => b(a != c),
                Lt => b(if signed { sa < sc } else { a < c }),
                Le => b(if signed { sa <= sc } else { a <= c }),
                Gt => b(if signed { sa > sc } else { a > c }),
                Ge => b(if signed { sa >= sc } else { a >= c }),
                Cmp => {
                    let o = if signed { sa.cmp(&sc) } else { a.cmp(&c) };
                    Int((o as i8 as u8) as u128)
                }
                _ => Top,
            }
        }
        (Ptr { alloc: p, off: o }, Ptr { alloc: q, off: r }) => match op {
            Eq => {
                if p == q { b(o == r) } else { b(false) }
            }
            Ne => {
                if p == q { b(o != r) } else { b(true) }
            }
            Lt if p == q => b(o < r),
            Le if p == q => b(o <= r),
            Gt if p == q => b(o > r),
            Ge if p == q => b(o >= r),
            Cmp if p == q => Int((o.cmp(&r) as i8 as u8) as u128),
            Sub | SubUnchecked if p == q => Int((o - r) as u64 as u128),
            _ => Top,
        },
        (Ptr { alloc, off }, Int(c)) => match op {
            Eq if c < 4096 => b(false),
            Ne if c < 4096 => b(true),
            Add | AddUnchecked => Ptr { alloc, off: off.wrapping_add(c as u64 as i64) },
            Sub | SubUnchecked => Ptr { alloc, off: off.wrapping_sub(c as u64 as i64) },
            // allocations are laid out on 4 KiB boundaries in the model
            BitAnd if c < 4096 => Int((off as u64 as u128) & c),
            Rem if c > 0 && c <= 4096 && c.is_power_of_two() => Int((off as u64 as u128) & (c - 1)),
            Lt | Le if c == 0 => b(false),
            Gt | Ge if c == 0 => b(true),
            _ => Top,
        },
        (Int(c), Ptr { alloc, off }) => match op {
            Eq if c < 4096 => b(false),
            Ne if c < 4096 => b(true),
            Add | AddUnchecked => Ptr { alloc, off: off.wrapping_add(c as u64 as i64) },
            _ => Top,
        },
        _ => {
            if signed {
                let (Some((a, c)), Some((d, e))) = (sbounds(x, size), sbounds(y, size)) else { return Top };
                let bits = size * 8 - 1;
                if bits >= 120 {
                    return Top;
                }
                let (mn, mx) = (-(1i128 << bits), (1i128 << bits) - 1);
                let out = |lo: i128, hi: i128| {
                    if lo < mn || hi > mx || (lo < 0) != (hi < 0) {
                        Top
                    } else {
                        rng(lo as u128 & mask(size), hi as u128 & mask(size))
                    }
                };
                match op {
                    Add | AddUnchecked => out(a + d, c + e),
                    Sub | SubUnchecked => out(a - e, c - d),
                    Lt => cmp3(c < d, a >= e),
                    Le => cmp3(c <= d, a > e),
                    Gt => cmp3(a > e, c <= d),
                    Ge => cmp3(a >= e, c < d),
                    Eq => cmp3(false, c < d || e < a),
                    Ne => cmp3(c < d || e < a, false),
                    _ => Top,
                }
            } else {
                let (Some((a, c)), Some((d, e))) = (bounds(x), bounds(y)) else { return Top };
                if size > 8 {
                    return Top;
                }
                let mx = mask(size);
                match op {
                    Add | AddUnchecked if c + e <= mx => rng(a + d, c + e),
                    Sub | SubUnchecked if a >= e => rng(a - e, c - d),
                    Mul | MulUnchecked if c.saturating_mul(e) <= mx => rng(a * d, c * e),
                    Div if d > 0 => rng(a / e, c / d),
                    Rem if d == e && d > 0 => {
                        if c < d { rng(a, c) } else { rng(0, d - 1) }
                    }
                    BitAnd => rng(0, c.min(e)),
                    Shr | ShrUnchecked if d == e && d < (size as u128) * 8 => rng(a >> d, c >> d),
                    Lt => cmp3(c < d, a >= e),
                    Le => cmp3(c <= d, a > e),
                    Gt => cmp3(a > e, c <= d),
                    Ge => cmp3(a >= e, c < d),
                    Eq => cmp3(false, c < d || e < a),
                    Ne => cmp3(c < d || e < a, false),
                    _ => Top,
                }
            }
        }
    }
}
fn cmp3(yes: bool, no: bool) -> Leaf {
    if yes {
        Leaf::Int(1)
    } else if no {
        Leaf::Int(0)
    } else {
        Leaf::Top
    }
}

pub fn overflows(op: BinOp, size: u32, signed: bool, x: Leaf, y: Leaf) -> Leaf {
    use Leaf::*;
    if x == Undef || y == Undef {
        return Undef;
    }
    match (x, y) {
        (Ptr { .. }, _) | (_, Ptr { .. }) => return Int(0),
        _ => {}
    }
    if signed {
        let (Some((a, c)), Some((d, e))) = (sbounds(x, size), sbounds(y, size)) else { return Top };
        if size > 8 {
            return match (x, y) {
                (Int(_), Int(_)) => {
                    let r = match op {
                        BinOp::Add => a.checked_add(d),
                        BinOp::Sub => a.checked_sub(d),
                        _ => a.checked_mul(d),
                    };
                    b(r.is_none())
                }
                _ => Top,
            };
        }
        let (mn, mx) = (-(1i128 << (size * 8 - 1)), (1i128 << (size * 8 - 1)) - 1);
        let (lo, hi) = match op {
            BinOp::Add => (a + d, c + e),
            BinOp::Sub => (a - e, c - d),
            _ => {
                let v = [a * d, a * e, c * d, c * e];
                (*v.iter().min().unwrap(), *v.iter().max().unwrap())
            }
        };
        if lo >= mn && hi <= mx {
            Int(0)
        } else if lo > mx || hi < mn {
            Int(1)
        } else {
            Top
        }
    } else {
        let (Some((a, c)), Some((d, e))) = (bounds(x), bounds(y)) else { return Top };
        let mx = mask(size);
        let over = |v: Option<u128>| v.map_or(true, |v| v > mx);
        let (lo, hi) = match op {
            BinOp::Add => (over(a.checked_add(d)), over(c.checked_add(e))),
            BinOp::Sub => (c < d, a < e),
            _ => (over(a.checked_mul(d)), over(c.checked_mul(e))),
        };
        if !hi {
            Int(0)
        } else if lo {
            Int(1)
        } else {
            Top
        }
    }
}

pub fn int_cast(ssize: u32, signed: bool, dsize: u32, l: Leaf) -> Leaf {
    use Leaf::*;
    match l {
        Int(x) => {
            if signed && dsize > ssize {
                Int(sext(x, ssize) as u128 & mask(dsize))
            } else {
                Int(x & mask(dsize))
            }
        }
        Range(lo, hi) => {
            if signed && dsize > ssize {
                let half = 1u128 << (ssize * 8 - 1);
                if (lo < half) == (hi < half) {
                    rng(sext(lo, ssize) as u128 & mask(dsize), sext(hi, ssize) as u128 & mask(dsize))
                } else {
                    Top
                }
            } else if hi <= mask(dsize) {
                l
            } else {
                Range(0, mask(dsize))
            }
        }
        Ptr { .. } if dsize == 8 => l,
        Undef => Undef,
        Sym(_) if dsize == ssize => l,
        _ => Top,
    }
}

fn f(bits: u32, x: u128) -> f64 {
    if bits == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) }
}
fn unf(bits: u32, x: f64) -> Leaf {
    Leaf::Int(if bits == 32 { (x as f32).to_bits() as u128 } else { x.to_bits() as u128 })
}
pub fn float_bin(op: BinOp, bits: u32, x: Leaf, y: Leaf) -> Leaf {
    use BinOp::*;
    let (Leaf::Int(a), Leaf::Int(c)) = (x, y) else {
        return if x == Leaf::Undef || y == Leaf::Undef { Leaf::Undef } else { Leaf::Top };
    };
    let (p, q) = (f(bits, a), f(bits, c));
    // f32 arithmetic through f64 with one rounding is exact for + - * /
    match op {
        Add => unf(bits, p + q),
        Sub => unf(bits, p - q),
        Mul => unf(bits, p * q),
        Div => unf(bits, p / q),
        Rem => unf(bits, p % q),
        Eq => b(p == q),
        Ne => b(p != q),
        Lt => b(p < q),
        Le => b(p <= q),
        Gt => b(p > q),
        Ge => b(p >= q),
        _ => Leaf::Top,
    }
}
pub fn int_to_float(ssize: u32, signed: bool, bits: u32, l: Leaf) -> Leaf {
    match l {
        Leaf::Int(x) => {
            if bits == 32 {
                let v = if signed { sext(x, ssize) as f32 } else { x as f32 };
                Leaf::Int(v.to_bits() as u128)
            } else {
                let v = if signed { sext(x, ssize) as f64 } else { x as f64 };
                Leaf::Int(v.to_bits() as u128)
            }
        }
        Leaf::Undef => Leaf::Undef,
        _ => Leaf::Top,
    }
}
pub fn float_to_int(sbits: u32, dsize: u32, signed: bool, l: Leaf) -> Leaf {
    match l {
        Leaf::Int(x) => {
            let v = f(sbits, x);
            if signed {
                let mx = if dsize >= 16 { i128::MAX } else { (1i128 << (dsize * 8 - 1)) - 1 };
                let mn = -mx - 1;
                Leaf::Int(((v as i128).clamp(mn, mx)) as u128 & mask(dsize))
            } else {
                Leaf::Int((v as u128).min(mask(dsize)))
            }
        }
        Leaf::Undef => Leaf::Undef,
        _ => Leaf::Top,
    }
}
pub fn float_to_float(sb: u32, db: u32, l: Leaf) -> Leaf {
    match l {
        Leaf::Int(x) => unf(db, f(sb, x)),
        Leaf::Undef => Leaf::Undef,
        _ => Leaf::Top,
    }
}
pub fn unop(neg: bool, size: u32, isbool: bool, isfloat: bool, l: Leaf) -> Leaf {
    match l {
        Leaf::Int(x) => {
            if isfloat {
                let bits = size * 8;
                return Leaf::Int((x ^ (1u128 << (bits - 1))) & mask(size));
            }
            if isbool {
                return Leaf::Int((x == 0) as u128);
            }
            if neg { Leaf::Int(x.wrapping_neg() & mask(size)) } else { Leaf::Int(!x & mask(size)) }
        }
        Leaf::Undef => Leaf::Undef,
        Leaf::Range(lo, hi) if !neg && !isbool => rng(!hi & mask(size), !lo & mask(size)),
        _ => Leaf::Top,
    }
}

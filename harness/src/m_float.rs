use crate::common::*;
use crate::m_int::{from_limbs, scribble_int, scribble_nat};
use rmath::bigint::float::{Accuracy, RoundingMode};
use rmath::bigint::{Float, Nat, Rat};
use std::str::FromStr;

pub const H: usize = 4;

pub struct FloatMachine {
    n: Vec<Float>,
}

impl FloatMachine {
    pub fn new() -> FloatMachine {
        let mut m = FloatMachine { n: vec![] };
        m.reset();
        m
    }
}

fn mode(i: usize) -> RoundingMode {
    match i {
        0 => RoundingMode::ToNearestEven,
        1 => RoundingMode::ToNearestAway,
        2 => RoundingMode::ToZero,
        3 => RoundingMode::AwayFromZero,
        4 => RoundingMode::ToNegativeInf,
        5 => RoundingMode::ToPositiveInf,
        _ => die("mode"),
    }
}
fn mode_no(m: RoundingMode) -> usize {
    (0..6).find(|&i| mode(i) == m).unwrap()
}
fn acc_no(a: Accuracy) -> i32 {
    match a {
        Accuracy::Below => -1,
        Accuracy::Exact => 0,
        Accuracy::Above => 1,
    }
}

#[cfg(rmath_verif)]
fn parts(x: &Float) -> (u8, bool, Vec<u32>, isize) {
    let (form, neg, mant, exp) = x.verif_parts();
    (form, neg, mant.to_vec(), exp)
}
// without the hook: the same view through the public operations, 32 mantissa bits at a time
#[cfg(not(rmath_verif))]
fn parts(x: &Float) -> (u8, bool, Vec<u32>, isize) {
    if x.is_nan() {
        return (3, false, vec![], 0);
    }
    let neg = x.is_negative() == Some(true);
    if x.is_infinite() == Some(true) {
        return (2, neg, vec![], 0);
    }
    if x.signnum() == Some(0) {
        return (0, neg, vec![], 0);
    }
    let (mut z, exp) = x.mant_exp();
    let mut v = vec![];
    z = if neg { -z } else { z };
    while z.signnum() == Some(1) {
        let mut t = Float::default();
        t.set_mant_exp(z, 32);
        let w = t.truncate_to_u64().map_or(0, |w| w.0);
        v.push(w as u32);
        z = t - Float::from(w);
        if v.len() > 1 << 20 {
            break;
        }
    }
    v.reverse();
    (1, neg, v, exp)
}

impl Machine for FloatMachine {
    fn reset(&mut self) {
        self.n = (0..H).map(|_| Float::default()).collect();
    }

    fn observe(&self, s: &mut String) {
        s.push_str("\"obs\":[");
        for (i, x) in self.n.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let (form, neg, mant, exp) = parts(x);
            let mant = mant.as_slice();
            s.push_str(&format!("[\"{}\",\"{}\",\"{}\",", form, neg as u8, if form == 1 { mant.len() } else { 0 }));
            put_limbs(s, if form == 1 { mant } else { &[] });
            s.push_str(&format!(",\"{}\",\"{}\",\"{}\",\"{}\"]", if form == 1 { exp } else { 0 }, x.get_precision(), mode_no(x.get_mode()), acc_no(x.get_accuracy())));
        }
        s.push(']');
    }

    fn exec(&mut self, c: &Cmd, o: &mut Out) {
        let n = &mut self.n;
        match c.op.as_str() {
            // +-(limbs) rounded to n bits (nearest even), mode m, times 2^c
            "mk" => {
                let mut x = Float::from(from_limbs(c.limbs("s"), c.u("k") == 1));
                x.set_precision(c.u("n"));
                x.set_mode(mode(c.u("m")));
                let mut z = Float::default();
                z.set_mant_exp(x, c.i128("c") as isize);
                n[c.u("d")] = z;
            }
            "big" => {
                let v = c.limbs("s");
                n[c.u("d")] = if c.raw("f") == "nat" {
                    let mut src = Nat::from(v);
                    let x = Float::from(src.clone());
                    scribble_nat(&mut src);
                    x
                } else {
                    let mut src = from_limbs(v, c.u("k") == 1);
                    let x = Float::from(src.clone());
                    scribble_int(&mut src);
                    x
                };
            }
            "rat" => {
                let v = c.limbs("s");
                let k = c.u("n");
                let p = from_limbs(v[..k].to_vec(), c.u("k") == 1);
                let q = from_limbs(v[k..].to_vec(), false);
                n[c.u("d")] = Float::from(Rat::from_frac_bigint(&p, &q).unwrap());
            }
            "cons" => {
                let k = c.raw("k");
                macro_rules! p {
                    ($t: ty) => {
                        Float::from(k.parse::<$t>().unwrap_or_else(|_| die("cons")))
                    };
                }
                n[c.u("d")] = match c.raw("f") {
                    "u8" => p!(u8),
                    "u16" => p!(u16),
                    "u32" => p!(u32),
                    "u64" => p!(u64),
                    "i8" => p!(i8),
                    "i16" => p!(i16),
                    "i32" => p!(i32),
                    "i64" => p!(i64),
                    _ => die("cons"),
                };
            }
            "fromf" => {
                n[c.u("d")] = match c.raw("f") {
                    "f32" => Float::from(f32::from_bits(c.u128("k") as u32)),
                    "f64" => Float::from(f64::from_bits(c.u128("k") as u64)),
                    _ => die("fromf"),
                }
            }
            "default" => n[c.u("d")] = Float::default(),
            "inf" => n[c.u("d")] = Float::get_inf(c.u("k") == 1),
            "nan" => {
                n[c.u("d")] = match c.u("k") {
                    0 => Float::from(f64::NAN),
                    1 => Float::from(Nat::default()),
                    _ => Float::from(Rat::from(f64::NAN)),
                }
            }
            "deep" => n[c.u("d")] = n[c.u("a")].deep_clone(),
            "setprec" => n[c.u("d")].set_precision(c.u("n")),
            "setmode" => n[c.u("d")].set_mode(mode(c.u("m"))),
            "setme" => {
                let x = n[c.u("a")].deep_clone();
                n[c.u("d")].set_mant_exp(x, c.i128("k") as isize);
            }
            "mantexp" => {
                let (m, e) = n[c.u("a")].mant_exp();
                n[c.u("d")] = m;
                o.int(e);
            }
            "o2" => {
                let (a, b) = (n[c.u("a")].deep_clone(), n[c.u("b")].deep_clone());
                n[c.u("d")] = match c.raw("f") {
                    "add" => a + b,
                    "sub" => a - b,
                    "mul" => a * b,
                    "div" => a / b,
                    _ => die("o2"),
                };
            }
            "a2" => {
                let b = n[c.u("b")].deep_clone();
                let a = &mut n[c.u("d")];
                match c.raw("f") {
                    "add" => *a += b,
                    "sub" => *a -= b,
                    "mul" => *a *= b,
                    "div" => *a /= b,
                    _ => die("a2"),
                }
            }
            "o1" => {
                let a = n[c.u("a")].deep_clone();
                n[c.u("d")] = match c.raw("f") {
                    "neg" => -a,
                    "abs" => a.abs(),
                    _ => die("o1"),
                };
            }
            "tof" => {
                let x = &n[c.u("a")];
                match c.raw("f") {
                    "f32" => {
                        let (f, e) = x.to_f32();
                        o.int(f.to_bits());
                        o.int(acc_no(e));
                    }
                    "f64" => {
                        let (f, e) = x.to_f64();
                        o.int(f.to_bits());
                        o.int(acc_no(e));
                    }
                    _ => die("tof"),
                }
            }
            "trunc" => match c.raw("f") {
                "u64" => {
                    if let Some((v, a)) = n[c.u("a")].truncate_to_u64() {
                        o.int(v);
                        o.int(acc_no(a));
                    }
                }
                "i64" => {
                    if let Some((v, a)) = n[c.u("a")].truncate_to_i64() {
                        o.int(v);
                        o.int(acc_no(a));
                    }
                }
                _ => die("trunc"),
            },
            "class" => {
                let x = &n[c.u("a")];
                o.b(x.is_nan());
                o.int(x.signnum().unwrap_or(9));
                o.ob(x.is_negative());
                o.ob(x.is_infinite());
                o.ob(x.is_integer());
                o.int(x.required_min_precision());
            }
            "cmp" => {
                let (a, b) = (&n[c.u("a")], &n[c.u("b")]);
                o.ord(a.partial_cmp(b));
                o.b(a == b);
                o.b(a != b);
                o.b(a < b);
                o.b(a <= b);
                o.b(a > b);
                o.b(a >= b);
            }
            "parse" => match Float::from_str(&c.text("t")) {
                Ok(x) => n[c.u("d")] = x,
                Err(_) => o.st = "err",
            },
            "perr" => o.int(match Float::from_str(&c.text("t")) {
                Ok(_) => -1,
                Err(e) => {
                    let _ = (format!("{}", e), format!("{:?}", e), std::error::Error::source(&e).is_some());
                    // the kind's type is not exported
                    match format!("{:?}", e.kind()).as_str() {
                        "ExponentOverflow" => 0,
                        "ExponentUnderflow" => 1,
                        "ParseStringWrong" => 2,
                        _ => 3,
                    }
                }
            }),
            "fmt" => {
                let x = &n[c.u("a")];
                let p = c.i128("n");
                let p = if p < 0 { None } else { Some(p as usize) };
                let s = match (c.raw("f"), p) {
                    ("e", Some(p)) => format!("{:.*e}", p, x),
                    ("e", None) => format!("{:e}", x),
                    ("E", Some(p)) => format!("{:.*E}", p, x),
                    ("E", None) => format!("{:E}", x),
                    ("d", _) => format!("{}", x),
                    ("g", _) => format!("{:?}", x),
                    _ => die("fmt"),
                };
                o.text(&s);
            }
            _ => die(&format!("float op {}", c.op)),
        }
    }
}

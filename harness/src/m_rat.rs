use crate::common::*;
use crate::m_int::{from_limbs, hex_int, obs_int, scribble_int, scribble_nat};
use rmath::bigint::{BigInt, Nat, Rat, RatErrKind, RatError};
use std::str::FromStr;

pub const H: usize = 4;

pub struct RatMachine {
    n: Vec<Rat>,
}

impl RatMachine {
    pub fn new() -> RatMachine {
        let mut m = RatMachine { n: vec![] };
        m.reset();
        m
    }
}

fn rat_fmt(f: &str, x: &Rat) -> String {
    match f {
        "d" => format!("{}", x),
        "b" => format!("{:b}", x),
        "o" => format!("{:o}", x),
        "x" => format!("{:x}", x),
        "X" => format!("{:X}", x),
        "g" => format!("{:?}", x),
        "Ad" => format!("{:#}", x),
        "Ab" => format!("{:#b}", x),
        "Ao" => format!("{:#o}", x),
        "Ax" => format!("{:#x}", x),
        "AX" => format!("{:#X}", x),
        _ => die("fmt"),
    }
}

fn kind(o: &mut Out, x: Result<Rat, RatError>) {
    o.int(match x {
        Ok(_) => -1,
        Err(e) => {
            let _ = (format!("{}", e), format!("{:?}", e), std::error::Error::source(&e).is_some());
            match e.kind() {
                RatErrKind::DenominatorIsZero => 0,
                RatErrKind::NumeratorIsZero => 1,
                RatErrKind::ParseStringWrong => 2,
            }
        }
    })
}

impl Machine for RatMachine {
    fn reset(&mut self) {
        self.n = (0..H).map(|_| Rat::from(0u32)).collect();
    }

    fn observe(&self, s: &mut String) {
        s.push_str("\"obs\":[");
        for (i, x) in self.n.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            let (mut a, mut b) = (String::new(), String::new());
            obs_int(&mut a, x.numerator());
            obs_int(&mut b, x.denominator());
            s.push_str(&format!("[\"{}\",{},{}]", x.is_nan() as u8, &a[1..a.len() - 1], &b[1..b.len() - 1]));
        }
        s.push(']');
    }

    fn exec(&mut self, c: &Cmd, o: &mut Out) {
        let n = &mut self.n;
        match c.op.as_str() {
            "set" => {
                let v = c.limbs("s");
                let k = c.u("n");
                let mut p = from_limbs(v[..k].to_vec(), c.u("k") == 1);
                let mut q = from_limbs(v[k..].to_vec(), c.u("m") == 1);
                let z = Rat::from_frac_bigint(&p, &q);
                // the arguments as they are after the call
                o.r.push(hex_int(&p));
                o.r.push(hex_int(&q));
                scribble_int(&mut p);
                scribble_int(&mut q);
                match z {
                    Ok(x) => n[c.u("d")] = x,
                    Err(_) => o.st = "err",
                }
            }
            "frac" => match Rat::from_frac(c.i128("k") as isize, c.i128("n") as isize) {
                Ok(x) => n[c.u("d")] = x,
                Err(_) => o.st = "err",
            },
            "cons" => {
                let k = c.raw("k");
                macro_rules! p {
                    ($t: ty) => {
                        Rat::from(k.parse::<$t>().unwrap_or_else(|_| die("cons")))
                    };
                }
                n[c.u("d")] = match c.raw("f") {
                    "u8" => p!(u8),
                    "u16" => p!(u16),
                    "u32" => p!(u32),
                    "u64" => p!(u64),
                    "usize" => p!(usize),
                    "u128" => p!(u128),
                    "i8" => p!(i8),
                    "i16" => p!(i16),
                    "i32" => p!(i32),
                    "i64" => p!(i64),
                    "isize" => p!(isize),
                    "i128" => p!(i128),
                    _ => die("cons"),
                };
            }
            "consbig" => {
                let v = c.limbs("s");
                n[c.u("d")] = if c.raw("f") == "nat" {
                    let mut src = Nat::from(v);
                    let x = Rat::from(src.clone());
                    scribble_nat(&mut src);
                    x
                } else {
                    let mut src = from_limbs(v, c.u("k") == 1);
                    let x = Rat::from(src.clone());
                    scribble_int(&mut src);
                    x
                };
            }
            "setnan" => {
                n[c.u("d")] = if c.u("k") == 0 { Rat::from(f64::NAN) } else { Rat::from(BigInt::from(Nat::default())) }
            }
            "fromf" => {
                n[c.u("d")] = match c.raw("f") {
                    "f32" => Rat::from(f32::from_bits(c.u128("k") as u32)),
                    "f64" => Rat::from(f64::from_bits(c.u128("k") as u64)),
                    _ => die("fromf"),
                }
            }
            "tof" => {
                let x = &n[c.u("a")];
                match c.raw("f") {
                    "f32" => {
                        let (f, e) = x.to_f32();
                        o.int(f.to_bits());
                        o.b(e);
                    }
                    "f64" => {
                        let (f, e) = x.to_f64();
                        o.int(f.to_bits());
                        o.b(e);
                    }
                    _ => die("tof"),
                }
            }
            "parse" => match Rat::from_str(&c.text("t")) {
                Ok(x) => n[c.u("d")] = x,
                Err(_) => o.st = "err",
            },
            "perr" => kind(o, Rat::from_str(&c.text("t"))),
            "fracerr" => {
                let v = c.limbs("s");
                let k = c.u("n");
                let p = from_limbs(v[..k].to_vec(), c.u("k") == 1);
                let q = from_limbs(v[k..].to_vec(), c.u("m") == 1);
                kind(o, Rat::from_frac_bigint(&p, &q));
            }
            "fracierr" => kind(o, Rat::from_frac(c.i128("k") as isize, c.i128("n") as isize)),
            "inverr" => kind(o, n[c.u("a")].clone().inv()),
            "clone" => n[c.u("d")] = n[c.u("a")].clone(),
            "deep" => n[c.u("d")] = n[c.u("a")].deep_clone(),
            "o2" => {
                let (a, b) = (n[c.u("a")].clone(), n[c.u("b")].clone());
                let r = match c.raw("f") {
                    "add" => a + b,
                    "sub" => a - b,
                    "mul" => a * b,
                    "div" => a / b,
                    _ => die("o2"),
                };
                n[c.u("d")] = r;
            }
            "a2" => {
                let b = n[c.u("b")].clone();
                let a = &mut n[c.u("d")];
                match c.raw("f") {
                    "add" => *a += b,
                    "sub" => *a -= b,
                    "mul" => *a *= b,
                    "div" => *a /= b,
                    _ => die("a2"),
                }
            }
            "o1" => {
                let a = n[c.u("a")].clone();
                let r = match c.raw("f") {
                    "neg" => -a,
                    "abs" => a.abs(),
                    "inv" => match a.inv() {
                        Ok(x) => x,
                        Err(_) => {
                            o.st = "err";
                            return;
                        }
                    },
                    _ => die("o1"),
                };
                n[c.u("d")] = r;
            }
            "class" => {
                let x = &n[c.u("a")];
                o.b(x.is_nan());
                o.int(x.signnum().unwrap_or(9));
                o.ob(x.is_integer());
            }
            "cmp" => {
                let (a, b) = (&n[c.u("a")], &n[c.u("b")]);
                o.ord(a.partial_cmp(b));
                o.b(a == b);
                o.b(a != b);
                o.b(a < b);
                o.b(a <= b);
                o.b(a > b);
                o.b(a >= b);
            }
            "fmt" => o.text(&rat_fmt(c.raw("f"), &n[c.u("a")])),
            _ => die(&format!("rat op {}", c.op)),
        }
    }
}

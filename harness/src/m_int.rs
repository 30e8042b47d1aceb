use crate::common::*;
use crate::rng::ScriptRng;
use rmath::bigint::{BigInt, Nat};
use std::str::FromStr;

pub const H: usize = 4;

pub struct IntMachine {
    n: Vec<BigInt>,
}

fn limbs(x: &BigInt) -> &[u32] {
    let n: &Nat = x.as_ref();
    n.as_ref()
}

/// signed value, read from memory; a negative zero shows as `-x0`
pub fn put_int(s: &mut String, x: &BigInt) {
    let mut t = String::new();
    put_limbs(&mut t, limbs(x));
    if x.is_negative() {
        t.insert(1, '-');
    }
    s.push_str(&t);
}

fn int_str(x: &BigInt) -> String {
    let mut s = String::new();
    put_int(&mut s, x);
    s.trim_matches('"').to_string()
}

/// [limb count, magnitude, signnum (9 = None)]
pub fn obs_int(s: &mut String, x: &BigInt) {
    s.push_str(&format!("[\"{}\",", limbs(x).len()));
    put_limbs(s, limbs(x));
    s.push_str(&format!(",\"{}\"]", x.signnum().unwrap_or(9)));
}

pub fn hex_int(x: &BigInt) -> String {
    let mut s = String::new();
    put_limbs(&mut s, limbs(x));
    format!("{}{}", if x.signnum() == Some(-1) { "-" } else { "" }, s.trim_matches('"'))
}

/// a value made from a shared handle must not change when the handle is written afterwards
pub fn scribble_nat(x: &mut Nat) {
    *x += 1u32;
    *x <<= 7;
}
pub fn scribble_int(x: &mut BigInt) {
    *x -= BigInt::from(3u32);
    *x <<= 7;
}

pub fn from_limbs(v: Vec<u32>, neg: bool) -> BigInt {
    let mut x = BigInt::from(v);
    if neg {
        x.set_negative();
    }
    x
}

impl IntMachine {
    pub fn new() -> IntMachine {
        let mut m = IntMachine { n: vec![] };
        m.reset();
        m
    }
}

fn int_fmt(f: &str, x: &BigInt) -> String {
    match f {
        "d" => format!("{}", x),
        "b" => format!("{:b}", x),
        "o" => format!("{:o}", x),
        "x" => format!("{:x}", x),
        "X" => format!("{:X}", x),
        "g" => format!("{:?}", x),
        "Ad" => format!("{:#}", x),
        "Ab" => format!("{:#b}", x),
        "Ao" => format!("{:#o}", x),
        "Ax" => format!("{:#x}", x),
        "AX" => format!("{:#X}", x),
        "Ag" => format!("{:#?}", x),
        _ => die("fmt"),
    }
}

impl Machine for IntMachine {
    fn reset(&mut self) {
        self.n = (0..H).map(|_| BigInt::from(0u32)).collect();
    }

    fn observe(&self, s: &mut String) {
        s.push_str("\"obs\":[");
        for (i, x) in self.n.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            obs_int(s, x);
        }
        s.push(']');
    }

    fn exec(&mut self, c: &Cmd, o: &mut Out) {
        let n = &mut self.n;
        match c.op.as_str() {
            "set" => {
                let v = c.limbs("s");
                let neg = c.u("k") == 1;
                n[c.u("d")] = match c.raw("f") {
                    "vec" => from_limbs(v, neg),
                    "rvec" => {
                        let mut x = BigInt::from(&v);
                        if neg {
                            x.set_negative()
                        }
                        x
                    }
                    "slice" => {
                        let x = BigInt::from(v.as_slice());
                        if neg {
                            -x
                        } else {
                            x
                        }
                    }
                    "nat" => {
                        let mut src = Nat::from(v);
                        let x = BigInt::from(src.clone());
                        scribble_nat(&mut src);
                        if neg {
                            -x
                        } else {
                            x
                        }
                    }
                    _ => die("set"),
                };
            }
            "setnan" => n[c.u("d")] = BigInt::from(Nat::default()),
            "cons" => {
                let k = c.raw("k");
                macro_rules! p {
                    ($t: ty) => {
                        BigInt::from(k.parse::<$t>().unwrap_or_else(|_| die("cons")))
                    };
                }
                n[c.u("d")] = match c.raw("f") {
                    "u8" => p!(u8),
                    "u16" => p!(u16),
                    "u32" => p!(u32),
                    "u64" => p!(u64),
                    "usize" => p!(usize),
                    "u128" => p!(u128),
                    "i8" => p!(i8),
                    "i16" => p!(i16),
                    "i32" => p!(i32),
                    "i64" => p!(i64),
                    "isize" => p!(isize),
                    "i128" => p!(i128),
                    _ => die("cons"),
                };
            }
            "consb" => {
                let b = c.bytes("t");
                n[c.u("d")] = match c.raw("f") {
                    "le" => BigInt::from_le_bytes(&b),
                    "be" => BigInt::from_be_bytes(&b),
                    "slice" => BigInt::from(b.as_slice()),
                    "vec" => BigInt::from(b),
                    "rvec" => BigInt::from(&b),
                    _ => die("consb"),
                };
            }
            "parse" => match BigInt::from_str(&c.text("t")) {
                Ok(x) => n[c.u("d")] = x,
                Err(_) => o.st = "err",
            },
            "perr" => match BigInt::from_str(&c.text("t")) {
                Ok(_) => o.int(-1),
                Err(e) => o.int(crate::m_nat::nat_kind(&e)),
            },
            "clone" => n[c.u("d")] = n[c.u("a")].clone(),
            "deep" => n[c.u("d")] = n[c.u("a")].deep_clone(),
            "setneg" => n[c.u("d")].set_negative(),
            "setnat" => n[c.u("d")].set_natural(),
            "o2" => {
                let (a, b) = (n[c.u("a")].clone(), n[c.u("b")].clone());
                let r = match c.raw("f") {
                    "add" => a + b,
                    "sub" => a - b,
                    "mul" => a * b,
                    "div" => a / b,
                    "rem" => a % b,
                    "reme" => a.rem_euclid(b),
                    "dive" => a.div_euclid(b),
                    "and" => a & b,
                    "or" => a | b,
                    "xor" => a ^ b,
                    "andnot" => a.and_not(b),
                    "modinv" => a.mod_inverse(b),
                    _ => die("o2"),
                };
                n[c.u("d")] = r;
            }
            "a2" => {
                let b = n[c.u("b")].clone();
                let a = &mut n[c.u("d")];
                match c.raw("f") {
                    "add" => *a += b,
                    "sub" => *a -= b,
                    "mul" => *a *= b,
                    "div" => *a /= b,
                    "rem" => *a %= b,
                    "reme" => a.rem_euclid_assign(b),
                    "dive" => a.div_euclid_assign(b),
                    "and" => *a &= b,
                    "or" => *a |= b,
                    "xor" => *a ^= b,
                    "andnot" => a.and_not_assign(b),
                    _ => die("a2"),
                }
            }
            "ou" => {
                let a = n[c.u("a")].clone();
                n[c.u("d")] = match c.raw("f") {
                    "shl" => a << c.u("k"),
                    "shr" => a >> c.u("k"),
                    _ => die("ou"),
                };
            }
            "au" => {
                let a = &mut n[c.u("d")];
                match c.raw("f") {
                    "shl" => *a <<= c.u("k"),
                    "shr" => *a >>= c.u("k"),
                    _ => die("au"),
                }
            }
            "o1" => {
                let a = n[c.u("a")].clone();
                let r = match c.raw("f") {
                    "neg" => -a,
                    "not" => !a,
                    "abs" => a.abs(),
                    "ofmag" => BigInt::from(AsRef::<Nat>::as_ref(&a).clone()),
                    "sqr" => a.sqr(),
                    "sqrt" => a.sqrt(),
                    _ => die("o1"),
                };
                n[c.u("d")] = r;
            }
            "o3" => {
                let (a, b, m) = (n[c.u("a")].clone(), n[c.u("b")].clone(), n[c.u("c")].clone());
                n[c.u("d")] = a.exp(&b, &m);
            }
            "gcd" => {
                let (a, b) = (n[c.u("a")].clone(), n[c.u("b")].clone());
                let (g, x, y) = a.gcd(b);
                let d = c.u("d");
                n[d] = g;
                n[(d + 1) % H] = x;
                n[(d + 2) % H] = y;
            }
            "lineq" => {
                let (a, b, m) = (n[c.u("a")].clone(), n[c.u("b")].clone(), n[c.u("c")].clone());
                match a.solve_mod_linear_equation(b, m) {
                    None => o.st = "none",
                    Some(v) => {
                        for x in v {
                            o.r.push(if x.is_nan() { "-1".into() } else { int_str(&x) });
                        }
                    }
                }
            }
            "jacobi" => {
                let j = n[c.u("a")].jacobi(&n[c.u("b")]);
                o.int(j.unwrap_or(9));
            }
            "modsqrt" => {
                let r = n[c.u("a")].mod_sqrt(&n[c.u("b")]);
                match r {
                    None => o.st = "none",
                    Some(x) => n[c.u("d")] = x,
                }
            }
            "mulrange" => n[c.u("d")] = BigInt::mul_range(c.i128("k") as i64, c.i128("n") as i64),
            "binomial" => n[c.u("d")] = BigInt::binomial(c.i128("k") as i64, c.i128("n") as i64),
            "random" => {
                let mut g = ScriptRng::new(c.ints("s"), c.u128("k") as u64);
                let r = n[c.u("a")].random(&mut g);
                n[c.u("d")] = r;
            }
            "randtop" => {
                let mut g = ScriptRng::new(vec![], c.u128("k") as u64);
                let x = &n[c.u("a")];
                let mut h = Eighths::new(limbs(x));
                for _ in 0..c.u("n") {
                    let r = x.random(&mut g);
                    h.put(limbs(&r));
                }
                for v in h.h.iter() {
                    o.int(*v);
                }
            }
            "q1" => {
                let a = &n[c.u("a")];
                match c.raw("f") {
                    "bits" => o.int(a.bits_len()),
                    "class" => {
                        o.b(a.is_nan());
                        o.b(a.is_negative());
                        o.b(a.is_positive());
                        o.b(a.is_natural());
                        o.int(a.signnum().unwrap_or(9));
                    }
                    "le" => o.bytes(&a.to_le_bytes()),
                    "be" => o.bytes(&a.to_be_bytes()),
                    "cle" => {
                        let mut v = vec![7u8; a.bits_len() * 37 % 1021];
                        a.copy_to_le(&mut v);
                        o.bytes(&v)
                    }
                    "cbe" => {
                        let mut v = vec![9u8; a.bits_len() * 53 % 1021];
                        a.copy_to_be(&mut v);
                        o.bytes(&v)
                    }
                    _ => die("q1"),
                }
            }
            "qbit" => o.ob(n[c.u("a")].is_set_bit(c.u("k"))),
            "cmp" => {
                let (a, b) = (&n[c.u("a")], &n[c.u("b")]);
                o.ord(a.partial_cmp(b));
                o.b(a == b);
                o.b(a != b);
                o.b(a < b);
                o.b(a <= b);
                o.b(a > b);
                o.b(a >= b);
            }
            "cmpu" => {
                let a = &n[c.u("a")];
                let k = c.u128("k") as u32;
                o.b(a == &k);
                o.b(a != &k);
            }
            "fmt" => o.text(&int_fmt(c.raw("f"), &n[c.u("a")])),
            _ => die(&format!("int op {}", c.op)),
        }
    }
}

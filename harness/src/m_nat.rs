use crate::common::*;
use crate::rng::ScriptRng;
use rmath::bigint::Nat;
use std::str::FromStr;

pub const H: usize = 4;

pub struct NatMachine {
    n: Vec<Nat>,
}

fn limbs(x: &Nat) -> &[u32] {
    x.as_ref()
}

impl NatMachine {
    pub fn new() -> NatMachine {
        let mut m = NatMachine { n: vec![] };
        m.reset();
        m
    }
}

pub fn nat_fmt(f: &str, x: &Nat) -> String {
    match f {
        "d" => format!("{}", x),
        "b" => format!("{:b}", x),
        "o" => format!("{:o}", x),
        "x" => format!("{:x}", x),
        "X" => format!("{:X}", x),
        "g" => format!("{:?}", x),
        "Ad" => format!("{:#}", x),
        "Ab" => format!("{:#b}", x),
        "Ao" => format!("{:#o}", x),
        "Ax" => format!("{:#x}", x),
        "AX" => format!("{:#X}", x),
        "Ag" => format!("{:#?}", x),
        _ => die("fmt"),
    }
}

pub fn nat_kind(e: &rmath::bigint::NatError) -> i32 {
    use rmath::parse_err::ParseErrKind::*;
    let _ = (format!("{}", e), format!("{:?}", e), std::error::Error::source(e).is_some());
    match e.kind() {
        BeginWithIllegalChar => 0,
        IllegalCharEncounter => 1,
        InvalidParameters => 2,
    }
}

impl Machine for NatMachine {
    fn reset(&mut self) {
        self.n = (0..H).map(|_| Nat::from(0u32)).collect();
    }

    fn observe(&self, s: &mut String) {
        s.push_str("\"obs\":[");
        for (i, x) in self.n.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push_str(&format!("[\"{}\",", limbs(x).len()));
            put_limbs(s, limbs(x));
            s.push(']');
        }
        s.push(']');
    }

    fn exec(&mut self, c: &Cmd, o: &mut Out) {
        let n = &mut self.n;
        match c.op.as_str() {
            "set" => {
                let v = c.limbs("s");
                let d = c.u("d");
                n[d] = match c.raw("f") {
                    "vec" => Nat::from(v),
                    "rvec" => Nat::from(&v),
                    "slice" => Nat::from(v.as_slice()),
                    _ => die("set"),
                };
            }
            "setnan" => {
                n[c.u("d")] = Nat::default();
            }
            "cons" => {
                let k = c.u128("k");
                n[c.u("d")] = match c.raw("f") {
                    "u8" => Nat::from(k as u8),
                    "u16" => Nat::from(k as u16),
                    "u32" => Nat::from(k as u32),
                    "u64" => Nat::from(k as u64),
                    "usize" => Nat::from(k as usize),
                    "u128" => Nat::from(k),
                    _ => die("cons"),
                };
            }
            "consb" => {
                let b = c.bytes("t");
                n[c.u("d")] = match c.raw("f") {
                    "le" => Nat::from_le_bytes(&b),
                    "be" => Nat::from_be_bytes(&b),
                    "slice" => Nat::from(b.as_slice()),
                    "vec" => Nat::from(b),
                    "rvec" => Nat::from(&b),
                    _ => die("consb"),
                };
            }
            "parse" => match Nat::from_str(&c.text("t")) {
                Ok(x) => n[c.u("d")] = x,
                Err(_) => o.st = "err",
            },
            // the kind of the error, -1: no error; the message is rendered as well
            "perr" => match Nat::from_str(&c.text("t")) {
                Ok(_) => o.int(-1),
                Err(e) => o.int(nat_kind(&e)),
            },
            "gperr" => {
                let mut g = ScriptRng::new(c.ints("s"), c.u128("k") as u64);
                match Nat::generate_prime(c.u("n"), c.u("m"), &mut g) {
                    Ok(_) => o.int(-1),
                    Err(e) => o.int(nat_kind(&e)),
                }
            }
            "clone" => {
                n[c.u("d")] = n[c.u("a")].clone();
            }
            "deep" => {
                n[c.u("d")] = n[c.u("a")].deep_clone();
            }
            "o2" => {
                let (a, b) = (n[c.u("a")].clone(), n[c.u("b")].clone());
                let r = match c.raw("f") {
                    "add" => a + b,
                    "sub" => a - b,
                    "mul" => a * b,
                    "div" => a / b,
                    "rem" => a % b,
                    "and" => a & b,
                    "or" => a | b,
                    "xor" => a ^ b,
                    "andnot" => a.and_not(b),
                    "mulk" => a.mul_karatsuba(&b),
                    "pow" => a.pow(b),
                    "subs" => {
                        let (r, s) = a.sub_with_sign(b);
                        o.b(s);
                        r
                    }
                    _ => die("o2"),
                };
                n[c.u("d")] = r;
            }
            "a2" => {
                let b = n[c.u("b")].clone();
                let a = &mut n[c.u("d")];
                match c.raw("f") {
                    "add" => *a += b,
                    "sub" => *a -= b,
                    "mul" => *a *= b,
                    "div" => *a /= b,
                    "rem" => *a %= b,
                    "and" => *a &= b,
                    "or" => *a |= b,
                    "xor" => *a ^= b,
                    "andnot" => a.and_not_assign(b),
                    "subs" => {
                        let s = a.sub_assign_with_sign(b);
                        o.b(s)
                    }
                    _ => die("a2"),
                }
            }
            "ou" => {
                let (a, k) = (n[c.u("a")].clone(), c.u128("k") as u32);
                let r = match c.raw("f") {
                    "add" => a + k,
                    "sub" => a - k,
                    "mul" => a * k,
                    "div" => a / k,
                    "rem" => a % k,
                    "shl" => a << c.u("k"),
                    "shr" => a >> c.u("k"),
                    _ => die("ou"),
                };
                n[c.u("d")] = r;
            }
            "au" => {
                let k = c.u128("k") as u32;
                let a = &mut n[c.u("d")];
                match c.raw("f") {
                    "add" => *a += k,
                    "sub" => *a -= k,
                    "mul" => *a *= k,
                    "div" => *a /= k,
                    "rem" => *a %= k,
                    "shl" => *a <<= c.u("k"),
                    "shr" => *a >>= c.u("k"),
                    _ => die("au"),
                }
            }
            "o1" => {
                let a = n[c.u("a")].clone();
                let r = match c.raw("f") {
                    "not" => !a,
                    "sqr" => a.sqr(),
                    "sqrt" => a.sqrt(),
                    _ => die("o1"),
                };
                n[c.u("d")] = r;
            }
            "o3" => {
                let (a, b, m) = (n[c.u("a")].clone(), n[c.u("b")].clone(), n[c.u("c")].clone());
                let r = match c.raw("f") {
                    "powmod" => a.pow_mod(b, m),
                    "exp" => a.exp(&b, &m),
                    _ => die("o3"),
                };
                n[c.u("d")] = r;
            }
            "q1" => {
                let a = &n[c.u("a")];
                match c.raw("f") {
                    "bits" => o.int(a.bits_len()),
                    "tz" => o.int(a.trailling_zeros()),
                    "isnan" => o.b(a.is_nan()),
                    "le" => o.bytes(&a.to_le_bytes()),
                    "be" => o.bytes(&a.to_be_bytes()),
                    "cle" => {
                        let mut v = vec![7u8; a.bits_len() * 37 % 1021];
                        a.copy_to_le(&mut v);
                        o.bytes(&v)
                    }
                    "cbe" => {
                        let mut v = vec![9u8; a.bits_len() * 53 % 1021];
                        a.copy_to_be(&mut v);
                        o.bytes(&v)
                    }
                    _ => die("q1"),
                }
            }
            "qbit" => o.ob(n[c.u("a")].is_set_bit(c.u("k"))),
            "cmp" => {
                let (a, b) = (&n[c.u("a")], &n[c.u("b")]);
                o.ord(a.partial_cmp(b));
                o.b(a == b);
                o.b(a != b);
                o.b(a < b);
                o.b(a <= b);
                o.b(a > b);
                o.b(a >= b);
            }
            "cmpu" => {
                let a = &n[c.u("a")];
                let k = c.u128("k");
                macro_rules! go {
                    ($t: ty) => {{
                        let k = k as $t;
                        o.ord(a.partial_cmp(&k));
                        o.b(a == &k);
                        o.b(a != &k);
                        o.b(a < &k);
                        o.b(a <= &k);
                        o.b(a > &k);
                        o.b(a >= &k);
                    }};
                }
                match c.raw("f") {
                    "u8" => go!(u8),
                    "u16" => go!(u16),
                    "u32" => go!(u32),
                    "u64" => go!(u64),
                    "u128" => go!(u128),
                    "usize" => go!(usize),
                    _ => die("cmpu"),
                }
            }
            "fmt" => o.text(&nat_fmt(c.raw("f"), &n[c.u("a")])),
            "random" => {
                let mut g = ScriptRng::new(c.ints("s"), c.u128("k") as u64);
                let r = n[c.u("a")].random(&mut g);
                n[c.u("d")] = r;
            }
            "randcover" => {
                let mut g = ScriptRng::new(vec![], c.u128("k") as u64);
                let x = &n[c.u("a")];
                let m = limbs(x)[0] as usize;
                let mut h = vec![0u64; m];
                for _ in 0..c.u("n") {
                    let r = x.random(&mut g);
                    let v = limbs(&r)[0] as usize;
                    if limbs(&r).len() == 1 && v < m {
                        h[v] += 1;
                    }
                }
                for v in h {
                    o.int(v);
                }
            }
            // draws per eighth of [0, a)
            "randtop" => {
                let mut g = ScriptRng::new(vec![], c.u128("k") as u64);
                let x = &n[c.u("a")];
                let mut h = Eighths::new(limbs(x));
                for _ in 0..c.u("n") {
                    h.put(limbs(&x.random(&mut g)));
                }
                for v in h.h.iter() {
                    o.int(*v);
                }
            }
            "prime" => {
                let mut g = ScriptRng::new(c.ints("s"), c.u128("k") as u64);
                o.b(n[c.u("a")].probably_prime_test(c.u("n"), &mut g));
            }
            "genprime" => {
                let mut g = ScriptRng::new(c.ints("s"), c.u128("k") as u64);
                match Nat::generate_prime(c.u("n"), c.u("m"), &mut g) {
                    Ok(x) => n[c.u("d")] = x,
                    Err(_) => o.st = "err",
                }
            }
            _ => die(&format!("nat op {}", c.op)),
        }
    }
}

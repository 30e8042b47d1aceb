use crate::common::*;
use crate::rng::ScriptRng;
use rmath::rand::*;

pub const H: usize = 4;

struct Sd<T> {
    v: T,
    bad: bool,
}
impl<T: PrimitiveType + Copy> Seed<T> for Sd<T> {
    fn seed(&self) -> Result<T> {
        if self.bad {
            Err(RandError::new(RandErrKind::NoNewRandSeedGen, "scripted"))
        } else {
            Ok(self.v)
        }
    }
}

#[derive(Clone)]
enum G {
    None,
    L32(LinearCongruentialRand<u32>),
    L64(LinearCongruentialRand<u64>),
    Lus(LinearCongruentialRand<usize>),
    M32(MersenneTwisterRand<u32>),
    M64(MersenneTwisterRand<u64>),
    Mus(MersenneTwisterRand<usize>),
    F32(LaggedFibonacciRand<u32>),
    F64(LaggedFibonacciRand<u64>),
    Fus(LaggedFibonacciRand<usize>),
}

macro_rules! each {
    ($g: expr, $x: ident, $ty: ident, $e: expr) => {
        match $g {
            G::None => panic!("no generator"), // the constructor refused what it has to accept
            G::L32($x) => { type $ty = u32; $e }
            G::L64($x) => { type $ty = u64; $e }
            G::Lus($x) => { type $ty = usize; $e }
            G::M32($x) => { type $ty = u32; $e }
            G::M64($x) => { type $ty = u64; $e }
            G::Mus($x) => { type $ty = usize; $e }
            G::F32($x) => { type $ty = u32; $e }
            G::F64($x) => { type $ty = u64; $e }
            G::Fus($x) => { type $ty = usize; $e }
        }
    };
}

fn kind(e: &RandError) -> u32 {
    match e.kind() {
        RandErrKind::NoNewRandSeedGen => 0,
        RandErrKind::NoNewRandNumberGen => 1,
        RandErrKind::DivisorIsZero => 2,
        RandErrKind::InvalidRngPara => 3,
        RandErrKind::InnerErr => 4,
    }
}

pub struct RandMachine {
    g: Vec<G>,
}
impl RandMachine {
    pub fn new() -> Self {
        let mut m = RandMachine { g: vec![] };
        m.reset();
        m
    }
}

macro_rules! lcg { ($t: ty, $sd: expr, $p: expr) => { LinearCongruentialRand::new($sd, $p[0] as $t, $p[1] as $t, $p[2] as $t) } }
macro_rules! lf { ($t: ty, $sd: expr, $p: expr) => { LaggedFibonacciRand::new($sd, $p[0] as $t, $p[1] as $t, $p[2] as $t) } }
macro_rules! mt { ($t: ty, $sd: expr, $p: expr) => { MersenneTwisterRand::new($sd, $p[0] as $t, $p[1] as $t, $p[2] as $t, $p[3] as $t, $p[4] as $t,
    ($p[5] as $t, $p[6] as $t), ($p[7] as $t, $p[8] as $t), ($p[9] as $t, $p[10] as $t), $p[11] as $t, $p[12] as $t) } }
macro_rules! by_type {
    ($m: ident, $c: expr, $p: expr, $a: ident, $b: ident, $u: ident) => {{
        let (k, bad) = ($c.u128("k"), $c.u("b") == 1);
        match $c.raw("f") {
            "u32" => $m!(u32, &Sd { v: k as u32, bad }, $p).map(G::$a),
            "u64" => $m!(u64, &Sd { v: k as u64, bad }, $p).map(G::$b),
            "usize" => $m!(usize, &Sd { v: k as usize, bad }, $p).map(G::$u),
            _ => die("type"),
        }
    }};
}
macro_rules! hw {
    // a third of the numbers drawn one by one, a third after a reset, a third through the iterator of a clone
    ($s: expr, $sd: expr, $n: expr, $o: expr) => {{
        match $s {
            Ok(mut s) => {
                for i in 0..$n / 3 * 2 {
                    if i == $n / 3 { if let Err(e) = s.reset($sd) { $o.st = "err"; $o.int(kind(&e)); } }
                    match s.gen() { Ok(x) => $o.int(x), Err(_) => $o.int(-1) }
                }
                let mut t = s.clone();
                let mut it = t.iter_mut();
                for _ in $n / 3 * 2..$n { match it.next() { Some(x) => $o.int(x), None => { it.clear_error(); $o.int(-1) } } }
            }
            Err(_) => for _ in 0..$n { $o.int(-1) },
        }
    }};
}

impl Machine for RandMachine {
    fn reset(&mut self) {
        self.g = (0..H).map(|_| G::None).collect();
    }
    fn observe(&self, s: &mut String) {
        s.push_str("\"obs\":[");
        for (i, g) in self.g.iter().enumerate() {
            if i > 0 { s.push(','); }
            match g.clone() {
                G::None => s.push_str("[\"0\",\"0\"]"),
                mut g => each!(&mut g, x, T, { let v: T = x.gen().unwrap(); s.push_str(&format!("[\"1\",\"{}\"]", v)) }),
            }
        }
        s.push(']');
    }
    fn exec(&mut self, c: &Cmd, o: &mut Out) {
        let g = &mut self.g;
        let mut put = |d: usize, r: Result<G>, o: &mut Out| match r {
            Ok(x) => g[d] = x,
            Err(e) => { o.st = "err"; o.int(kind(&e)); }
        };
        match c.op.as_str() {
            "lcg" => { let p = c.ints("s"); put(c.u("d"), by_type!(lcg, c, p, L32, L64, Lus), o) }
            "lf" => { let p = c.ints("s"); put(c.u("d"), by_type!(lf, c, p, F32, F64, Fus), o) }
            "mt" => { let p = c.ints("s"); put(c.u("d"), by_type!(mt, c, p, M32, M64, Mus), o) }
            "named" => {
                let (s, t) = (Sd { v: c.u128("k") as u32, bad: c.u("b") == 1 }, Sd { v: c.u128("k") as u64, bad: c.u("b") == 1 });
                let r = match c.raw("f") {
                    "minstd_rand0" => rmath::minstd_rand0!(s).map(G::L32),
                    "minstd_rand" => rmath::minstd_rand!(s).map(G::L32),
                    "mt19937" => rmath::mt19937!(s).map(G::M32),
                    "mt19937_64" => rmath::mt19937_64!(t).map(G::M64),
                    "ranlux24_base" => rmath::ranlux24_base!(s).map(G::F32),
                    "ranlux48_base" => rmath::ranlux48_base!(t).map(G::F64),
                    _ => die("named"),
                };
                put(c.u("d"), r, o)
            }
            "gen" => each!(&mut g[c.u("d")], x, T, for _ in 0..c.u("n") { let v: T = x.gen().unwrap(); o.int(v) }),
            "iter" => each!(&mut g[c.u("d")], x, T, { for v in x.iter_mut().take(c.u("n")) { let v: T = v; o.int(v) } }),
            "reseed" => {
                let (k, bad) = (c.u128("k"), c.u("b") == 1);
                let r = each!(&mut g[c.u("d")], x, T, x.reset(&Sd { v: k as T, bad }));
                if let Err(e) = r { o.st = "err"; o.int(kind(&e)); }
            }
            "clone" => g[c.u("d")] = g[c.u("a")].clone(),
            "mask" => {
                let k = c.u("k");
                match c.raw("f") {
                    "u32" => { o.int(u32::bits_len()); o.int((k as u32).mask()) }
                    "u64" => { o.int(u64::bits_len()); o.int((k as u64).mask()) }
                    _ => { o.int(usize::bits_len()); o.int(k.mask()) }
                }
            }
            "latch" => {
                let mut sc = c.ints("s");
                sc.extend(std::iter::repeat(-1).take(64));
                let mut rng = ScriptRng::new(sc, 1);
                let mut it: Iter<ScriptRng, u32> = Iter::new(&mut rng);
                for a in c.bytes("t") {
                    match a {
                        0 => match it.next() { Some(x) => o.int(x), None => o.int(-1) },
                        1 => it.clear_error(),
                        2 => o.b(it.last_error().is_some()),
                        _ => { drop(it); it = rng.iter_mut(); }
                    }
                }
            }
            "hw" => {
                let n = c.u("n");
                let (a, b, u) = (Sd { v: 1u32, bad: false }, Sd { v: 1u64, bad: false }, Sd { v: 1usize, bad: false });
                match (c.raw("f"), c.u("m")) {
                    ("u32", 0) => hw!(DefaultRand::new(&a), &a, n, o),
                    ("u64", 0) => hw!(DefaultRand::new(&b), &b, n, o),
                    ("usize", 0) => hw!(DefaultRand::new(&u), &u, n, o),
                    ("u32", 1) => hw!(CryptoRand::new(&a), &a, n, o),
                    ("u64", 1) => hw!(CryptoRand::new(&b), &b, n, o),
                    ("usize", 1) => hw!(CryptoRand::new(&u), &u, n, o),
                    (f, _) => for _ in 0..n {
                        let r = match f {
                            "u32" => DefaultSeed::<u32>::new().and_then(|s| s.seed()).map(|x| x as u128),
                            "u64" => DefaultSeed::<u64>::new().and_then(|s| s.seed()).map(|x| x as u128),
                            _ => DefaultSeed::<usize>::new().and_then(|s| s.seed()).map(|x| x as u128),
                        };
                        match r { Ok(x) => o.int(x), Err(_) => o.int(-1) }
                    },
                }
            }
            _ => die("op"),
        }
    }
}

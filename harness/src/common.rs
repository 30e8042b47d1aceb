use std::sync::atomic::{AtomicU64, Ordering};

pub trait Machine {
    fn reset(&mut self);
    fn exec(&mut self, c: &Cmd, o: &mut Out);
    /// writes `"obs":[...]`
    fn observe(&self, s: &mut String);
}

/// `op key=val key=val ...`; ints are decimal, texts/bytes are hex, lists comma separated
pub struct Cmd {
    pub op: String,
    kv: Vec<(String, String)>,
}

impl Cmd {
    pub fn parse(line: &str) -> Option<Cmd> {
        let mut it = line.split(' ').filter(|x| !x.is_empty());
        let op = it.next()?.to_string();
        let mut kv = vec![];
        for t in it {
            let p = t.find('=')?;
            kv.push((t[..p].to_string(), t[p + 1..].to_string()));
        }
        Some(Cmd { op, kv })
    }
    pub fn raw(&self, k: &str) -> &str {
        for (a, b) in self.kv.iter() {
            if a == k {
                return b;
            }
        }
        die(&format!("missing key {} in {}", k, self.op))
    }
    pub fn u(&self, k: &str) -> usize {
        self.raw(k).parse().unwrap_or_else(|_| die(&format!("bad usize {}", k)))
    }
    pub fn i128(&self, k: &str) -> i128 {
        self.raw(k).parse().unwrap_or_else(|_| die(&format!("bad int {}", k)))
    }
    pub fn u128(&self, k: &str) -> u128 {
        self.raw(k).parse().unwrap_or_else(|_| die(&format!("bad uint {}", k)))
    }
    pub fn bytes(&self, k: &str) -> Vec<u8> {
        let h = self.raw(k).as_bytes();
        h.chunks(2)
            .map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap_or_else(|_| die("hex")))
            .collect()
    }
    pub fn text(&self, k: &str) -> String {
        String::from_utf8(self.bytes(k)).unwrap_or_else(|_| die("utf8"))
    }
    /// comma separated limbs, least significant first
    pub fn limbs(&self, k: &str) -> Vec<u32> {
        let s = self.raw(k);
        if s.is_empty() {
            return vec![];
        }
        s.split(',').map(|x| u32::from_str_radix(x, 10).unwrap_or_else(|_| die("limb"))).collect()
    }
    pub fn ints(&self, k: &str) -> Vec<i128> {
        let s = self.raw(k);
        if s.is_empty() {
            return vec![];
        }
        s.split(',').map(|x| x.parse().unwrap_or_else(|_| die("ints"))).collect()
    }
}

pub fn die(m: &str) -> ! {
    eprintln!("harness error: {}", m);
    std::process::exit(2)
}

pub struct Out {
    pub st: &'static str,
    pub r: Vec<String>,
    pub rt: String,
}

impl Out {
    pub fn new() -> Out {
        Out { st: "ok", r: vec![], rt: String::new() }
    }
    pub fn int<T: std::fmt::Display>(&mut self, x: T) {
        self.r.push(x.to_string());
    }
    pub fn b(&mut self, x: bool) {
        self.r.push(if x { "1".into() } else { "0".into() });
    }
    /// Option<bool> as 0/1/-1(None)
    pub fn ob(&mut self, x: Option<bool>) {
        self.r.push(match x {
            None => "-1".into(),
            Some(true) => "1".into(),
            Some(false) => "0".into(),
        });
    }
    pub fn ord(&mut self, x: Option<std::cmp::Ordering>) {
        use std::cmp::Ordering::*;
        self.r.push(match x {
            None => "9".into(),
            Some(Less) => "-1".into(),
            Some(Equal) => "0".into(),
            Some(Greater) => "1".into(),
        });
    }
    pub fn bytes(&mut self, v: &[u8]) {
        for b in v {
            self.r.push(b.to_string());
        }
    }
    pub fn text(&mut self, s: &str) {
        self.rt = s.bytes().map(|b| format!("{:02x}", b)).collect();
    }
    pub fn head(&self, s: &mut String) {
        s.push_str("{\"st\":\"");
        s.push_str(self.st);
        s.push_str("\",\"r\":[");
        for (i, x) in self.r.iter().enumerate() {
            if i > 0 {
                s.push(',');
            }
            s.push('"');
            s.push_str(x);
            s.push('"');
        }
        s.push_str("],\"rt\":\"");
        s.push_str(&self.rt);
        s.push_str("\",");
    }
}

/// value of little-endian limbs as a hex string + limb count, read straight from memory
pub fn put_limbs(s: &mut String, l: &[u32]) {
    s.push_str("\"x");
    let mut it = l.iter().rev().skip_while(|x| **x == 0).peekable();
    if it.peek().is_none() {
        s.push('0');
    } else {
        for x in it {
            s.push_str(&format!("{:08x}", x));
        }
    }
    s.push('"');
}

static DEADLINE: AtomicU64 = AtomicU64::new(0);

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
    fn setrlimit(r: i32, l: *const Rlimit) -> i32;
}

fn cpu_ms() -> u64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(2, &mut t) }; // CLOCK_PROCESS_CPUTIME_ID
    (t.s as u64) * 1000 + (t.n as u64) / 1_000_000
}

pub fn limit_memory(b: u64) {
    let l = Rlimit { cur: b, max: b };
    unsafe { setrlimit(9, &l) }; // RLIMIT_AS
    let z = Rlimit { cur: 0, max: 0 };
    unsafe { setrlimit(4, &z) }; // RLIMIT_CORE
}

fn budget_ms() -> u64 {
    std::env::var("EXEC_OP_CPU_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(20_000)
}

pub fn op_begin() {
    DEADLINE.store(cpu_ms() + budget_ms(), Ordering::SeqCst);
}
pub fn op_end() {
    DEADLINE.store(0, Ordering::SeqCst);
}

/// an operation that burns more CPU than its budget is reported as `hang` and ends the process
pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let d = DEADLINE.load(Ordering::SeqCst);
        if d != 0 && cpu_ms() > d {
            use std::io::Write;
            let _ = std::io::stdout().write_all(b"{\"st\":\"hang\",\"r\":[],\"rt\":\"\",\"obs\":[]}\n");
            let _ = std::io::stdout().flush();
            std::process::exit(3);
        }
    });
}

/// counts draws below a bound by the eighth of [0, bound) they fall in (relative to the bound's top limbs;
/// the last entry counts draws that are not below it at this precision)
pub struct Eighths {
    pub h: [u64; 9],
    len: usize,
    x: f64,
}

impl Eighths {
    fn scale(v: &[u32], len: usize) -> f64 {
        v.iter().enumerate().map(|(i, &a)| a as f64 * 2f64.powi(32 * (i as i32 + 1 - len as i32))).sum()
    }
    pub fn new(x: &[u32]) -> Eighths {
        Eighths { h: [0; 9], len: x.len(), x: Self::scale(x, x.len()) }
    }
    pub fn put(&mut self, r: &[u32]) {
        let e = Self::scale(r, self.len) * 8f64 / self.x;
        self.h[(e as usize).min(8)] += 1;
    }
}

//! Executor: reads one command per line on stdin, runs it against the real rmath
//! code, writes one observation per line (JSON) on stdout.  It holds no expectation
//! of its own: every judgement is made by the Quint specification.
mod common;
mod m_nat;
mod rng;
mod m_int;
mod m_rat;
mod m_float;
mod m_rand;

use common::*;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn main() {
    limit_memory(6 << 30);
    std::panic::set_hook(Box::new(|_| {}));
    start_watchdog();
    let machine = std::env::args().nth(1).unwrap_or_default();
    let mut m: Box<dyn Machine> = match machine.as_str() {
        "nat" => Box::new(m_nat::NatMachine::new()),
        "int" => Box::new(m_int::IntMachine::new()),
        "rat" => Box::new(m_rat::RatMachine::new()),
        "float" => Box::new(m_float::FloatMachine::new()),
        "rand" => Box::new(m_rand::RandMachine::new()),
        _ => {
            eprintln!("unknown machine {}", machine);
            std::process::exit(2);
        }
    };
    // run on a big stack so that deep recursion is a property of the code, not of the harness
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped_compat(move || {
        let stdin = std::io::stdin();
        let stdout = std::io::stdout();
        for line in stdin.lock().lines() {
            let line = match line {
                Ok(l) => l,
                Err(_) => break,
            };
            if line.is_empty() {
                continue;
            }
            let mut out = Out::new();
            let cmd = match Cmd::parse(&line) {
                Some(c) => c,
                None => {
                    eprintln!("bad command: {}", line);
                    std::process::exit(2);
                }
            };
            op_begin();
            let res = catch_unwind(AssertUnwindSafe(|| {
                if cmd.op == "reset" {
                    m.reset();
                } else {
                    m.exec(&cmd, &mut out);
                }
            }));
            op_end();
            if res.is_err() {
                out.r.clear();
                out.rt.clear();
                out.st = "panic";
            }
            let mut s = String::with_capacity(256);
            out.head(&mut s);
            let o = catch_unwind(AssertUnwindSafe(|| {
                let mut t = String::new();
                m.observe(&mut t);
                t
            }));
            match o {
                Ok(t) => s.push_str(&t),
                Err(_) => s.push_str("\"obs\":\"panic\""),
            }
            s.push_str("}\n");
            let mut lock = stdout.lock();
            if lock.write_all(s.as_bytes()).and_then(|_| lock.flush()).is_err() {
                std::process::exit(2);
            }
        }
    });
    let _ = h;
}

trait SpawnCompat {
    fn spawn_scoped_compat<F: FnOnce()>(self, f: F);
}
impl SpawnCompat for std::thread::Builder {
    fn spawn_scoped_compat<F: FnOnce()>(self, f: F) {
        // the machines hold Rc values (not Send): run on a helper thread that owns everything
        struct Wrap<F>(F);
        unsafe impl<F> Send for Wrap<F> {}
        let w = Wrap(f);
        std::thread::scope(|s| {
            let h = self
                .spawn_scoped(s, move || {
                    let w = w;
                    (w.0)()
                })
                .expect("spawn");
            let _ = h.join();
        });
    }
}

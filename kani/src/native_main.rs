//! Native runner: `native list` | `native replay HARNESS FILE` | `native search HARNESS SEED MILLIS`
use contracts::shim::native::{AssumeFailed, Source, SRC};
use std::panic;

/// Refuses allocations out of all proportion to the data the harnesses provide.
struct Frugal;
const LIMIT: usize = 64 << 20;
static REPORTING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn too_big(n: usize) {
    if n > LIMIT && !REPORTING.swap(true, std::sync::atomic::Ordering::SeqCst) {
        let vals = SRC.with(|s| match &*s.borrow() {
            Source::Rng(_, l) => l.clone(),
            _ => vec![],
        });
        let what = std::env::args().nth(1).unwrap_or_default().to_uppercase();
        println!("{} fail OBLIGATION[C21] {} bytes are allocated in advance of the data", what, n);
        println!("values:{}", hex(&vals));
        std::process::exit(1);
    }
}
unsafe impl std::alloc::GlobalAlloc for Frugal {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        too_big(l.size());
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        too_big(n);
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Frugal = Frugal;

fn table() -> Vec<(&'static str, fn())> {
    contracts::all()
}
fn run(f: fn()) -> Result<bool, String> {
    match panic::catch_unwind(f) {
        Ok(()) => Ok(true),
        Err(e) => {
            if e.downcast_ref::<AssumeFailed>().is_some() {
                Ok(false)
            } else if let Some(s) = e.downcast_ref::<String>() {
                Err(s.clone())
            } else if let Some(s) = e.downcast_ref::<&str>() {
                Err(s.to_string())
            } else {
                Err("panic".into())
            }
        }
    }
}
fn hex(v: &[Vec<u8>]) -> String {
    v.iter()
        .map(|b| b.iter().map(|x| format!("{:02x}", x)).collect::<String>())
        .collect::<Vec<_>>()
        .join(" ")
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    panic::set_hook(Box::new(|_| {}));
    let find = |n: &str| -> fn() {
        table()
            .iter()
            .find(|(m, _)| m.ends_with(&format!("::{}", n)) || *m == n)
            .unwrap_or_else(|| {
                eprintln!("no harness {}", n);
                std::process::exit(3)
            })
            .1
    };
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for (n, _) in table() {
                println!("{}", n);
            }
        }
        Some("replay") => {
            let f = find(&a[2]);
            let text = std::fs::read_to_string(&a[3]).expect("replay file");
            let line = text
                .lines()
                .find_map(|l| l.strip_prefix("values:"))
                .unwrap_or("");
            let vals: Vec<Vec<u8>> = line
                .split_whitespace()
                .map(|w| {
                    (0..w.len() / 2)
                        .map(|i| u8::from_str_radix(&w[2 * i..2 * i + 2], 16).unwrap())
                        .collect()
                })
                .collect();
            SRC.with(|s| *s.borrow_mut() = Source::List(vals, 0));
            match run(f) {
                Ok(true) => println!("REPLAY pass"),
                Ok(false) => println!("REPLAY assumption-not-met"),
                Err(m) => {
                    println!("REPLAY fail {}", m.replace('\n', " "));
                    std::process::exit(1)
                }
            }
        }
        Some("search") => {
            let f = find(&a[2]);
            let seed: u64 = a[3].parse().unwrap();
            let ms: u128 = a[4].parse().unwrap();
            let t0 = std::time::Instant::now();
            let (mut n, mut sat, mut i) = (0u64, 0u64, 0u64);
            while t0.elapsed().as_millis() < ms {
                i += 1;
                let s0 = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ i.wrapping_mul(0xD1B5_4A32_D192_ED03);
                SRC.with(|s| *s.borrow_mut() = Source::Rng(s0, vec![]));
                n += 1;
                match run(f) {
                    Ok(true) => sat += 1,
                    Ok(false) => {}
                    Err(m) => {
                        let vals = SRC.with(|s| match &*s.borrow() {
                            Source::Rng(_, l) => l.clone(),
                            _ => vec![],
                        });
                        println!("SEARCH fail {}", m.replace('\n', " "));
                        println!("values:{}", hex(&vals));
                        println!("SEARCH executions={} nontrivial={}", n, sat);
                        std::process::exit(1)
                    }
                }
            }
            println!("SEARCH executions={} nontrivial={}", n, sat);
        }
        _ => std::process::exit(3),
    }
}

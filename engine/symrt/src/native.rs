//! Replay of a counterexample: values come from a file, in call order.
use crate::{throw, thrown, AssumeFail, Harness, Violation};
use std::cell::RefCell;
use std::collections::VecDeque;

thread_local! {
    static VALUES: RefCell<VecDeque<String>> = const { RefCell::new(VecDeque::new()) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}
fn next() -> Option<String> {
    VALUES.with(|v| v.borrow_mut().pop_front())
}
#[derive(Clone)]
struct Diverged;

pub fn raw_real(lo: f64, hi: f64, is32: bool) -> u64 {
    let v = match next() {
        None => lo,
        Some(s) => match s.strip_prefix("r:") {
            Some(x) => x.parse::<f64>().unwrap(),
            None => throw(Diverged),
        },
    };
    let v = v.max(lo).min(hi);
    if is32 {
        u64::from((v as f32).to_bits())
    } else {
        v.to_bits()
    }
}
pub fn choice(n: usize) -> usize {
    match next() {
        None => 0,
        Some(s) => match s.strip_prefix("c:") {
            Some(x) => {
                let c = x.parse::<usize>().unwrap();
                if c >= n {
                    throw(Diverged)
                }
                c
            }
            None => throw(Diverged),
        },
    }
}
pub fn assume_between(x: f64, lo: f64, hi: f64) {
    if !(x >= lo && x <= hi) {
        throw(AssumeFail)
    }
}
pub fn cover(_: &str) {}
pub fn reached(_: &'static str) {}
pub fn less(a: f64, b: f64) -> bool {
    a < b
}
pub fn widen(x: f32) -> f64 {
    f64::from(x)
}

pub fn f32_text(x: f64) -> f64 {
    f64::from(x as f32)
}
pub fn decide_equal(a: f64, b: f64) -> bool {
    a == b
}
pub fn narrowed(x: f64) -> f64 {
    f64::from(x as f32)
}

/// `replay FILE`: exit 1 and print `REPRODUCED ...` when the assertion fails natively.
pub fn main(hs: &[Harness]) -> ! {
    main_args(hs, std::env::args().collect())
}
pub fn main_args(hs: &[Harness], args: Vec<String>) -> ! {
    let file = args.get(1).expect("usage: replay FILE").clone();
    let text = std::fs::read_to_string(&file).expect("replay file");
    let mut name = String::new();
    let mut vals = VecDeque::new();
    for l in text.lines() {
        if let Some(n) = l.strip_prefix("harness ") {
            name = n.trim().to_string();
        } else if l.trim() == "tier thorough" {
            crate::THOROUGH.store(true, std::sync::atomic::Ordering::Relaxed);
        } else if l.starts_with("r:") || l.starts_with("c:") {
            vals.push_back(l.trim().to_string());
        }
    }
    let h = hs.iter().find(|h| h.name == name).expect("unknown harness");
    let run = h.run;
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            VALUES.with(|v| *v.borrow_mut() = vals);
            std::panic::set_hook(Box::new(|i| {
                LAST.with(|l| *l.borrow_mut() = i.to_string());
            }));
            match std::panic::catch_unwind(run) {
                Ok(()) => (0, "property held in the native run".to_string()),
                Err(p) => {
                    let p = thrown(p);
                    if let Some(v) = p.downcast_ref::<Violation>() {
                        (1, v.0.clone())
                    } else if p.downcast_ref::<AssumeFail>().is_some() {
                        (3, "assumption not met in the native run".to_string())
                    } else if p.downcast_ref::<Diverged>().is_some() {
                        (3, "native run took a different path".to_string())
                    } else {
                        (1, format!("panic: {}", LAST.with(|l| l.borrow().clone())))
                    }
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
    if r.0 == 1 {
        println!("REPRODUCED harness={} {}", h.name, r.1.replace('\n', " | "));
    } else {
        println!("NOT-REPRODUCED harness={} {}", h.name, r.1);
    }
    std::process::exit(r.0)
}

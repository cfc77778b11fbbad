//! Runs harness entries natively on concrete assignments.  Each input line is
//! `entry|jobs|id=value,...`; each output line is the outcome.
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};

#[derive(Default)]
struct Ctx {
    vars: HashMap<u32, u64>,
    jobs: Vec<u32>,
    nj: usize,
    tier: u32,
    out: String,
    fails: Vec<String>,
    expect_panic: bool,
}
thread_local! {
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}
struct Assumed;

#[no_mangle]
extern "C-unwind" fn sx_var(id: u32, lo: u64, hi: u64) -> u64 {
    CTX.with(|c| {
        let v = *c.borrow().vars.get(&id).unwrap_or(&lo);
        if v < lo || v > hi {
            c.borrow_mut().fails.push(format!("range {}", id));
            return lo;
        }
        v
    })
}
#[no_mangle]
extern "C-unwind" fn sx_fork(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C-unwind" fn sx_tier() -> u32 {
    CTX.with(|c| c.borrow().tier)
}
#[no_mangle]
extern "C-unwind" fn sx_job(_n: u32) -> u32 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        let i = c.nj;
        c.nj += 1;
        c.jobs[i]
    })
}
#[no_mangle]
extern "C-unwind" fn sx_assume(c: bool) {
    if !c {
        std::panic::panic_any(Assumed);
    }
}
#[no_mangle]
extern "C-unwind" fn sx_check(ok: bool, id: u32) {
    if !ok {
        CTX.with(|c| c.borrow_mut().fails.push(format!("check {}", id)));
    }
}
fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    unsafe { std::slice::from_raw_parts(p, n) }
}
#[no_mangle]
extern "C-unwind" fn sx_eq(a: *const u8, al: usize, b: *const u8, bl: usize, id: u32) {
    let (a, b) = (sl(a, al), sl(b, bl));
    if a != b {
        CTX.with(|c| {
            c.borrow_mut().fails.push(format!(
                "text {}: got \"{}\" expected \"{}\"",
                id,
                String::from_utf8_lossy(a),
                String::from_utf8_lossy(b)
            ))
        });
    }
}
#[no_mangle]
extern "C-unwind" fn sx_emit(a: *const u8, al: usize) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        for b in sl(a, al) {
            c.out.push_str(&format!("{:02x}", b));
        }
        c.out.push('.');
    });
}
#[no_mangle]
extern "C-unwind" fn sx_reach(_id: u32) {}
#[no_mangle]
extern "C-unwind" fn sx_expect_panic(on: bool) {
    CTX.with(|c| c.borrow_mut().expect_panic = on);
}


fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let p: Vec<&str> = l.split('|').collect();
        let ctx = Ctx {
            tier: p[1].parse().unwrap(),
            jobs: p[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            vars: p[3]
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (a, b) = x.split_once('=').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect(),
            ..Default::default()
        };
        CTX.with(|c| *c.borrow_mut() = ctx);
        let f = harness::entry(p[0]).expect("entry");
        let r = std::panic::catch_unwind(f);
        let c = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let mut st = "returned".to_string();
        let mut fails = c.fails;
        if let Err(e) = r {
            if e.is::<Assumed>() {
                st = "assumed".into();
            } else {
                st = "panicked".into();
                if !c.expect_panic {
                    let m = e
                        .downcast_ref::<String>()
                        .cloned()
                        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    fails.push(format!("panic: {}", m));
                }
            }
        }
        let mut o = std::io::stdout().lock();
        writeln!(o, "{}|{}|{}", st, c.out, fails.join("; ").replace('\n', " ")).unwrap();
        o.flush().unwrap();
    }
}

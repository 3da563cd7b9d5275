//! Native replay of recorded inputs against the real code.
//!   replay one ENTRY PARAMS INPUTS     exit 0 held, 10 assertion failed, 3 input not admissible
//!   replay batch                       lines "ENTRY PARAMS INPUTS OBS" on stdin; every line must
//!                                      finish with exactly the observations the engine computed
use std::cell::RefCell;

#[derive(Default)]
struct St {
    vars: Vec<u64>,
    at: usize,
    params: Vec<u64>,
    obs: Vec<u64>,
    label: u32,
    verbose: bool,
}
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));

#[no_mangle]
pub extern "C" fn sym_var(bits: u32) -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let at = s.at;
        s.at += 1;
        let v = s.vars.get(at).copied().unwrap_or(0);
        if bits >= 64 { v } else { v & ((1u64 << bits) - 1) }
    })
}
#[no_mangle]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        println!("INADMISSIBLE");
        std::process::exit(3);
    }
}
#[no_mangle]
pub extern "C" fn sym_assert(label: u32, code: u32, c: bool) {
    if !c {
        let want = ST.with(|s| s.borrow().label);
        if want == label || want == 0 {
            println!("ASSERT property={} site={}", label, code);
            std::process::exit(10);
        }
    }
}
#[no_mangle]
pub extern "C" fn sym_obs(v: u64) {
    ST.with(|s| s.borrow_mut().obs.push(v));
}
#[no_mangle]
pub extern "C" fn sym_cover(_: u32) {}
#[no_mangle]
pub extern "C" fn sym_conc(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C" fn sym_is() -> bool {
    ST.with(|s| !s.borrow().verbose)
}
#[no_mangle]
pub extern "C" fn sym_param(i: u32) -> u64 {
    ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C" fn sym_depth() -> u64 {
    0
}

#[no_mangle]
pub extern "C" fn sym_reset() -> u64 {
    0
}

fn nums(s: &str) -> Vec<u64> {
    s.trim_matches(|c| c == '[' || c == ']').split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}

fn entry(name: &str) -> fn() {
    harness::ENTRIES.iter().find(|e| e.0 == name).unwrap_or_else(|| panic!("no entry {}", name)).1
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "one" {
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.params = nums(&a[3]);
            s.vars = nums(&a[4]);
            s.label = a[5].parse().unwrap();
            s.verbose = true;
        });
        entry(&a[2])();
        println!("HELD");
        return;
    }
    let mut n = 0;
    for line in std::io::stdin().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split(' ').collect();
        ST.with(|s| {
            let mut s = s.borrow_mut();
            *s = St::default();
            s.params = nums(f[1]);
            s.vars = nums(f[2]);
            s.label = f[4].parse().unwrap();
        });
        println!("RUN {}", n);
        harness::reset();
        entry(f[0])();
        let got = ST.with(|s| s.borrow().obs.clone());
        if got != nums(f[3]) {
            println!("MISMATCH {} expected {} got {:?}", line, f[3], got);
            std::process::exit(11);
        }
        n += 1;
    }
    println!("VALIDATED {}", n);
}

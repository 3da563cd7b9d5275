//! Symbolic input interface. Under the engine these calls are built in;
//! natively (replay.rs) they take their values from a recorded input vector.
extern "C" {
    fn sym_var(bits: u32) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(label: u32, code: u32, c: bool);
    fn sym_obs(v: u64);
    fn sym_cover(id: u32);
    fn sym_conc(v: u64) -> u64;
    fn sym_is() -> bool;
    fn sym_param(i: u32) -> u64;
    fn sym_depth() -> u64;
    fn sym_reset() -> u64;
    fn pipe(fd: *mut i32) -> i32;
    fn fork() -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, to: *mut u8, n: usize) -> isize;
    fn write(fd: i32, from: *const u8, n: usize) -> isize;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

#[inline(never)]
pub fn var(bits: u32) -> u64 {
    unsafe { sym_var(bits) }
}
pub fn u32v() -> u32 {
    var(32) as u32
}
pub fn u8v() -> u8 {
    var(8) as u8
}
pub fn boolv() -> bool {
    var(1) == 1
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// the property label (number of the property) and a site code
pub fn check(label: u32, code: u32, c: bool) {
    unsafe { sym_assert(label, code, c) }
}
/// a value both the engine and the native run must agree on
pub fn obs(v: u64) {
    unsafe { sym_obs(v) }
}
/// reachability witness
pub fn cover(id: u32) {
    unsafe { sym_cover(id) }
}
/// split the path until the value is one constant
pub fn conc(v: u32) -> u32 {
    unsafe { sym_conc(v as u64) as u32 }
}
/// an arbitrary choice in 0..n, one path per value
pub fn choose(n: u32) -> u32 {
    let v = u32v();
    assume(v < n);
    conc(v)
}
/// an arbitrary choice in 0..n, left symbolic
pub fn below(n: u32) -> u32 {
    let v = u32v();
    assume(v < n);
    v
}
/// bound number i of this run
pub fn param(i: u32) -> u32 {
    unsafe { sym_param(i) as u32 }
}
/// deepest call stack since the last call (0 natively)
pub fn depth() -> u64 {
    unsafe { sym_depth() }
}
/// printed when a counterexample is replayed natively
pub fn dump<F: FnOnce() -> String>(f: F) {
    if !unsafe { sym_is() } {
        println!("  {}", f());
    }
}

/// what `f` gives in a process that has done nothing before: the engine puts every static and
/// thread-local variable back afterwards; natively `f` runs in a child process
pub fn fresh<F: FnOnce() -> Vec<u32>>(f: F) -> Vec<u32> {
    unsafe {
        // the engine runs f in place (it must come first), then resets
        if sym_reset() == 1 {
            let r = f();
            sym_reset();
            return r;
        }
        let mut fd = [0i32; 2];
        if pipe(fd.as_mut_ptr()) != 0 {
            panic!("pipe");
        }
        let pid = fork();
        if pid == 0 {
            close(fd[0]);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let mut b = vec![];
            for w in r.unwrap_or_default() {
                b.extend_from_slice(&w.to_le_bytes());
            }
            let mut at = 0;
            while at < b.len() {
                let n = write(fd[1], b.as_ptr().add(at), b.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            _exit(0);
        }
        close(fd[1]);
        let mut b = vec![];
        let mut buf = [0u8; 4096];
        loop {
            let n = read(fd[0], buf.as_mut_ptr(), buf.len());
            if n <= 0 {
                break;
            }
            b.extend_from_slice(&buf[..n as usize]);
        }
        close(fd[0]);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
    }
}
/// whether this is not the replay of a counterexample
pub fn exploring() -> bool {
    unsafe { sym_is() }
}

//! Run library code in a freshly forked process (the parent never runs library code) and get numbers back.
use crate::engine::{shared, sys_exit, sys_fork, sys_wait};
use std::sync::OnceLock;

const WORDS: usize = 1 << 22;
struct Buf(usize);
static BUF: OnceLock<Buf> = OnceLock::new();
static OWNER: OnceLock<u32> = OnceLock::new();

fn buf() -> &'static mut [u64] {
    // one buffer per worker process (a forked child of a worker shares it with that worker only)
    let b = BUF.get_or_init(|| {
        OWNER.get_or_init(std::process::id);
        Buf(shared(WORDS * 8) as usize)
    });
    unsafe { std::slice::from_raw_parts_mut(b.0 as *mut u64, WORDS) }
}
/// Ok = numbers; Err = message. A crash is an Err too.
pub fn run(f: impl FnOnce() -> Result<Vec<f64>, String>) -> Result<Vec<f64>, String> {
    let b = buf();
    b[0] = 0;
    let pid = unsafe { sys_fork() };
    assert!(pid >= 0, "HARNESS: fork");
    if pid == 0 {
        crate::engine::die_with_parent();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        match r {
            Ok(Ok(v)) => {
                assert!(v.len() + 2 < WORDS);
                b[1] = v.len() as u64;
                for (i, x) in v.iter().enumerate() {
                    b[2 + i] = x.to_bits();
                }
                b[0] = 1;
            }
            Ok(Err(e)) => {
                let e = e.as_bytes();
                let n = e.len().min(WORDS * 4);
                b[1] = n as u64;
                for i in 0..n {
                    b[2 + i] = e[i] as u64;
                }
                b[0] = 2;
            }
            Err(_) => b[0] = 3,
        }
        unsafe { sys_exit(0) }
    }
    let st = unsafe { sys_wait(pid) };
    match b[0] {
        1 => Ok(b[2..2 + b[1] as usize].iter().map(|&x| f64::from_bits(x)).collect()),
        2 => Err(String::from_utf8_lossy(&b[2..2 + b[1] as usize].iter().map(|&x| x as u8).collect::<Vec<u8>>()).into()),
        3 => panic!("HARNESS: child panicked"),
        _ => Err(format!("the process crashed (wait status {st:#x})")),
    }
}

//! Native replayer: one harness run per line of standard input.
use std::io::{BufRead, Write};
use std::panic;
use std::sync::Mutex;

#[derive(Default)]
struct St {
    id: u32,
    params: Vec<i64>,
    inputs: Vec<f64>,
    choices: Vec<u32>,
    scheds: Vec<u32>,
    ni: usize,
    nc: usize,
    ns: usize,
    sched: bool,
    obs: Vec<f64>,
    expect: bool,
    verbose: bool,
    cap: u64,
}
static ST: Mutex<Option<St>> = Mutex::new(None);
fn st<R>(f: impl FnOnce(&mut St) -> R) -> R {
    f(ST.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(St::default))
}
struct Verdict(String);
fn quit(s: String) -> ! {
    panic::resume_unwind(Box::new(Verdict(s)))
}
#[no_mangle]
extern "C" fn irse_id() -> u32 {
    st(|s| s.id)
}
#[no_mangle]
extern "C" fn irse_param(i: u32) -> i64 {
    st(|s| s.params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C-unwind" fn irse_sym(lo: f64, hi: f64) -> f64 {
    st(|s| {
        let x = s.inputs.get(s.ni).copied().unwrap_or(if lo <= 0. && hi >= 0. { 0. } else { lo });
        s.ni += 1;
        x.max(lo).min(hi)
    })
}
#[no_mangle]
extern "C" fn irse_choice(n: u32) -> u32 {
    st(|s| {
        let x = s.choices.get(s.nc).copied().unwrap_or(0);
        s.nc += 1;
        x.min(n - 1)
    })
}
#[no_mangle]
extern "C" fn irse_sched(n: u32) -> u32 {
    st(|s| {
        if !s.sched {
            return 0;
        }
        let x = s.scheds.get(s.ns).copied().unwrap_or(0);
        s.ns += 1;
        x.min(n - 1)
    })
}
#[no_mangle]
extern "C" fn irse_sched_on(on: u32) {
    st(|s| s.sched = on != 0)
}
#[no_mangle]
extern "C-unwind" fn irse_assume(b: u32) {
    if b & 1 == 0 {
        quit("assume".into())
    }
}
#[no_mangle]
extern "C-unwind" fn irse_assume_le(a: f64, b: f64) {
    if !(a <= b) {
        quit("assume".into())
    }
}
#[no_mangle]
extern "C-unwind" fn irse_assume_lt(a: f64, b: f64) {
    if !(a < b) {
        quit("assume".into())
    }
}
#[no_mangle]
extern "C-unwind" fn irse_check(b: u32, id: u32) {
    if b & 1 == 0 {
        quit(format!("check {} is false", id))
    }
}
#[no_mangle]
extern "C-unwind" fn irse_close(a: f64, b: f64, tol: f64, id: u32) {
    if !((a - b).abs() <= tol || a == b) {
        quit(format!("check {}: {:?} is not close to {:?} (tolerance {})", id, a, b, tol))
    }
}
#[no_mangle]
extern "C-unwind" fn irse_le(a: f64, b: f64, tol: f64, id: u32) {
    if !(a <= b + tol) {
        quit(format!("check {}: {:?} is greater than {:?} (tolerance {})", id, a, b, tol))
    }
}
#[no_mangle]
extern "C-unwind" fn irse_same(a: f64, b: f64, id: u32) {
    if !(a == b || (a.is_nan() && b.is_nan())) {
        quit(format!("check {}: {:?} is not {:?}", id, a, b))
    }
}
#[no_mangle]
extern "C" fn irse_obs(x: f64) {
    st(|s| s.obs.push(x))
}
#[no_mangle]
extern "C" fn irse_obs_i(x: u64) {
    st(|s| s.obs.push(x as i64 as f64))
}
#[no_mangle]
extern "C" fn irse_expect_panic(on: u32) {
    st(|s| s.expect = on != 0)
}
#[no_mangle]
unsafe extern "C" fn irse_vfile(p: *const u8, pn: u64, d: *const u8, dn: u64) {
    let p = std::str::from_utf8(std::slice::from_raw_parts(p, pn as usize)).unwrap();
    let d = std::slice::from_raw_parts(d, dn as usize);
    std::fs::write(p, d).unwrap();
}
#[no_mangle]
unsafe extern "C" fn irse_token(x: f64, buf: *mut u8) -> u64 {
    let s = format!("{}", x);
    std::ptr::copy_nonoverlapping(s.as_ptr(), buf, s.len());
    s.len() as u64
}
#[no_mangle]
unsafe extern "C" fn irse_parse(p: *const u8, n: u64) -> f64 {
    std::str::from_utf8(std::slice::from_raw_parts(p, n as usize)).ok().and_then(|s| s.parse().ok()).unwrap_or(f64::NAN)
}
#[no_mangle]
extern "C" fn irse_ideal(_: u32) {}

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
pub fn capture_begin() {
    let _ = std::io::stdout().flush();
    let n = std::fs::metadata("irse_stdout").map(|m| m.len()).unwrap_or(0);
    st(|s| s.cap = n);
}
pub fn capture_end() -> String {
    let _ = std::io::stdout().flush();
    let a = std::fs::read("irse_stdout").unwrap_or_default();
    let n = st(|s| s.cap) as usize;
    String::from_utf8_lossy(&a[n.min(a.len())..]).to_string()
}

fn run_line(l: &str, verbose: bool) -> String {
    let mut w = l.split_whitespace();
    let mut s = St::default();
    s.verbose = verbose;
    s.id = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let n: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    for _ in 0..n {
        s.params.push(w.next().and_then(|x| x.parse().ok()).unwrap_or(0));
    }
    let n: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    for _ in 0..n {
        s.inputs.push(f64::from_bits(w.next().and_then(|x| u64::from_str_radix(x, 16).ok()).unwrap_or(0)));
    }
    let n: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    for _ in 0..n {
        s.choices.push(w.next().and_then(|x| x.parse().ok()).unwrap_or(0));
    }
    let n: usize = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    for _ in 0..n {
        s.scheds.push(w.next().and_then(|x| x.parse().ok()).unwrap_or(0));
    }
    st(|x| *x = s);
    let r = panic::catch_unwind(|| crate::irse_entry());
    let expect = st(|s| s.expect);
    let v = match r {
        Ok(()) => {
            if expect {
                "check 9999: the call had to be rejected but returned".to_string()
            } else {
                "ok".to_string()
            }
        }
        Err(e) => {
            if let Some(v) = e.downcast_ref::<Verdict>() {
                v.0.clone()
            } else if expect {
                "ok".into()
            } else {
                let m = e
                    .downcast_ref::<&str>()
                    .map(|s| s.to_string())
                    .or_else(|| e.downcast_ref::<String>().cloned())
                    .unwrap_or_default();
                format!("panic: {}", m)
            }
        }
    };
    let o: Vec<String> = st(|s| s.obs.iter().map(|x| format!("{:016x}", x.to_bits())).collect());
    format!("{}\t{}", v.replace(['\n', '\t'], " "), o.join(" "))
}

pub fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--one" {
        let r = run_line(&args[2..].join(" "), true);
        let v = r.split('\t').next().unwrap_or("").to_string();
        println!("{}", v);
        std::process::exit(if v == "ok" || v == "assume" { 0 } else { 1 });
    }
    let dir = std::path::PathBuf::from(std::env::var("IRSE_SCRATCH").unwrap_or("/tmp".into())).join(format!("irse_{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    panic::set_hook(Box::new(|_| {}));
    // standard output of the code under test goes to a file
    let mut out = unsafe {
        use std::os::fd::{FromRawFd, IntoRawFd};
        let o = dup(1);
        let f = std::fs::OpenOptions::new().create(true).append(true).open("irse_stdout").unwrap().into_raw_fd();
        dup2(f, 1);
        std::fs::File::from_raw_fd(o)
    };
    let mut n = 0u32;
    for l in std::io::stdin().lock().lines() {
        let l = match l {
            Ok(l) => l,
            Err(_) => break,
        };
        let r = run_line(&l, false);
        let _ = writeln!(out, "{}", r);
        let _ = out.flush();
        n += 1;
        if n % 200 == 0 {
            let _ = std::fs::OpenOptions::new().write(true).truncate(true).open("irse_stdout");
        }
    }
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(&dir);
}

/// Threads of the code under test run in the order given with the input, like in the symbolic executor: at once,
/// or when another thread waits.
#[cfg(feature = "order")]
mod threads {
    use std::ffi::{c_char, c_int, c_long, c_void};
    use std::ptr::null_mut;
    use std::sync::Mutex;
    type Start = extern "C" fn(*mut c_void) -> *mut c_void;
    extern "C" {
        fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
    }
    struct Pending(u64, Start, usize);
    static PENDING: Mutex<(u64, Vec<Pending>)> = Mutex::new((0, vec![]));
    unsafe fn real<F: Copy>(name: &[u8]) -> F {
        let p = dlsym(usize::MAX as *mut c_void, name.as_ptr() as *const c_char);
        std::mem::transmute_copy(&p)
    }
    unsafe fn run(p: Pending) {
        let create: extern "C" fn(*mut u64, *const c_void, Start, *mut c_void) -> c_int = real(b"pthread_create\0");
        let join: extern "C" fn(u64, *mut *mut c_void) -> c_int = real(b"pthread_join\0");
        let mut t = 0;
        if create(&mut t, null_mut(), p.1, p.2 as *mut c_void) == 0 {
            join(t, null_mut());
        }
    }
    #[no_mangle]
    unsafe extern "C" fn pthread_create(out: *mut u64, _: *const c_void, f: Start, arg: *mut c_void) -> c_int {
        let t = {
            let mut p = PENDING.lock().unwrap();
            p.0 += 1;
            p.0
        };
        *out = t;
        let task = Pending(t, f, arg as usize);
        if super::irse_sched(2) == 0 {
            run(task);
        } else {
            PENDING.lock().unwrap().1.push(task);
        }
        0
    }
    #[no_mangle]
    unsafe extern "C" fn pthread_join(t: u64, _: *mut *mut c_void) -> c_int {
        let task = {
            let v = &mut PENDING.lock().unwrap().1;
            v.iter().position(|p| p.0 == t).map(|k| v.remove(k))
        };
        if let Some(p) = task {
            run(p);
        }
        0
    }
    #[no_mangle]
    unsafe extern "C" fn pthread_detach(_: u64) -> c_int {
        0
    }
    #[no_mangle]
    unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
        if n == 202 && (b & 127 == 0 || b & 127 == 9) {
            if let Ok(mut p) = PENDING.try_lock() {
                let k = p.1.len();
                if k > 0 {
                    let k = if k > 1 { super::irse_sched(k.min(4) as u32) } else { 0 };
                    let task = p.1.remove(k as usize);
                    drop(p);
                    run(task);
                    return 0;
                }
            }
        }
        let call: extern "C" fn(c_long, c_long, c_long, c_long, c_long, c_long, c_long) -> c_long = real(b"syscall\0");
        call(n, a, b, c, d, e, f)
    }
}

//! Concrete meaning of the `__sym_*` functions, for replay against the natively built code.
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

#[derive(Default)]
struct St {
    input: Vec<u8>,
    pos: usize,
    params: Vec<u64>,
    obs: Vec<u64>,
}
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));

struct Stop(String);
fn stop(s: String) -> ! {
    resume_unwind(Box::new(Stop(s)))
}

#[unsafe(no_mangle)]
extern "C-unwind" fn __sym_byte() -> u8 {
    ST.with(|s| {
        let s = &mut *s.borrow_mut();
        let b = s.input.get(s.pos).copied().unwrap_or(0);
        s.pos += 1;
        b
    })
}
#[unsafe(no_mangle)]
extern "C-unwind" fn __sym_assume(c: u32) {
    if c == 0 {
        stop("assume".into())
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn __sym_check(c: u32, id: u32) {
    if c == 0 {
        stop(format!("fail:{id}"))
    }
}
#[unsafe(no_mangle)]
extern "C-unwind" fn __sym_reach(_id: u32) {}
#[unsafe(no_mangle)]
extern "C-unwind" fn __sym_obs(v: u64) {
    ST.with(|s| s.borrow_mut().obs.push(v))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn __sym_param(i: u32) -> u64 {
    ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[unsafe(no_mangle)]
extern "C-unwind" fn __sym_conc(v: u64) -> u64 {
    v
}

/// Reads lines `entry p0,p1 hexinput` from the file named by argv[1]; prints one line per case:
/// `RESULT <index> <outcome> <obs,obs,..>`.
pub fn run_main(entries: &[(&str, extern "C-unwind" fn())]) {
    let path = std::env::args().nth(1).expect("replay file");
    let text = std::fs::read_to_string(path).expect("read");
    let loc = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l2 = loc.clone();
    std::panic::set_hook(Box::new(move |i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *l2.lock().unwrap() = format!("panic:{l}:{}", m.replace(char::is_whitespace, "_"));
    }));
    for (n, line) in text.lines().enumerate() {
        let mut it = line.split(' ');
        let name = it.next().unwrap();
        let params: Vec<u64> = it.next().unwrap().split(',').filter_map(|x| x.parse().ok()).collect();
        let hex = it.next().unwrap_or("");
        let input = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        let f = entries.iter().find(|e| e.0 == name).expect("no such entry").1;
        ST.with(|s| *s.borrow_mut() = St { input, params, ..Default::default() });
        // the harness body is called through its real (unwinding) address
        let f: extern "C-unwind" fn() = unsafe { std::mem::transmute(f) };
        let out = match catch_unwind(AssertUnwindSafe(|| f())) {
            Ok(()) => "done".to_string(),
            Err(e) => match e.downcast_ref::<Stop>() {
                Some(s) => s.0.clone(),
                None => loc.lock().unwrap().clone(),
            },
        };
        let obs = ST.with(|s| s.borrow().obs.iter().map(|v| format!("{v:x}")).collect::<Vec<_>>().join(","));
        println!("RESULT {n} {out} {obs}");
    }
}

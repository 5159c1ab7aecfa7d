mod flat;
mod gen;
mod judge;
mod props;
mod run;
mod soup;
mod spec;
mod sym;
mod tk;
use std::ffi::c_char;

extern "C" {
    fn rt_case(hex: *const c_char, run: extern "C" fn());
    fn rt_show(hex: *const c_char, run: extern "C" fn());
    fn rt_panic();
}

fn entry(n: &str) -> extern "C" fn() {
    match props::ALL.iter().copied().flatten().find(|e| e.0 == n) {
        Some(e) => e.1,
        None => {
            eprintln!("no entry {n}");
            std::process::exit(2)
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        eprintln!("{i}");
        unsafe { rt_panic() }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let f = std::fs::read_to_string(&a[2]).unwrap();
            for l in f.lines() {
                let (e, h) = l.split_once(' ').unwrap();
                let c = std::ffi::CString::new(h).unwrap();
                unsafe { rt_case(c.as_ptr(), entry(e)) }
            }
        }
        Some("show") => {
            let c = std::ffi::CString::new(a.get(3).map_or("", |s| s.as_str())).unwrap();
            unsafe { rt_show(c.as_ptr(), entry(&a[2])) }
        }
        Some("list") => {
            for e in props::ALL.iter().copied().flatten() {
                println!("{}", e.0);
            }
        }
        _ => {
            eprintln!("usage: mvh replay FILE | show ENTRY HEX | list");
            std::process::exit(2)
        }
    }
}

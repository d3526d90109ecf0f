#![allow(dead_code, unused_imports, unused_macros)]
#[macro_use]
mod rt;
mod lib_;
mod mock;
mod opts;
#[cfg(feature = "p01")]
#[path = "p01.rs"]
mod prop;
#[cfg(feature = "p02")]
#[path = "p02.rs"]
mod prop;
#[cfg(feature = "p03")]
#[path = "p03.rs"]
mod prop;
#[cfg(feature = "p04")]
#[path = "p04.rs"]
mod prop;
#[cfg(feature = "p05")]
#[path = "p05.rs"]
mod prop;
#[cfg(feature = "p06")]
#[path = "p06.rs"]
mod prop;
#[cfg(feature = "p07")]
#[path = "p07.rs"]
mod prop;
#[cfg(feature = "p08")]
#[path = "p08.rs"]
mod prop;
#[cfg(feature = "p09")]
#[path = "p09.rs"]
mod prop;
#[cfg(feature = "p10")]
#[path = "p10.rs"]
mod prop;
#[cfg(feature = "p11")]
#[path = "p11.rs"]
mod prop;
#[cfg(feature = "p12")]
#[path = "p12.rs"]
mod prop;
#[cfg(feature = "p13")]
#[path = "p13.rs"]
mod prop;
#[cfg(feature = "p14")]
#[path = "p14.rs"]
mod prop;
#[cfg(feature = "p15")]
#[path = "p15.rs"]
mod prop;
#[cfg(feature = "p16")]
#[path = "p16.rs"]
mod prop;
#[cfg(feature = "p17")]
#[path = "p17.rs"]
mod prop;
#[cfg(feature = "p18")]
#[path = "p18.rs"]
mod prop;
#[cfg(feature = "p19")]
#[path = "p19.rs"]
mod prop;
#[cfg(feature = "p20")]
#[path = "p20.rs"]
mod prop;
#[cfg(feature = "p21")]
#[path = "p21.rs"]
mod prop;
#[cfg(feature = "p22")]
#[path = "p22.rs"]
mod prop;
#[cfg(feature = "p23")]
#[path = "p23.rs"]
mod prop;
#[cfg(feature = "p24")]
#[path = "p24.rs"]
mod prop;
#[cfg(feature = "p25")]
#[path = "p25.rs"]
mod prop;
#[cfg(feature = "p26")]
#[path = "p26.rs"]
mod prop;
#[cfg(feature = "p27")]
#[path = "p27.rs"]
mod prop;
#[cfg(feature = "p28")]
#[path = "p28.rs"]
mod prop;

extern "C" {
    fn sym_open(p: *const std::os::raw::c_char);
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (n, _) in prop::ENTRIES {
            println!("{n}");
        }
        return;
    }
    let c = std::ffi::CString::new(a[2].clone()).unwrap();
    unsafe { sym_open(c.as_ptr()) };
    for (n, f) in prop::ENTRIES {
        if *n == a[1] {
            f();
            return;
        }
    }
    std::process::exit(22)
}

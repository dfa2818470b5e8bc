mod cases;
#[cfg(feature = "parquet")]
mod disk;
mod samples;
mod spec;
mod vp;

macro_rules! modules {
    ($($f:literal $m:ident),*) => {
        $(#[cfg(feature = $f)] mod $m;)*
        const ALL: &[&[(&str, extern "C" fn())]] = &[$(#[cfg(feature = $f)] $m::E),*];
    };
}
modules!("c01" c01, "c02" c02, "c03" c03, "c04" c04, "c05" c05, "c06" c06, "c07" c07, "c08" c08, "c09" c09, "c10" c10, "c11" c11, "c12" c12, "c13" c13, "c14" c14, "c15" c15, "c16" c16, "c17" c17, "c18" c18, "c19" c19, "c20" c20, "c21" c21, "c22" c22, "c23" c23, "c24" c24, "c25" c25, "c26" c26, "c27" c27, "c05p" c05p, "c29" c29, "c30" c30, "c31" c31, "c32" c32, "c33" c33, "c34" c34, "c35" c35, "c36" c36);

#[cfg(not(feature = "native"))]
fn main() {
    // keeps every entry alive; never executed
    let n: usize = std::env::args().count();
    for t in ALL {
        if let Some((_, f)) = t.get(n) {
            f()
        }
    }
}

#[cfg(feature = "native")]
fn main() {
    // replay: harness ENTRY < tape (numbers separated by blanks)
    let name = std::env::args().nth(1).unwrap();
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let tape: Vec<u64> = s.split_whitespace().map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|i| {
        vp::vp_reset();
        println!("PANIC {}", i.to_string().replace('\n', " "));
        std::process::exit(101);
    }));
    for t in ALL {
        for (n, f) in t.iter() {
            if *n == name {
                vp::load(tape);
                f();
                vp::done();
                return;
            }
        }
    }
    println!("NOENTRY");
    std::process::exit(14);
}

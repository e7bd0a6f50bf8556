//! Executable form of the contracts, run against the real crate on machine floats.
//! Used (a) to search for a concrete failing input when a proof obligation is rejected, (b) as the
//! labelled bounded stand-in for functions outside the verifier's reach, (c) to exercise what the
//! exact-real abstraction drops (rounding, NaN, panics, overflow).
#![allow(dead_code)]
mod fw;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c22;
#[cfg(feature = "priv")]
mod privx;
#[cfg(feature = "priv")]
pub use geom3d::{consts, utils, Float, Point2, Point3};
mod gen;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let mut r = fw::Run::new(&id);
            match id.as_str() {
                "C01" => c01::run(&mut r),
                "C02" => c02::run(&mut r),
                "C03" => c03::run(&mut r),
                "C04" => c04::run(&mut r),
                "C05" => c05::run(&mut r),
                "C06" => c06::run(&mut r),
                "C07" => c07::run(&mut r),
                "C08" => c08::run(&mut r),
                "C09" => c09::run(&mut r),
                "C10" => c10::run(&mut r),
                "C11" => c11::run(&mut r),
                "C12" => c12::run(&mut r),
                "C13" => c13::run(&mut r),
                "C14" => c14::run(&mut r),
                "C15" => c15::run(&mut r),
                "C16" => c16::run(&mut r),
                "C17" => c17::run(&mut r),
                "C18" => c18::run(&mut r),
                "C19" => c19::run(&mut r),
                "C20" => c20::run(&mut r),
                "C22" => c22::run(&mut r),
                _ => {
                    eprintln!("unknown property {}", id);
                    std::process::exit(9);
                }
            }
            r.finish();
        })
        .unwrap();
    if h.join().is_err() {
        eprintln!("harness thread panicked");
        std::process::exit(8);
    }
}

//! replay <harness> <file or ->: runs a harness natively on a recorded assignment (one hex draw per line)
fn main() {
    let a: Vec<String> = std::env::args().collect();
    #[cfg(not(sx))]
    {
        let txt = if a[2] == "-" { let mut s = String::new(); std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap(); s }
            else { std::fs::read_to_string(&a[2]).unwrap() };
        let vals = txt.lines().filter(|l| !l.starts_with('#') && !l.trim().is_empty())
            .map(|l| u64::from_str_radix(l.trim().trim_start_matches("0x"), 16).unwrap()).collect();
        adminh::rt::load(vals);
        for (_, all) in adminh::MODULES {
            for (n, f) in all.iter() {
                if *n == a[1] {
                    // a panic must not unwind out of the extern "C" harness
                    std::panic::set_hook(Box::new(|i| { println!("REPLAY-PANIC: {}", i); std::process::exit(101); }));
                    f();
                    println!("OBS {}", adminh::rt::observed());
                    println!("REPLAY-OK");
                    return;
                }
            }
        }
    }
    println!("REPLAY-UNKNOWN-HARNESS");
    std::process::exit(40);
}

//! Runs one harness natively on the values of a counterexample.
//!
//! exit 0: every check passed; 77: the values violate an assumption; 78: unknown harness;
//! anything else: a check failed or the code panicked.
#[cfg(kani)]
fn main() {}

#[cfg(not(kani))]
fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let vals = args[1..]
        .iter()
        .map(|h| {
            (0..h.len() / 2)
                .map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap())
                .collect()
        })
        .collect();
    vh::rt::load(vals);
    for (name, f) in vh::tables() {
        if name.strip_prefix("vh::") == Some(&args[0]) {
            f();
            println!("REPLAY: all checks passed");
            return;
        }
    }
    println!("REPLAY: unknown harness {}", args[0]);
    std::process::exit(78);
}

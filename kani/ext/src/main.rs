//! Native replay: `vk-ext-replay <harness> <hex bytes>`; exits 101 (panic) iff the harness fails.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (m, t) in vk_ext::tables() {
            for (n, _) in t {
                println!("{m}::{n}");
            }
        }
        return;
    }
    let mut b = [0u8; vk_ext::support::NB];
    for (i, c) in a[2].as_bytes().chunks(2).enumerate().take(b.len()) {
        b[i] = u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap();
    }
    let want = a[1].split("::").filter(|p| *p != "proof").collect::<Vec<_>>().join("::");
    for (m, t) in vk_ext::tables() {
        for (n, f) in t {
            if format!("{m}::{n}") == want {
                f(&b);
                println!("HELD");
                return;
            }
        }
    }
    eprintln!("no such harness: {}", a[1]);
    std::process::exit(78);
}

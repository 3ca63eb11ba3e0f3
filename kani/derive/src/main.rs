//! Native replay: `vk-derive-replay <harness> <hex bytes>`; exits 101 (panic) iff the harness fails.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        for (m, t) in vk_derive::tables() {
            for (n, _) in t {
                println!("{m}::{n}");
            }
        }
        return;
    }
    let mut b = [0u8; vk_derive::support::NB];
    for (i, c) in a[2].as_bytes().chunks(2).enumerate().take(b.len()) {
        b[i] = u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap();
    }
    let want = norm(&a[1]);
    for (m, t) in vk_derive::tables() {
        for (n, f) in t {
            if norm(&format!("{m}::{n}")) == want {
                f(&mut vk_derive::support::Src::new(b));
                println!("HELD");
                return;
            }
        }
    }
    eprintln!("no such harness: {}", a[1]);
    std::process::exit(78);
}
/// Kani names proofs `c01::h::next::on_g::proofs::run`; the table says `c01::h::next::on_g`.
fn norm(s: &str) -> String {
    s.split("::").filter(|p| *p != "proofs" && *p != "run").collect::<Vec<_>>().join("::")
}

//! replay ENTRY HEXINPUT PARAM (HEXINPUT - reads it from standard input)
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 {
        for (n, _) in harness::entries() {
            println!("{}", n);
        }
        return;
    }
    let f = harness::entries().into_iter().find(|e| e.0 == a[1]).unwrap_or_else(|| {
        eprintln!("no entry {}", a[1]);
        std::process::exit(3)
    });
    let mut h = a.get(2).cloned().unwrap_or_default();
    if h == "-" {
        h = std::io::read_to_string(std::io::stdin()).unwrap();
    }
    let input = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    let p = a.get(3).map(|s| s.parse().unwrap()).unwrap_or(0);
    harness::native::replay(f.1, input, p)
}

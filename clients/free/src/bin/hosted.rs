extern crate alloc;
#[path = "../work.rs"]
mod work;
fn main() {
    use std::io::Write;
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let mut o = std::io::BufWriter::new(std::io::stdout());
    work::run(a[0], a[1], &mut |s| o.write_all(s.as_bytes()).unwrap());
    o.write_all(b"balanced\n").unwrap();
}

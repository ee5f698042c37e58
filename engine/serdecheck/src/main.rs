//! `serdecheck HARNESS BYTE...`: runs a harness natively on the values of a counterexample.
struct Values(Vec<u8>, usize, bool);
impl serdecheck::Source for Values {
    fn byte(&mut self) -> u8 {
        self.1 += 1;
        self.0.get(self.1 - 1).copied().unwrap_or(0)
    }
    fn assume(&mut self, c: bool) {
        if !c {
            println!("outside the assumptions");
            std::process::exit(3);
        }
    }
    fn check(&mut self, what: &'static str, c: bool) {
        if !c {
            println!("FAILED {}", what);
            self.2 = true;
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut v = Values(a[2..].iter().map(|x| x.parse().unwrap()).collect(), 0, false);
    if !serdecheck::run(&mut v, &a[1]) {
        std::process::exit(4);
    }
    std::process::exit(v.2 as i32);
}

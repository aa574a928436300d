//! replay <module::harness> <values>: one line of decimal bytes per value
fn main() {
    #[cfg(not(kani))]
    {
        let a: Vec<String> = std::env::args().collect();
        let (m, h) = a[1].split_once("::").unwrap();
        let t = hodukani::MODULES.iter().find(|x| x.0 == m).unwrap().1;
        let f = t.iter().find(|x| x.0 == h).unwrap().1;
        let v = std::fs::read_to_string(&a[2]).unwrap();
        let v = v.lines().map(|l| l.split_whitespace().map(|b| b.parse().unwrap()).collect()).collect();
        hodukani::kani::VALS.with(|x| *x.borrow_mut() = v);
        f();
    }
}

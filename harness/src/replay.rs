fn main() {
    let name = std::env::args().nth(1).expect("harness name");
    let t = harness::table();
    let f = t.iter().find(|x| x.0 == name).expect("no such harness").1;
    if std::env::var("RAWSYM_RANDOM").is_ok() {
        f();
        harness::sym::dump_inputs();
    } else { f(); }
    harness::sym::dump();
    println!("COMPLETED");
}

mod b01;
mod g01;
mod g02;
mod q01;
mod r03;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (p, t) = (a[1].as_str(), a.get(2).map(|s| s == "thorough").unwrap_or(false));
    mccore::quiet_panics();
    let run: &'static mccore::Run = Box::leak(Box::new(mccore::Run::new(p, t)));
    match p {
        "B01" => b01::run(run),
        "G01" => g01::run(run),
        "G02" => g02::run(run),
        "Q01" => q01::run(run),
        "R03" => r03::run(run),
        _ => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    run.finish()
}

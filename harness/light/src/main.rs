mod v01; mod v02; mod v03; mod s; mod r01; mod r02; mod c01; mod c02; mod c03; mod e01; mod e02; mod fields; mod x01; mod u01; mod f01; mod k01; mod o01; mod p01;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (p, t) = (a[1].as_str(), a.get(2).map(|s| s == "thorough").unwrap_or(false));
    mccore::quiet_panics();
    let run: &'static mccore::Run = Box::leak(Box::new(mccore::Run::new(p, t)));
    match p {
        "C01" => c01::run(run), "C02" => c02::run(run), "C03" => c03::run(run), "E01" => e01::run(run), "E02" => e02::run(run), "X01" => x01::run(run), "U01" => u01::run(run), "F01" => f01::run(run), "K01" => k01::run(run), "O01" => o01::run(run), "P01" => p01::run(run), "V03" => v03::run(run), "V01" => v01::run(run), "V02" => v02::run(run),
        "S01" => s::s01(run), "S02" => s::s02(run), "R02" => r02::run(run), "R01" => r01::run(run), "S03" => s::s03(run),
        _ => { eprintln!("unknown property {p}"); std::process::exit(2) }
    }
    run.finish()
}

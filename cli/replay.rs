//! Runs one harness natively on concrete inputs: `replay HARNESS v1,v2,...`
fn main() {
    let mut a = vec![];
    // started again with the arguments for the tool
    if let Ok(s) = std::env::var("RSX_ARGS") { a = std::iter::once(String::new()).chain(s.split(' ').map(|x| x.to_string())).collect() } else { a.extend(std::env::args()) }
    let vals: Vec<u64> = a.get(2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let f = vc::tables().into_iter().flatten().find(|x| x.0 == a[1]).expect("harness").1;
    std::panic::set_hook(Box::new(|i| println!("PANIC {}", i.to_string().replace('\n', " "))));
    vc::h_cli::begin();
    vc::rsx::imp::begin(&vals);
    if std::panic::catch_unwind(|| f()).is_err() {
        vc::h_cli::forget();
        vc::rsx::imp::finish();
        std::process::exit(71)
    }
    vc::rsx::imp::finish();
    println!("OK");
}

//! Runs one harness natively on concrete inputs: `replay HARNESS v1,v2,... [rounds]`
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let vals: Vec<u64> = a.get(2).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()).unwrap_or_default();
    let rounds: usize = a.get(3).map(|x| x.parse().unwrap()).unwrap_or(1);
    let f = vh::tables().into_iter().flatten().find(|x| x.0 == a[1]).expect("harness").1;
    std::panic::set_hook(Box::new(|i| {
        println!("PANIC {}", i.to_string().replace('\n', " "));
    }));
    for r in 0..rounds {
        vh::rsx::imp::ROUND.store(r, std::sync::atomic::Ordering::SeqCst);
        vh::rsx::imp::begin(&vals);
        if std::panic::catch_unwind(|| f()).is_err() {
            vh::rsx::imp::finish();
            std::process::exit(71)
        }
    }
    vh::rsx::imp::finish();
    println!("OK");
}

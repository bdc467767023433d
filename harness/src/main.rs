#[path = "/repo/crates/t-digest-lib/src/lib.rs"]
mod capi;
mod digest;
mod enc;
mod flat;
mod hll;
mod util;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, count) = (n(2), n(3), n(4));
    let small = a.get(5).map(|s| s == "small").unwrap_or(false);
    let mut rec = util::Rec::default();
    let last = std::sync::Arc::new(std::sync::Mutex::new(String::new()));
    let l = last.clone();
    std::panic::set_hook(Box::new(move |i| *l.lock().unwrap() = i.to_string()));
    for case in start..start + count {
        rec.case = case;
        let run = std::panic::AssertUnwindSafe(|| match a[1].as_str() {
            "flat" => flat::case(seed, case, small, &mut rec),
            "enc" => enc::case(seed, case, small, &mut rec),
            "hll" => hll::case(seed, case, small, &mut rec),
            "digest" => digest::case(seed, case, small, &mut rec),
            _ => std::process::exit(9),
        });
        if std::panic::catch_unwind(run).is_err() {
            let what = last.lock().unwrap().clone();
            rec.fail(&format!("{}:panic", a[1]), what);
        }
    }
    rec.print();
}

// Runs contracts natively.
//   list                       names of the contracts
//   run NAME SEED N BUDGET_S   N generated inputs; FAIL lines for violations, DONE at the end
//   min NAME SEED N BUDGET_S   the failing input with the shortest description, per failed clause
//   one NAME SEED              one input, printed before it runs
use dyon::verif::*;
use std::io::Write;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "list" {
        for (n, _) in all_natives() {
            println!("{}", n);
        }
        return;
    }
    if std::env::var("SHOWP").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    // deep recursion in the code under test must not be cut short by a small stack
    std::thread::Builder::new().stack_size(512 << 20).spawn(move || run(a)).unwrap().join().unwrap();
}
fn run(a: Vec<String>) {
    let (_, f) = all_natives().into_iter().find(|(n, _)| *n == a[2]).expect("no such contract");
    if a[1] == "one" {
        let s: u64 = a[3].parse().unwrap();
        SHOW.store(true, std::sync::atomic::Ordering::Relaxed);
        match run_one(f, s) {
            Ok(_) => println!("HELD"),
            Err((label, log)) => println!("FAIL\t{}\t{}\t{:?}\t{:?}", a[2], s, label, log),
        }
        return;
    }
    let seed: u64 = a[3].parse().unwrap();
    let n: u64 = a[4].parse().unwrap();
    let budget: f64 = a[5].parse().unwrap();
    let start = std::time::Instant::now();
    if a[1] == "min" {
        let mut best: std::collections::BTreeMap<String, (u64, Vec<String>)> = Default::default();
        for i in 0..n {
            let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
            if let Err((label, log)) = run_one(f, s) {
                let len = |l: &Vec<String>| l.iter().map(|x| x.len()).sum::<usize>();
                if best.get(&label).map_or(true, |b| len(&log) < len(&b.1)) {
                    best.insert(label, (s, log));
                }
            }
            if start.elapsed().as_secs_f64() > budget {
                break;
            }
        }
        for (label, (s, log)) in best {
            println!("FAIL {} {}\n{}", s, label, log.join("\n"));
        }
        return;
    }
    let (mut ran, mut skipped) = (0u64, 0u64);
    let mut fails: Vec<String> = vec![];
    let mut prints = std::collections::HashSet::new();
    let mut err = std::io::stderr();
    for i in 0..n {
        let s = seed.wrapping_mul(1_000_003).wrapping_add(i);
        let _ = writeln!(err, "@ {}", s);
        let r = run_one(f, s);
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        G_.with(|x| x.try_borrow().map(|x| x.log.hash(&mut h)).ok());
        match r {
            Ok(true) => {
                ran += 1;
                prints.insert(h.finish());
            }
            Ok(false) => skipped += 1,
            Err((label, log)) => {
                if !fails.contains(&label) && fails.len() < 20 {
                    println!("FAIL\t{}\t{}\t{:?}\t{:?}", a[2], s, label, log);
                    fails.push(label);
                }
            }
        }
        if start.elapsed().as_secs_f64() > budget {
            break;
        }
    }
    let cov = covers();
    println!("DONE\t{}\t{}\t{}\t{}\t{}\t{}", a[2], ran, skipped, prints.len(), fails.len(), cov.join("|"));
}

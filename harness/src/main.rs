mod algebra;
mod fields;
mod merkle;
mod mid;
mod misc;
mod out;
mod perms;
mod published;
mod view;
use out::*;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        eprintln!("usage: harness CMD OUTDIR SEED quick|thorough");
        std::process::exit(2);
    }
    let (cmd, dir) = (a[1].as_str(), a[2].as_str());
    let seed: u64 = a[3].parse().expect("seed");
    let thorough = a[4] == "thorough";
    let extra_arg = a.get(5).cloned().unwrap_or_default();
    let small_only = extra_arg == "small";
    if cmd == "c14child" {
        std::panic::set_hook(Box::new(|_| {}));
        // a lost wake-up or a deadlock must not outlive the check
        std::thread::spawn(|| {
            std::thread::sleep(std::time::Duration::from_secs(100));
            std::process::exit(42);
        });
        misc::c14_child(seed);
        return;
    }
    start_watchdog(if thorough { 300 } else { 120 });
    let mut tr = Trace::new(dir);
    let mut rng = Rng(seed.wrapping_mul(0x5851f42d4c957f2d) ^ cmd.bytes().fold(7u64, |h, b| h.wrapping_mul(131) + b as u64));
    match cmd {
        "c01" => perms::c01(&mut tr, &mut rng, thorough, small_only),
        "c02" => perms::c02(&mut tr, &mut rng, thorough, small_only),
        "c04" => perms::c04(&mut tr, &mut rng, thorough, small_only),
        "c05" => perms::c05(&mut tr, &mut rng, thorough, small_only),
        "c03" => algebra::c03(&mut tr, &mut rng, thorough),
        "c06" => misc::c06(&mut tr, &mut rng, thorough, small_only),
        "c07" => misc::c07(&mut tr),
        "c08" => misc::c08(&mut tr),
        "c09" => merkle::c09(&mut tr, &mut rng, thorough),
        "c10" => merkle::c10(&mut tr, &mut rng, thorough, &extra_arg, &serde_json::from_str::<Vec<Vec<u64>>>(&a[6]).expect("sets")),
        "c11" => misc::c11(&mut tr, &mut rng, thorough, small_only),
        "c12" => misc::c12(&mut tr, &mut rng, &extra_arg),
        "c13" => misc::c13(&mut tr, &mut rng, thorough, &extra_arg),
        "c14" => misc::c14(&mut tr, &mut rng, thorough),
        "c15" => algebra::c15(&mut tr, &mut rng, thorough),
        "c16" => algebra::c16(&mut tr, &mut rng, thorough),
        "c17" => misc::c17(&mut tr, &mut rng, thorough),
        "c18" => algebra::c18(&mut tr, &mut rng, thorough),
        #[cfg(debug_assertions)]
        "midtest" => perms::midtest(&mut rng),
        "c20" => misc::c20(&mut tr),
        "c19" => merkle::c19(&mut tr, &mut rng, thorough),
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(2);
        }
    }
    tr.finish(serde_json::json!({}));
    println!("DONE calls={}", calls());
}

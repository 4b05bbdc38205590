mod fw;
mod num;
mod refs;
mod props;

use fw::*;

/// C21 also sweeps the random workloads of every other property, watching for panics only
fn plan() -> Vec<(&'static str, Vec<Section>)> {
    let mut all = props::all();
    let mut sweeps = vec![];
    for (p, ss) in props::all() {
        if p == "C21" {
            continue;
        }
        for s in ss {
            if !s.exhaustive {
                let name: &'static str = Box::leak(format!("sweep:{p}:{}", s.name).into_boxed_str());
                sweeps.push(Section { name, rule: "this workload watched for panics, aborts and endless cases only", quick: s.quick / 16, thorough: s.thorough / 64, need: &["swept-observations"], ..s });
            }
        }
    }
    for (p, ss) in all.iter_mut() {
        if *p == "C21" {
            ss.append(&mut sweeps);
        }
    }
    all
}

fn main() {
    install_hook();
    let mut prop = String::new();
    let (mut tier, mut seed, mut out) = ("quick".to_string(), 1u64, None::<String>);
    let (mut sec, mut index, mut scale, mut crumb) = (None::<String>, None::<u64>, 1.0f64, None::<String>);
    let (mut stuck, mut skip_ex, mut stop_on_fail, mut budget) = (0.0f64, false, false, f64::INFINITY);
    let mut threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8);
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--tier" => tier = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--out" => out = Some(v()),
            "--section" => sec = Some(v()),
            "--index" => index = Some(v().parse().unwrap()),
            "--scale" => scale = v().parse().unwrap(),
            "--threads" => threads = v().parse().unwrap(),
            "--stuck" => stuck = v().parse().unwrap(),
            "--budget" => budget = v().parse().unwrap(),
            "--stop-on-fail" => stop_on_fail = true,
            "--skip-exhaustive" => skip_ex = true,
            "--crumb" => crumb = Some(v()),
            _ => prop = a,
        }
    }
    if prop == "list" {
        for (p, ss) in plan() {
            for s in ss {
                println!("{p} {}", s.name);
            }
        }
        return;
    }
    let mut reps = vec![];
    let crumbs = crumb.as_deref().and_then(|p| Crumbs::new(p, threads));
    let t0 = std::time::Instant::now();
    'outer: for (p, ss) in plan() {
        if p != prop && prop != "all" {
            continue;
        }
        let count = ss.len();
        for (no, s) in ss.into_iter().enumerate() {
            if sec.as_deref().map_or(false, |x| x != s.name) {
                continue;
            }
            if skip_ex && (s.exhaustive || s.name.starts_with("sweep:")) {
                continue;
            }
            let base = if tier == "thorough" { s.thorough } else { s.quick };
            let mut n = if s.exhaustive { base } else { ((base as f64 * scale) as u64).max(1) };
            let mut th = threads;
            if index.is_some() {
                n = 1;
                th = 1;
            }
            let sweep = s.name.starts_with("sweep:");
            if sweep && prop == "all" {
                continue;
            }
            // sections differ in cost: each may use four times its even share of what is left
            let left = (budget - t0.elapsed().as_secs_f64()).max(0.0);
            let share = (left * 4.0 / (count - no) as f64).min(left).max(0.5);
            let r = run_section(&s, n, &Opts { seed, threads: th, only: index, crumbs: crumbs.as_ref(), section_no: no as u64, stuck_after: stuck, panics_only: sweep, budget: share });
            if out.is_none() {
                eprintln!(
                    "{p} {:<28} eval={} nontriv={} distinct={}{} fails={} und={:?} wall={:.2}",
                    r.name, r.evaluations, r.nontrivial, r.distinct, if r.distinct_capped { "+" } else { "" }, r.fails.len(), r.undecided, r.wall
                );
                if std::env::var("V").is_ok() {
                    eprintln!("    observed={:?}", r.counters);
                }
                for (k, v) in &r.known {
                    eprintln!("   known {k}: {} e.g. {}", v.0, v.1);
                }
                for f in r.fails.iter().take(4) {
                    eprintln!("   FAIL [{}] #{}: {}", f.key, f.index, f.msg);
                }
                if !r.missing.is_empty() {
                    eprintln!("   MISSING {:?}", r.missing);
                }
            }
            let bad = !r.fails.is_empty();
            reps.push(r);
            if bad && stop_on_fail {
                break 'outer;
            }
        }
    }
    let j = to_json(&reps);
    match out {
        Some(o) => std::fs::write(o, j).unwrap(),
        None => {
            if let Some(e) = HARNESS_ERROR.lock().unwrap().as_ref() {
                eprintln!("HARNESS ERROR {e}");
            }
        }
    }
}

mod exec;
mod ir;
mod smt;
mod val;

use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jm(m: &[(u32, u64)]) -> String {
    format!("[{}]", m.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(","))
}

#[derive(Default)]
struct Total {
    queue: Vec<Vec<u32>>,
    busy: usize,
    jobs: u64,
    leaves: u64,
    merges: u64,
    splits: u64,
    steps: u64,
    dropped: u64,
    obligations: u64,
    trivial: u64,
    proved: u64,
    queries: u64,
    cover: u64,
    panics: u64,
    secs: f64,
    maxfront: usize,
    maxvars: usize,
    reach: BTreeMap<u32, u64>,
    checks: BTreeMap<u32, u64>,
    funcs: std::collections::BTreeSet<String>,
    viols: Vec<String>,
    errors: Vec<String>,
    samples: Vec<String>,
    slow: Vec<(f64, Vec<u32>, u64)>,
}

fn main() {
    let mut a: BTreeMap<String, String> = BTreeMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        a.insert(k.trim_start_matches('-').to_string(), v);
    }
    let num = |k: &str, d: f64| a.get(k).map_or(d, |v| v.parse().expect("number"));
    let text = Arc::new(std::fs::read_to_string(&a["ir"]).expect("ir file"));
    let entry = a["entry"].clone();
    let threads = num("threads", 8.0) as usize;
    let tier = num("tier", 0.0) as u32;
    let seed = num("seed", 1.0) as u64;
    let z3 = a.get("z3").cloned().unwrap_or("z3-new".into());
    let seconds = num("seconds", 600.0);
    let samples = num("samples", 2.0) as usize;
    let steps = num("steps", 3e7) as u64;
    let frontier = num("frontier", 40000.0) as usize;
    let narrow = num("narrow", 60.0) as u64;
    let verbose = a.contains_key("verbose");
    let only: Option<Vec<u32>> = a.get("job").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    let t0 = std::time::Instant::now();
    let tot = Arc::new((Mutex::new(Total { queue: vec![only.unwrap_or_default()], ..Default::default() }), Condvar::new()));
    let mut hs = vec![];
    for _ in 0..threads {
        let (text, entry, tot, z3) = (text.clone(), entry.clone(), tot.clone(), z3.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let mut module = None;
                    loop {
                        let job = {
                            let mut t = tot.0.lock().unwrap();
                            loop {
                                if t.viols.len() >= 8 || t.errors.len() >= 8 {
                                    t.queue.clear();
                                }
                                if let Some(j) = t.queue.pop() {
                                    t.busy += 1;
                                    break j;
                                }
                                if t.busy == 0 {
                                    return;
                                }
                                t = tot.1.wait(t).unwrap();
                            }
                        };
                        let start = std::time::Instant::now();
                        let left = seconds - t0.elapsed().as_secs_f64();
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            if module.is_none() {
                                module = Some(ir::parse(&text)?);
                            }
                            let m = module.as_ref().unwrap();
                            let lim = exec::Limits { steps, depth: 200, alloc: 1 << 24, frontier, samples, seconds: left };
                            let solver = smt::Solver::new(&z3)?;
                            let mut e = exec::Exec::new(m, lim, solver, job.clone(), tier, seed + job.iter().fold(7, |a, b| a * 31 + *b as u64));
                            e.run(&entry);
                            if e.rep.jobs.is_none() && e.rep.errors.is_empty() && e.rep.viols.is_empty() && (e.rep.weight - 1.0).abs() > 1e-6 {
                                e.rep.errors.push(format!("path weights add up to {}", e.rep.weight));
                            }
                            // undecided: look for a counterexample in small parts of the space
                            let undecided = e.rep.errors.iter().any(|e| e.ends_with(" limit"));
                            if e.rep.jobs.is_none() && undecided && e.rep.viols.is_empty() {
                                let t1 = std::time::Instant::now();
                                for k in 0..narrow {
                                    if t1.elapsed().as_secs_f64() > 30.0 || left < start.elapsed().as_secs_f64() {
                                        break;
                                    }
                                    let lim = exec::Limits { steps, depth: 200, alloc: 1 << 24, frontier: 3000, samples: 0, seconds: 8.0 };
                                    let mut p = exec::Exec::new(m, lim, smt::Solver::new(&z3)?, job.clone(), tier, seed + k);
                                    p.narrow = Some((seed * 1000 + k, 2 + k as usize % 4));
                                    p.run(&entry);
                                    if !p.rep.viols.is_empty() {
                                        e.rep.viols = p.rep.viols;
                                        break;
                                    }
                                }
                            }
                            Ok::<_, String>((e.rep, e.solver.queries, e.solver.secs))
                        }));
                        let mut t = tot.0.lock().unwrap();
                        match r {
                            Err(p) => {
                                let s = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                t.errors.push(format!("engine failure in job {:?}: {}", job, s));
                                module = None;
                            }
                            Ok(Err(e)) => t.errors.push(e),
                            Ok(Ok((r, q, secs))) => {
                                if let Some(n) = r.jobs {
                                    for i in (0..n).rev() {
                                        let mut j = job.clone();
                                        j.push(i);
                                        t.queue.insert(0, j);
                                    }
                                } else {
                                    t.jobs += 1;
                                    t.slow.push((start.elapsed().as_secs_f64(), job.clone(), r.leaves));
                                }
                                let keep = r.jobs.is_none();
                                if keep {
                                    t.leaves += r.leaves;
                                    t.merges += r.merges;
                                    t.splits += r.splits;
                                    t.steps += r.steps;
                                    t.dropped += r.dropped;
                                    t.obligations += r.obligations;
                                    t.trivial += r.trivial;
                                    t.proved += r.proved;
                                    t.queries += q;
                                    t.cover += r.cover_queries;
                                    t.panics += r.panics_expected;
                                    t.secs += secs;
                                    t.maxfront = t.maxfront.max(r.max_frontier);
                                    t.maxvars = t.maxvars.max(r.vars);
                                    for (k, v) in r.reach {
                                        *t.reach.entry(k).or_default() += v;
                                    }
                                    for (k, v) in r.checks {
                                        *t.checks.entry(k).or_default() += v;
                                    }
                                    t.funcs.extend(r.funcs);
                                }
                                let jl = format!("[{}]", job.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                                for v in r.viols {
                                    t.viols.push(format!(
                                        "{{\"kind\":{},\"id\":{},\"text\":{},\"jobs\":{},\"vars\":{}}}",
                                        js(&v.kind),
                                        v.id,
                                        js(&v.text),
                                        jl,
                                        jm(&v.model)
                                    ));
                                }
                                for s in r.samples {
                                    t.samples.push(format!(
                                        "{{\"jobs\":{},\"vars\":{},\"out\":{},\"panicked\":{}}}",
                                        jl,
                                        jm(&s.model),
                                        js(&s.out),
                                        s.panicked
                                    ));
                                }
                                for e in r.errors {
                                    t.errors.push(format!("job {:?}: {}", job, e));
                                }
                            }
                        }
                        t.busy -= 1;
                        tot.1.notify_all();
                    }
                })
                .unwrap(),
        );
    }
    for h in hs {
        h.join().unwrap();
    }
    let mut t = tot.0.lock().unwrap();
    t.slow.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    if verbose {
        for s in t.slow.iter().take(12) {
            eprintln!("{:.2}s job {:?} leaves {}", s.0, s.1, s.2);
        }
        for e in t.errors.iter().take(5) {
            eprintln!("ERROR {}", e);
        }
        for v in t.viols.iter().take(5) {
            eprintln!("VIOL {}", v);
        }
    }
    let map = |m: &BTreeMap<u32, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    println!(
        "{{\"entry\":{},\"jobs\":{},\"leaves\":{},\"dropped\":{},\"merges\":{},\"splits\":{},\"steps\":{},\"obligations\":{},\"trivial\":{},\"proved\":{},\"queries\":{},\"coverage_queries\":{},\"solver_s\":{:.3},\"panics_expected\":{},\"max_frontier\":{},\"max_vars\":{},\"wall_s\":{:.3},\"reach\":{},\"checks\":{},\"functions\":[{}],\"violations\":[{}],\"errors\":[{}],\"samples\":[{}]}}",
        js(&entry),
        t.jobs,
        t.leaves,
        t.dropped,
        t.merges,
        t.splits,
        t.steps,
        t.obligations,
        t.trivial,
        t.proved,
        t.queries,
        t.cover,
        t.secs,
        t.panics,
        t.maxfront,
        t.maxvars,
        t0.elapsed().as_secs_f64(),
        map(&t.reach),
        map(&t.checks),
        t.funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
        t.viols.join(","),
        t.errors.iter().map(|f| js(f)).collect::<Vec<_>>().join(","),
        t.samples.join(",")
    );
}

mod exec;
mod expr;
mod ir;
mod mem;
mod smt;

use exec::*;
use std::collections::VecDeque;
use std::sync::atomic::*;
use std::sync::{Arc, Condvar, Mutex};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u32, u128)]) -> String { format!("[{}]", v.iter().map(|(w, x)| format!("[{},{}]", w, x)).collect::<Vec<_>>().join(",")) }
fn nums<T: std::fmt::Display>(v: &[T]) -> String { format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }

fn main() {
    let mut args = std::env::args().skip(1);
    let ll = args.next().expect("usage: rsx FILE.ll --harness a,b --out F");
    let mut hs: Vec<String> = vec![];
    let mut out = String::new();
    let mut workers = 8usize;
    let (mut max_steps, mut max_paths, mut samples, mut seed, mut preempt, mut secs, mut timeout) = (50_000_000u64, 5_000_000u64, 4usize, 1u64, 2u32, 600u64, 60_000u32);
    let mut trace = false;
    let mut all = false;
    let mut concrete = None;
    let mut stack_mb = 512usize;
    while let Some(a) = args.next() {
        let mut v = || args.next().expect("value");
        match a.as_str() {
            "--harness" => hs = v().split(',').map(|x| x.to_string()).collect(),
            "--out" => out = v(),
            "--workers" => workers = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--samples" => samples = v().parse().unwrap(),
            "--seed" => seed = v().parse().unwrap(),
            "--preempt" => preempt = v().parse().unwrap(),
            "--secs" => secs = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--stack" => stack_mb = v().parse().unwrap(),
            "--concrete" => concrete = Some(v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            "--trace" => trace = true,
            "--all" => all = true,
            x => panic!("unknown option {}", x),
        }
    }
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read IR");
    let m = Arc::new(ir::parse(&text).expect("parse IR"));
    drop(text);
    let parse_s = t0.elapsed().as_secs_f64();
    if hs.is_empty() {
        for f in &m.funcs { if (f.name.starts_with("h_") || f.name.starts_with("t_")) && !f.declared { println!("{}", f.name) } }
        return;
    }
    let harnesses: Vec<(String, u32)> = hs.iter().map(|h| (h.clone(), *m.fn_by_name.get(h).unwrap_or_else(|| { eprintln!("no harness {}", h); std::process::exit(3) }))).collect();
    let api = smt::load_api();
    let nh = harnesses.len();
    let sh = Arc::new(Shared {
        cfg: Cfg { max_steps, max_paths, samples, seed, preempt, deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs), timeout_ms: timeout, trace, all_violations: all, concrete },
        m: m.clone(), harnesses,
        q: Mutex::new((0..nh).map(|h| Task { h, prefix: vec![], seed: vec![] }).collect::<VecDeque<_>>()),
        cv: Condvar::new(), idle: AtomicUsize::new(0), workers, stop: AtomicBool::new(false), viols: Mutex::new(vec![]), first_viol: Mutex::new(None), errs: Mutex::new(vec![]),
        stats: Mutex::new((0..nh).map(|_| HStat::default()).collect()), samples: Mutex::new(vec![]), paths: AtomicU64::new(0),
        funcs: Mutex::new(Default::default()), smt: Mutex::new((0, 0, 0, 0, 0.0, 0.0)), cache_hits: AtomicU64::new(0),
    });
    let ths: Vec<_> = (0..workers).map(|_| {
        let sh = sh.clone();
        std::thread::Builder::new().stack_size(stack_mb << 20).spawn(move || {
            let s2 = sh.clone();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let mut w = Worker::new(sh, api); w.run_all(); }));
            if let Err(e) = r {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
                s2.errs.lock().unwrap_or_else(|p| p.into_inner()).push(format!("engine failure: {}", m));
                s2.stop.store(true, Ordering::SeqCst);
                s2.idle.fetch_add(1, Ordering::SeqCst);
                s2.cv.notify_all();
            }
        }).unwrap()
    }).collect();
    for t in ths { let _ = t.join(); }
    let mut o = String::from("{\n");
    let errs = sh.errs.lock().unwrap();
    o.push_str(&format!("\"errors\": [{}],\n", errs.iter().map(|e| js(e)).collect::<Vec<_>>().join(",\n  ")));
    let vs = sh.viols.lock().unwrap();
    o.push_str(&format!("\"violations\": [{}],\n", vs.iter().map(|v| format!(
        "{{\"harness\":{},\"kind\":{},\"label\":{},\"inputs\":{},\"notes\":{},\"stack\":[{}],\"schedule\":{}}}",
        js(&v.harness), js(&v.kind), js(&v.label), inputs(&v.inputs), nums(&v.notes), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), nums(&v.sched))).collect::<Vec<_>>().join(",\n  ")));
    let sm = sh.samples.lock().unwrap();
    o.push_str(&format!("\"samples\": [{}],\n", sm.iter().map(|v| format!("{{\"harness\":{},\"inputs\":{},\"notes\":{},\"threads\":{}}}", js(&v.harness), inputs(&v.inputs), nums(&v.notes), v.threads)).collect::<Vec<_>>().join(",\n  ")));
    let st = sh.stats.lock().unwrap();
    o.push_str(&format!("\"harnesses\": [{}],\n", st.iter().enumerate().map(|(i, h)| format!(
        "{{\"name\":{},\"paths\":{},\"infeasible\":{},\"steps\":{},\"max_steps\":{},\"branches\":{},\"forks\":{},\"max_inputs\":{},\"schedules\":{},\"cpu_ms\":{},\"reach\":{{{}}}}}",
        js(&sh.harnesses[i].0), h.paths, h.infeasible, h.steps, h.max_steps, h.branches, h.forks, h.max_inputs, h.schedules, h.time_ms,
        h.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n  ")));
    let fs = sh.funcs.lock().unwrap();
    o.push_str(&format!("\"functions\": [{}],\n", fs.iter().map(|f| js(&m.funcs[*f as usize].pretty)).collect::<Vec<_>>().join(",\n  ")));
    o.push_str(&format!("\"instructions_encoded\": {},\n", fs.iter().map(|f| m.funcs[*f as usize].ins_count as u64).sum::<u64>()));
    let q = sh.smt.lock().unwrap();
    o.push_str(&format!("\"solver\": {{\"name\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"seconds\": {:.3}, \"max_seconds\": {:.3}, \"cache_hits\": {}}},\n",
        js(&format!("Z3 {}", smt::Smt::version(&api))), q.0, q.1, q.2, q.3, q.4, q.5, sh.cache_hits.load(Ordering::Relaxed)));
    o.push_str(&format!("\"parse_seconds\": {:.3},\n\"seconds\": {:.3},\n\"complete\": {}\n}}\n", parse_s, t0.elapsed().as_secs_f64(), errs.is_empty() && !sh.stop.load(Ordering::SeqCst)));
    if out.is_empty() { print!("{}", o) } else { std::fs::write(&out, o).expect("write result") }
}

//! Exploration driver and JSON reporting.
use crate::exec::*;
use crate::mem::Heap;
use crate::Opts;
use rustc_middle::ty::Instance;
use std::collections::BTreeMap;
use std::io::Write;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\r' => o.push_str("\\r"), '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[derive(Default)]
struct Acc {
    done: u64,
    killed: u64,
    viol: BTreeMap<String, (u64, Vec<String>)>,
    errs: BTreeMap<String, (u64, String, Vec<Vec<u8>>)>,
    wit: Vec<String>,
    reached: BTreeMap<u32, u64>,
    path_checks: u64,
    timeout: bool,
}

fn finish<'tcx>(it: &mut Interp<'tcx>, st: &mut State, stop: Stop, acc: &mut Acc, o: &Opts) {
    for r in &st.reached { *acc.reached.entry(*r).or_default() += 1; }
    let verdict = |it: &mut Interp<'tcx>, st: &mut State| -> Option<Vec<u8>> {
        // the solver decides the complete path condition; its model is the witness
        let mut cs = st.pc.clone();
        cs.sort_unstable();
        cs.dedup();
        let m = it.solver.check(&it.pool, &cs)?;
        let mut v = st.model.clone();
        for (k, x) in m { v[k as usize] = x; }
        Some(v)
    };
    match stop {
        Stop::Kill => acc.killed += 1,
        Stop::Done => {
            acc.path_checks += 1;
            match verdict(it, st) {
                None => { acc.errs.entry("infeasible path completed".into()).or_insert((0, String::new(), vec![])).0 += 1; }
                Some(v) => {
                    acc.done += 1;
                    // keep a spread of witnesses (reservoir on the path count)
                    let n = acc.done as usize;
                    let slot = if acc.wit.len() < o.keep { Some(acc.wit.len()) } else {
                        let h = (n as u64).wrapping_mul(0x9E3779B97F4A7C15) >> 33;
                        let k = h as usize % n; if k < o.keep { Some(k) } else { None } };
                    if let Some(k) = slot {
                        let mut notes = vec![];
                        for (b, s) in &st.notes {
                            let mut b = b.clone();
                            for (off, e) in s { let mut memo = Default::default(); b[*off as usize] = it.pool.eval(*e, &v, &mut memo) as u8; }
                            notes.push(esc(&String::from_utf8_lossy(&b)));
                        }
                        let w = format!("{{\"vector\":{:?},\"notes\":[{}],\"steps\":{}}}", v, notes.join(","), st.steps);
                        if k < acc.wit.len() { acc.wit[k] = w } else { acc.wit.push(w) }
                    }
                }
            }
        }
        Stop::Panic(m) => {
            acc.path_checks += 1;
            match verdict(it, st) {
                None => { acc.errs.entry("infeasible path panicked".into()).or_insert((0, String::new(), vec![])).0 += 1; }
                Some(v) => {
                    let bt = it.backtrace(st);
                    // dedup by message and the first frame outside the standard library
                    let site = bt.iter().find(|f| !f.starts_with("core::") && !f.starts_with("std::") && !f.starts_with("alloc::") && !f.starts_with("harness::oracle::check") && !f.starts_with('<')).cloned().unwrap_or_default();
                    let key = format!("{m} @ {site}");
                    let e = acc.viol.entry(key).or_insert((0, vec![]));
                    e.0 += 1;
                    if e.1.len() < o.max_viol {
                        let mut notes = vec![];
                        for (b, s) in &st.notes {
                            let mut b = b.clone();
                            for (off, x) in s { let mut memo = Default::default(); b[*off as usize] = it.pool.eval(*x, &v, &mut memo) as u8; }
                            notes.push(esc(&String::from_utf8_lossy(&b)));
                        }
                        let bts: Vec<String> = bt.iter().take(25).map(|s| esc(s)).collect();
                        e.1.push(format!("{{\"vector\":{:?},\"notes\":[{}],\"backtrace\":[{}]}}", v, notes.join(","), bts.join(",")));
                    }
                }
            }
        }
        Stop::Err(m) => {
            let bt = it.backtrace(st);
            let v = verdict(it, st);
            let e = acc.errs.entry(m).or_insert((0, bt.iter().take(20).cloned().collect::<Vec<_>>().join("\n    "), vec![]));
            e.0 += 1;
            if e.2.len() < 8 { e.2.extend(v); }
        }
        Stop::Yield | Stop::Park => {}
        Stop::MergeRet => { acc.errs.entry("stray merge return".into()).or_insert((0, String::new(), vec![])).0 += 1; }
    }
}

fn json(it: &Interp<'_>, acc: &Acc) -> String {
    let mut fns: Vec<&str> = vec![];
    let mut total = 0;
    for f in &it.fns {
        if let FnKind::Body(_) = f.kind { total += 1; if f.name.contains("pyo3_bindgen") { fns.push(&f.name); } }
    }
    fns.sort();
    fns.dedup();
    let mut s = String::from("{");
    s += &format!("\"paths_done\":{},\"paths_killed\":{},\"timeout\":{},", acc.done, acc.killed, acc.timeout);
    s += &format!("\"steps\":{},\"forks\":{},\"domain_decisions\":{},\"merges\":{},\"merge_paths\":{},", it.stats.steps, it.stats.forks, it.stats.decided_by_domain, it.stats.merges, it.stats.merge_paths);
    s += &format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_ms\":{},\"path_checks\":{},", it.solver.queries, it.solver.sat, it.solver.unsat, it.solver.cache_hits, it.solver.time.as_millis(), acc.path_checks);
    s += &format!("\"exprs\":{},\"functions_total\":{},", it.pool.len(), total);
    s += &format!("\"functions\":[{}],", fns.iter().map(|f| esc(f)).collect::<Vec<_>>().join(","));
    s += &format!("\"reached\":{{{}}},", acc.reached.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    s += &format!("\"violations\":[{}],", acc.viol.iter().map(|(k, (n, v))| format!("{{\"what\":{},\"count\":{},\"cases\":[{}]}}", esc(k), n, v.join(","))).collect::<Vec<_>>().join(","));
    s += &format!("\"errors\":[{}],", acc.errs.iter().map(|(k, (n, b, v))| format!("{{\"what\":{},\"count\":{},\"backtrace\":{},\"vectors\":{:?}}}", esc(k), n, esc(b), v)).collect::<Vec<_>>().join(","));
    s += &format!("\"witnesses\":[{}]", acc.wit.join(","));
    s += "}";
    s
}

pub fn explore<'tcx>(it: &mut Interp<'tcx>, entry: Instance<'tcx>, o: &Opts) -> i32 {
    let t0 = std::time::Instant::now();
    let mut st = State::new();
    st.heap = Heap::new();
    let f = it.fn_id(entry);
    let body = match it.fn_kind(f) { Ok(FnKind::Body(b)) => b, _ => { eprintln!("entry has no body"); return 2; } };
    it.push_frame(&mut st, body, &[], stack_addr(0, 0), 0, None).unwrap();
    it.work.push(st);
    let mut acc = Acc::default();
    // breadth-first until there is enough work to distribute
    let mut queue: std::collections::VecDeque<State> = Default::default();
    queue.extend(it.work.drain(..));
    let want = if o.jobs > 1 { o.seeds } else { 0 };
    // states that run for long without a fork wait until the work is distributed
    let mut parked: Vec<State> = vec![];
    while let Some(mut s) = queue.pop_front() {
        if want == 0 { it.work.push(s); it.work.extend(queue.drain(..)); break; }
        it.yield_on_fork = true;
        it.park_at = it.stats.steps + 150_000;
        let stop = it.run(&mut s);
        it.yield_on_fork = false;
        queue.extend(it.work.drain(..));
        match stop {
            Stop::Yield => queue.push_back(s),
            Stop::Park => parked.push(s),
            _ => finish(it, &mut s, stop, &mut acc, o),
        }
        if queue.len() + parked.len() >= want { break; }
        if queue.is_empty() && parked.len() < o.jobs && !parked.is_empty() && it.stats.steps < 40_000_000 { queue.extend(parked.drain(..)); }
        if t0.elapsed().as_secs() > o.time_limit { acc.timeout = true; break; }
    }
    queue.extend(parked);
    if o.jobs <= 1 || queue.is_empty() {
        while let Some(mut s) = it.work.pop() {
            let stop = it.run(&mut s);
            finish(it, &mut s, stop, &mut acc, o);
            if t0.elapsed().as_secs() > o.time_limit { acc.timeout = true; break; }
        }
        std::fs::write(format!("{}.0", o.out), json(it, &acc)).unwrap();
        debug_dump(it);
        return 0;
    }
    std::fs::write(format!("{}.0", o.out), json(it, &acc)).unwrap();
    let base_acc = std::mem::take(&mut acc);
    drop(base_acc);
    let seeds: Vec<State> = queue.into_iter().collect();
    let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicUsize;
    let ctr = unsafe { &*ctr };
    let mut pids = vec![];
    for j in 0..o.jobs {
        std::io::stdout().flush().ok();
        let p = unsafe { fork() };
        if p == 0 {
            it.stats = Default::default();
            it.solver = crate::solver::Solver::new();
            let mut acc = Acc::default();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                'outer: loop {
                    let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= seeds.len() { break; }
                    it.work.push(seeds[i].clone());
                    while let Some(mut s) = it.work.pop() {
                        let stop = it.run(&mut s);
                        finish(it, &mut s, stop, &mut acc, o);
                        if t0.elapsed().as_secs() > o.time_limit { acc.timeout = true; break 'outer; }
                    }
                }
            }));
            std::fs::write(format!("{}.{}", o.out, j + 1), json(it, &acc)).unwrap();
            if j == 0 { debug_dump(it); }
            unsafe { _exit(if r.is_ok() { 0 } else { 3 }) };
        }
        pids.push(p);
    }
    let mut bad = 0;
    for p in pids { let mut s = 0; unsafe { waitpid(p, &mut s, 0) }; if s != 0 { bad += 1; } }
    if bad > 0 { eprintln!("{bad} workers failed"); return 3; }
    0
}

fn debug_dump(it: &Interp<'_>) {
    if !it.fork_sites.is_empty() {
        let mut v: Vec<_> = it.fork_sites.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(60) { eprintln!("FORK {n:6} {k}"); }
    }
    if let Some(p) = &it.profile {
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (k, n) in v.iter().take(60) { eprintln!("PROF {n:9} {}", it.fns[**k as usize].name); }
    }
}

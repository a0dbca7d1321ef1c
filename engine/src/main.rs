#![allow(dead_code)]
//! symex: symbolic execution of a harness entry in an LLVM-IR module, with z3 deciding
//! branches and assertions.  Writes a JSON report.
mod exec;
mod expr;
mod ll;
mod poly;
mod selftest;
mod z3;

use exec::*;
use expr::*;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

#[derive(Default)]
struct Report {
    s: Stats,
    cands: Vec<(String, String, Vec<(u16, bool, u128)>)>,
    cand_total: BTreeMap<String, u64>,
    errors: BTreeMap<String, (u64, String)>,
    funcs: BTreeSet<String>,
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    ztime: f64,
    maxq: f64,
    left: u64,
    samples: Vec<Vec<(u16, bool, u128)>>,
}
fn ser_in(i: &[(u16, bool, u128)]) -> String {
    let v: Vec<String> = i.iter().map(|(w, f, x)| format!("{}:{}:{}", w, *f as u8, x)).collect();
    v.join(",")
}
fn de_in(s: &str) -> Vec<(u16, bool, u128)> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let q: Vec<&str> = x.split(':').collect();
            (q[0].parse().unwrap(), q[1] == "1", q[2].parse().unwrap())
        })
        .collect()
}
fn js_in(i: &[(u16, bool, u128)]) -> String {
    let v: Vec<String> = i.iter().map(|(w, f, x)| format!("[{}, {}, \"{}\"]", w, *f as u8, x)).collect();
    format!("[{}]", v.join(", "))
}

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

impl Report {
    fn from(e: &Eng, errors: &BTreeMap<String, (u64, String)>, left: u64) -> Report {
        let mut r = Report::default();
        let s = &e.st;
        r.s = Stats {
            paths: s.paths,
            completed: s.completed,
            panicked_ok: s.panicked_ok,
            assumed_away: s.assumed_away,
            steps: s.steps,
            asserts_trivial: s.asserts_trivial,
            asserts_solver: s.asserts_solver,
            asserts_unknown: s.asserts_unknown,
            dom_decisions: s.dom_decisions,
            forks: s.forks,
            outside: s.outside,
            covers: s.covers.clone(),
            assert_sites: s.assert_sites.clone(),
            undecided: s.undecided.clone(),
            notes: s.notes.clone(),
        };
        for c in &e.cands {
            r.cands.push((c.kind.clone(), c.msg.clone(), c.inputs.clone()));
        }
        r.samples = e.samples.clone();
        for (k, v) in &e.cand_count {
            r.cand_total.insert(k.clone(), *v as u64);
        }
        r.errors = errors.clone();
        for f in &e.funcs {
            r.funcs.insert(e.m.fn_names[*f as usize].to_string());
        }
        r.queries = e.z.queries;
        r.sat = e.z.nsat;
        r.unsat = e.z.nunsat;
        r.unknown = e.z.nunknown;
        r.ztime = e.z.time;
        r.maxq = e.z.maxq;
        r.left = left;
        r
    }
    fn ser(&self) -> String {
        let mut o = String::new();
        let s = &self.s;
        o += &format!("N\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", s.paths, s.completed, s.panicked_ok, s.assumed_away, s.steps, s.asserts_trivial, s.asserts_solver, s.asserts_unknown, s.dom_decisions, s.forks, s.outside);
        o += &format!("Z\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", self.queries, self.sat, self.unsat, self.unknown, self.ztime, self.maxq, self.left);
        for (t, m) in [("C", &s.covers), ("A", &s.assert_sites), ("U", &s.undecided), ("O", &s.notes), ("T", &self.cand_total)] {
            for (k, v) in m {
                o += &format!("{}\t{}\t{}\n", t, v, esc(k));
            }
        }
        for (k, (n, d)) in &self.errors {
            o += &format!("E\t{}\t{}\t{}\n", n, esc(k), esc(d));
        }
        for f in &self.funcs {
            o += &format!("F\t{}\n", f);
        }
        for (k, m, i) in &self.cands {
            o += &format!("V\t{}\t{}\t{}\n", esc(k), esc(m), ser_in(i));
        }
        for i in &self.samples {
            o += &format!("W\t{}\n", ser_in(i));
        }
        o += "DONE\n";
        o
    }
    fn merge(&mut self, t: &str) -> bool {
        let mut done = false;
        for l in t.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            let u = |i: usize| p[i].parse::<u64>().unwrap_or(0);
            match p[0] {
                "N" => {
                    let s = &mut self.s;
                    s.paths += u(1);
                    s.completed += u(2);
                    s.panicked_ok += u(3);
                    s.assumed_away += u(4);
                    s.steps += u(5);
                    s.asserts_trivial += u(6);
                    s.asserts_solver += u(7);
                    s.asserts_unknown += u(8);
                    s.dom_decisions += u(9);
                    s.forks += u(10);
                    s.outside += u(11);
                }
                "Z" => {
                    self.queries += u(1);
                    self.sat += u(2);
                    self.unsat += u(3);
                    self.unknown += u(4);
                    self.ztime += p[5].parse::<f64>().unwrap_or(0.0);
                    let m = p[6].parse::<f64>().unwrap_or(0.0);
                    if m > self.maxq {
                        self.maxq = m;
                    }
                    self.left += u(7);
                }
                "C" => *self.s.covers.entry(unesc(p[2])).or_insert(0) += u(1),
                "A" => *self.s.assert_sites.entry(unesc(p[2])).or_insert(0) += u(1),
                "U" => *self.s.undecided.entry(unesc(p[2])).or_insert(0) += u(1),
                "O" => *self.s.notes.entry(unesc(p[2])).or_insert(0) += u(1),
                "T" => *self.cand_total.entry(unesc(p[2])).or_insert(0) += u(1),
                "E" => {
                    let e = self.errors.entry(unesc(p[2])).or_insert((0, unesc(p[3])));
                    e.0 += u(1);
                }
                "F" => {
                    self.funcs.insert(p[1].to_string());
                }
                "V" => {
                    let v = de_in(p[3]);
                    self.cands.push((unesc(p[1]), unesc(p[2]), v));
                }
                "W" => self.samples.push(de_in(p[1])),
                "DONE" => done = true,
                _ => {}
            }
        }
        done
    }
    fn json(&self, head: &str, wall: f64) -> String {
        let s = &self.s;
        let map = |m: &BTreeMap<String, u64>| -> String {
            let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            format!("{{{}}}", v.join(", "))
        };
        let errs: Vec<String> = self.errors.iter().map(|(k, (n, d))| format!("{{\"error\": {}, \"count\": {}, \"detail\": {}}}", js(k), n, js(d))).collect();
        let fns: Vec<String> = self.funcs.iter().map(|f| js(f)).collect();
        let cands: Vec<String> = self
            .cands
            .iter()
            .map(|(k, m, i)| {
                format!("{{\"kind\": {}, \"msg\": {}, \"inputs\": {}}}", js(k), js(m), js_in(i))
            })
            .collect();
        format!(
            "{{{},\n\"paths\": {}, \"completed\": {}, \"expected_panics\": {}, \"assumed_away\": {}, \"steps\": {}, \"asserts_by_rewriting\": {}, \"asserts_by_solver\": {}, \"asserts_unknown\": {}, \"domain_decisions\": {}, \"forks\": {}, \"paths_outside_model\": {},\n\"queries\": {}, \"sat\": {}, \"unsat\": {}, \"unknown\": {}, \"solver_time\": {:.3}, \"max_query_time\": {:.3}, \"unexplored\": {}, \"wall\": {:.2},\n\"covers\": {},\n\"assert_sites\": {},\n\"undecided\": {},\n\"notes\": {},\n\"candidate_counts\": {},\n\"errors\": [{}],\n\"candidates\": [{}],\n\"samples\": [{}],\n\"functions\": [{}]}}\n",
            head, s.paths, s.completed, s.panicked_ok, s.assumed_away, s.steps, s.asserts_trivial, s.asserts_solver, s.asserts_unknown, s.dom_decisions, s.forks, s.outside, self.queries, self.sat, self.unsat, self.unknown, self.ztime, self.maxq, self.left, wall,
            map(&s.covers), map(&s.assert_sites), map(&s.undecided), map(&s.notes), map(&self.cand_total), errs.join(", "), cands.join(",\n"), self.samples.iter().map(|i| js_in(i)).collect::<Vec<_>>().join(",\n"), fns.join(",\n")
        )
    }
}

fn run_one(e: &mut Eng, mut st: State, errors: &mut BTreeMap<String, (u64, String)>) {
    let r = catch_unwind(AssertUnwindSafe(|| e.run_state(&mut st)));
    if let Err(p) = r {
        let bt = st.frames.iter().map(|f| f.f.name.to_string()).collect::<Vec<_>>().join(" -> ");
        let m = if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "unknown".into()
        };
        let en = errors.entry(m).or_insert((0, bt));
        en.0 += 1;
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| -> Option<String> { args.iter().position(|a| a == k).map(|i| args[i + 1].clone()) };
    if args.iter().any(|a| a == "--selftest") {
        let n = opt("--n").map_or(20000, |x| x.parse().unwrap());
        std::process::exit(selftest::run(n));
    }
    let ll = opt("--ll").expect("--ll");
    let entry = opt("--entry").expect("--entry");
    let mode = match opt("--mode").as_deref() {
        Some("fp") => Mode::Fp,
        Some("real") => Mode::Real,
        _ => Mode::Uf,
    };
    let jobs: usize = opt("--jobs").map_or(8, |x| x.parse().unwrap());
    let frontier: usize = opt("--frontier").map_or(if mode == Mode::Real { jobs * 6 } else { jobs * 60 }, |x| x.parse().unwrap());
    let rlimit: u32 = opt("--rlimit").map_or(50_000_000, |x| x.parse().unwrap());
    let tl: f64 = opt("--time").map_or(1e9, |x| x.parse().unwrap());
    let out = opt("--out").unwrap_or("/dev/stdout".into());
    let verbose = args.iter().any(|a| a == "-v");
    let t0 = Instant::now();
    if !verbose {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let m = ll::Module::load(&ll);
    if verbose {
        eprintln!("loaded {:.2}s", t0.elapsed().as_secs_f64());
    }
    let qt: u32 = opt("--query-timeout").map_or(if mode == Mode::Uf { 30_000 } else { 8_000 }, |x| x.parse().unwrap());
    z3::TIMEOUT.store(qt, Ordering::Relaxed);
    let mut e = Eng::new(&m, mode, rlimit);
    e.tier = opt("--tier").map_or(0, |x| x.parse().unwrap());
    e.max_steps = opt("--max-steps").map_or(20_000_000, |x| x.parse().unwrap());
    e.nodomain = args.iter().any(|a| a == "--no-domain");
    e.z.dump = opt("--dump");
    for (i, a) in args.iter().enumerate() {
        if a == "--param" {
            let (k, v) = args[i + 1].split_once('=').unwrap();
            e.params.insert(k.parse().unwrap(), v.parse().unwrap());
        }
    }
    e.start(&entry);
    let mut errors = BTreeMap::new();
    // breadth-first until there is enough work to share
    let mut q: std::collections::VecDeque<State> = std::mem::take(&mut e.work).into();
    let want = if jobs > 1 { frontier } else { usize::MAX };
    let dfs = jobs <= 1;
    let stop = |errors: &BTreeMap<String, (u64, String)>| -> bool { t0.elapsed().as_secs_f64() > tl || errors.values().map(|x| x.0).sum::<u64>() > 50 };
    while !q.is_empty() && q.len() < want && !stop(&errors) {
        let st = if dfs { q.pop_back().unwrap() } else { q.pop_front().unwrap() };
        run_one(&mut e, st, &mut errors);
        q.extend(std::mem::take(&mut e.work));
    }
    let mut rep = Report::from(&e, &errors, 0);
    let left = q.len() as u64;
    if !q.is_empty() && jobs > 1 && !stop(&errors) {
        if verbose {
            eprintln!("frontier {} at {:.2}s", q.len(), t0.elapsed().as_secs_f64());
        }
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const AtomicU64;
        let ctr = unsafe { &*shared };
        let dir = std::env::temp_dir().join(format!("symex{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        let mut states: Vec<Option<State>> = q.into_iter().map(Some).collect();
        let mut pids = vec![];
        for j in 0..jobs {
            let p = unsafe { fork() };
            if p == 0 {
                // worker
                let old = std::mem::replace(&mut e.z, z3::Z3::new(rlimit));
                e.z.dump = old.dump.clone();
                std::mem::forget(old);
                e.st = Stats::default();
                e.cands.clear();
                e.samples.clear();
                e.next_sample = 1;
                e.cand_count.clear();
                e.work.clear();
                let mut errors = BTreeMap::new();
                let mut left = 0u64;
                loop {
                    let i = ctr.fetch_add(1, Ordering::SeqCst) as usize;
                    if i >= states.len() {
                        break;
                    }
                    if stop(&errors) {
                        left += 1;
                        continue;
                    }
                    let mut w = vec![states[i].take().unwrap()];
                    while let Some(st) = w.pop() {
                        run_one(&mut e, st, &mut errors);
                        w.extend(std::mem::take(&mut e.work));
                        if stop(&errors) {
                            left += w.len() as u64;
                            break;
                        }
                    }
                }
                let r = Report::from(&e, &errors, left);
                std::fs::write(dir.join(format!("{}", j)), r.ser()).ok();
                unsafe { _exit(0) }
            }
            pids.push(p);
        }
        for p in pids {
            let mut s = 0;
            unsafe { waitpid(p, &mut s, 0) };
        }
        let mut cnt = 0;
        for j in 0..jobs {
            let t = std::fs::read_to_string(dir.join(format!("{}", j))).unwrap_or_default();
            if rep.merge(&t) {
                cnt += 1;
            }
        }
        std::fs::remove_dir_all(&dir).ok();
        if cnt != jobs {
            rep.errors.insert(format!("{} of {} workers died", jobs - cnt, jobs), (1, String::new()));
        }
    } else {
        rep.left = left;
    }
    let wall = t0.elapsed().as_secs_f64();
    let head = format!("\"entry\": {}, \"mode\": {}, \"tier\": {}, \"solver\": {}", js(&entry), js(&format!("{:?}", mode)), e.tier, js(&z3::version()));
    std::fs::write(&out, rep.json(&head, wall)).unwrap();
    if verbose {
        eprintln!("{} paths, {} queries, {:.1}s solver, {:.1}s wall, errors {:?}", rep.s.paths, rep.queries, rep.ztime, wall, rep.errors);
    }
    let code = if !rep.errors.is_empty() || rep.left > 0 { 2 } else if !rep.cands.is_empty() { 1 } else { 0 };
    unsafe { _exit(code) }
}

//! Exhaustive path exploration: run, negate every recorded branch, repeat.

use crate::solver::{Res, Solver, Stats};
use crate::{begin, end, Ctx, Exp, Input, Item, Stop, R};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Harness {
    pub name: &'static str,
    pub f: fn(),
    pub max_paths: usize,
    pub fuel: u64,
    pub max_branches: usize,
    /// labels that some path must reach
    pub covers: &'static [&'static str],
}

#[derive(Clone)]
pub struct Config {
    pub workers: usize,
    pub timeout_ms: u64,
    pub fallback_ms: u64,
    pub deadline_s: u64,
    pub hang_s: u64,
    pub max_obligations: usize,
}

struct Task {
    h: usize,
    model: BTreeMap<String, R>,
    expected: Vec<Exp>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub message: String,
    pub inputs: Vec<(String, R)>,
}

#[derive(Default, Clone)]
pub struct HReport {
    pub name: String,
    pub paths: usize,
    pub assumed_away: usize,
    pub branches: usize,
    pub check_branches: usize,
    pub checks: usize,
    pub folded: usize,
    pub folded_checks: usize,
    pub concretizations: usize,
    pub ops: u64,
    pub stats: Stats,
    pub covers: BTreeSet<String>,
    pub missing_covers: Vec<String>,
    pub inputs: BTreeMap<String, (Option<R>, Option<R>)>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub notes: BTreeSet<String>,
    pub obligations: usize,
    pub obligations_unsat: usize,
    pub obligations_unknown: usize,
    pub longest_path: usize,
    pub seconds: f64,
}

#[derive(Default)]
struct WorkerStatus {
    h: usize,
    started: Option<Instant>,
    inputs: Vec<(String, R)>,
}

/// pending paths per harness; the harness that has had the least time goes next, so a
/// hard one cannot starve the others
struct Queue {
    tasks: Vec<Vec<Task>>,
    spent: Vec<f64>,
    active: Vec<usize>,
    running: usize,
    rng: u64,
}

impl Queue {
    fn take(&mut self) -> Option<Task> {
        let key = |q: &Queue, h: usize| q.spent[h] + q.active[h] as f64;
        let h = (0..self.tasks.len())
            .filter(|h| !self.tasks[*h].is_empty())
            .min_by(|a, b| key(self, *a).partial_cmp(&key(self, *b)).unwrap())?;
        self.rng = self
            .rng
            .wrapping_mul(6364136223846793005)
            .wrapping_add(1442695040888963407);
        let n = self.tasks[h].len();
        // half depth first, half anywhere: breadth matters when the budget ends early
        let t = if self.rng >> 63 == 0 {
            self.tasks[h].pop().unwrap()
        } else {
            self.tasks[h].swap_remove((self.rng >> 33) as usize % n)
        };
        self.active[h] += 1;
        self.running += 1;
        Some(t)
    }
}

struct Shared {
    queue: Mutex<Queue>,
    cv: Condvar,
    reports: Vec<Mutex<HReport>>,
    stop: Vec<AtomicBool>,
    abort: AtomicBool,
    epoch: AtomicU64,
    oblig_seen: Mutex<HashSet<String>>,
    oblig_count: AtomicUsize,
    status: Vec<Mutex<WorkerStatus>>,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    static WORKER: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

pub fn note_input(i: &Input) {
    WORKER.with(|w| {
        if let Some((s, n)) = &*w.borrow() {
            s.status[*n]
                .lock()
                .unwrap()
                .inputs
                .push((i.name.clone(), i.val.clone()));
        }
    });
}

pub fn run(harnesses: &[Harness], cfg: &Config) -> Vec<HReport> {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("{} [{}]", msg, loc));
        if std::env::var("VERIF_BT").is_ok() {
            eprintln!("{}\n{}", msg, std::backtrace::Backtrace::force_capture());
        }
    }));
    let shared = Arc::new(Shared {
        queue: Mutex::new(Queue {
            tasks: (0..harnesses.len())
                .map(|h| {
                    vec![Task {
                        h,
                        model: BTreeMap::new(),
                        expected: vec![],
                    }]
                })
                .collect(),
            spent: vec![0.0; harnesses.len()],
            active: vec![0; harnesses.len()],
            running: 0,
            rng: 1,
        }),
        cv: Condvar::new(),
        reports: harnesses
            .iter()
            .map(|h| {
                Mutex::new(HReport {
                    name: h.name.into(),
                    ..Default::default()
                })
            })
            .collect(),
        stop: harnesses.iter().map(|_| AtomicBool::new(false)).collect(),
        abort: AtomicBool::new(false),
        epoch: AtomicU64::new(1),
        oblig_seen: Mutex::new(HashSet::new()),
        oblig_count: AtomicUsize::new(0),
        status: (0..cfg.workers)
            .map(|_| Mutex::new(WorkerStatus::default()))
            .collect(),
    });
    let start = Instant::now();
    let done = Arc::new((Mutex::new(0usize), Condvar::new()));
    for w in 0..cfg.workers {
        let shared = shared.clone();
        let hs: Vec<Harness> = harnesses.to_vec();
        let cfg = cfg.clone();
        let done = done.clone();
        std::thread::Builder::new()
            .stack_size(256 << 20)
            .spawn(move || {
                WORKER.with(|x| *x.borrow_mut() = Some((shared.clone(), w)));
                worker(w, &shared, &hs, &cfg, start);
                let mut d = done.0.lock().unwrap();
                *d += 1;
                done.1.notify_all();
            })
            .unwrap();
    }
    // watchdog
    loop {
        let d = done.0.lock().unwrap();
        if *d == cfg.workers {
            break;
        }
        let (d, _) = done.1.wait_timeout(d, Duration::from_millis(500)).unwrap();
        if *d == cfg.workers {
            break;
        }
        drop(d);
        let mut hung = false;
        for s in &shared.status {
            let s = s.lock().unwrap();
            if let Some(t) = s.started {
                if t.elapsed().as_secs() > cfg.hang_s {
                    let mut r = shared.reports[s.h].lock().unwrap();
                    r.violations.push(Violation {
                        kind: "hang".into(),
                        message: format!("no result after {} s", cfg.hang_s),
                        inputs: s.inputs.clone(),
                    });
                    hung = true;
                }
            }
        }
        if hung {
            shared.abort.store(true, Ordering::SeqCst);
            break;
        }
        if start.elapsed().as_secs() > cfg.deadline_s + 120 {
            for r in &shared.reports {
                r.lock()
                    .unwrap()
                    .inconclusive
                    .push("hard deadline reached".into());
            }
            break;
        }
    }
    shared
        .reports
        .iter()
        .zip(harnesses)
        .map(|(r, h)| {
            let mut r = r.lock().unwrap().clone();
            for c in h.covers {
                if !r.covers.contains(*c) {
                    r.missing_covers.push(c.to_string());
                }
            }
            r
        })
        .collect()
}

fn worker(w: usize, sh: &Arc<Shared>, hs: &[Harness], cfg: &Config, start: Instant) {
    let mut solver = Solver::new(cfg.timeout_ms, cfg.fallback_ms);
    loop {
        let task = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.abort.load(Ordering::SeqCst) {
                    return;
                }
                if let Some(t) = q.take() {
                    break t;
                }
                if q.running == 0 {
                    sh.cv.notify_all();
                    return;
                }
                q = sh
                    .cv
                    .wait_timeout(q, Duration::from_millis(200))
                    .unwrap()
                    .0;
            }
        };
        let h = task.h;
        let t0 = Instant::now();
        if !sh.stop[h].load(Ordering::SeqCst) {
            if start.elapsed().as_secs() > cfg.deadline_s {
                sh.stop[h].store(true, Ordering::SeqCst);
                sh.reports[h]
                    .lock()
                    .unwrap()
                    .inconclusive
                    .push(format!("time budget of {} s exhausted", cfg.deadline_s));
            } else {
                process(w, task, sh, hs, cfg, &mut solver);
                sh.reports[h].lock().unwrap().seconds += t0.elapsed().as_secs_f64();
            }
        }
        let mut q = sh.queue.lock().unwrap();
        q.running -= 1;
        q.active[h] -= 1;
        q.spent[h] += t0.elapsed().as_secs_f64();
        sh.cv.notify_all();
    }
}

fn process(
    w: usize,
    task: Task,
    sh: &Arc<Shared>,
    hs: &[Harness],
    cfg: &Config,
    solver: &mut Solver,
) {
    let h = task.h;
    let epoch = sh.epoch.fetch_add(1, Ordering::SeqCst);
    let mut ctx = Ctx::new(epoch, task.model, task.expected.clone());
    ctx.fuel = hs[h].fuel;
    ctx.max_branches = hs[h].max_branches;
    {
        let mut s = sh.status[w].lock().unwrap();
        s.h = h;
        s.started = Some(Instant::now());
        s.inputs.clear();
    }
    begin(ctx);
    let result = catch_unwind(AssertUnwindSafe(hs[h].f));
    let ctx = end();
    sh.status[w].lock().unwrap().started = None;
    let inputs: Vec<(String, R)> = ctx
        .inputs
        .iter()
        .map(|i| (i.name.clone(), i.val.clone()))
        .collect();
    let mut violation = None;
    let mut fatal = None;
    let mut assumed = false;
    if let Err(e) = result {
        match e.downcast::<Stop>() {
            Ok(s) => match *s {
                Stop::Assume => assumed = true,
                Stop::Engine(m) => fatal = Some(format!("engine: {}", m)),
                Stop::Fuel(m) => {
                    violation = Some(Violation {
                        kind: "fuel".into(),
                        message: m,
                        inputs: inputs.clone(),
                    })
                }
            },
            Err(_) => {
                let m = PANIC_MSG.with(|m| m.borrow().clone());
                if m.starts_with("symrt:") {
                    fatal = Some(m);
                } else {
                    violation = Some(Violation {
                        kind: "panic".into(),
                        message: m,
                        inputs: inputs.clone(),
                    })
                }
            }
        }
    }
    if std::env::var("VERIF_TRACE").is_ok() {
        eprintln!(
            "[{}] path branches={} inputs={:?} assumed={} v={:?}",
            hs[h].name,
            ctx.branches,
            inputs
                .iter()
                .map(|(n, v)| format!("{}={}", n, v))
                .collect::<Vec<_>>(),
            assumed,
            violation.as_ref().map(|v| &v.message)
        );
        if std::env::var("VERIF_TRACE").unwrap() == "2" {
            for i in &ctx.items {
                eprintln!("    {:?}", i);
            }
        }
    }
    let paths;
    {
        let mut r = sh.reports[h].lock().unwrap();
        r.paths += 1;
        paths = r.paths;
        r.assumed_away += assumed as usize;
        r.checks += ctx.checks;
        r.folded += ctx.folded;
        r.folded_checks += ctx.folded_checks;
        r.concretizations += ctx.concretizations;
        r.ops += ctx.ops;
        r.longest_path = r.longest_path.max(ctx.branches);
        if !assumed {
            r.covers.extend(ctx.covers.iter().cloned());
        }
        r.notes.extend(ctx.notes.iter().cloned());
        for i in &ctx.inputs {
            r.inputs
                .insert(i.name.clone(), (i.lo.clone(), i.hi.clone()));
        }
        if let Some(d) = &ctx.diverged {
            r.inconclusive.push(format!("divergence: {}", d));
            sh.stop[h].store(true, Ordering::SeqCst);
        }
        if let Some(f) = fatal {
            r.inconclusive.push(f);
            sh.stop[h].store(true, Ordering::SeqCst);
        }
        if let Some(v) = violation {
            r.violations.push(v);
            sh.stop[h].store(true, Ordering::SeqCst);
            return;
        }
        if paths >= hs[h].max_paths {
            r.inconclusive
                .push(format!("more than {} paths", hs[h].max_paths));
            sh.stop[h].store(true, Ordering::SeqCst);
        }
    }
    if sh.stop[h].load(Ordering::SeqCst) {
        return;
    }
    // negate every branch below the bound
    let names: Vec<String> = ctx.inputs.iter().map(|i| i.smt.clone()).collect();
    let before = std::mem::take(&mut solver.stats);
    let mut new_tasks = vec![];
    let mut declared: Vec<String> = vec![];
    solver.push();
    let mut taken_so_far: Vec<Exp> = vec![];
    let mut branch_no = 0usize;
    let mut nbranches = 0;
    let mut ncheck = 0;
    let mut trouble = vec![];
    for item in &ctx.items {
        if sh.stop[h].load(Ordering::SeqCst) || sh.abort.load(Ordering::SeqCst) {
            break;
        }
        match item {
            Item::Decl(n) => {
                declared.push(n.clone());
                solver.cmd(format!("(declare-const {} Int)", n))
            }
            Item::Def(d) => solver.cmd(format!("(assert {})", d)),
            Item::Branch {
                smt,
                taken,
                check,
                multi,
            } => {
                let again = branch_no + 1 == task.expected.len()
                    && matches!(task.expected[branch_no], Exp::NotIn(_));
                if branch_no >= task.expected.len() || again {
                    nbranches += 1;
                    ncheck += *check as usize;
                    solver.push();
                    solver.cmd(if *taken {
                        format!("(assert (not {}))", smt)
                    } else {
                        format!("(assert {})", smt)
                    });
                    for m in multi.iter().flatten() {
                        solver.cmd(format!("(assert (not {}))", m));
                    }
                    let vals: Vec<String> = names
                        .iter()
                        .filter(|n| declared.contains(n))
                        .cloned()
                        .collect();
                    match solver.check(&vals) {
                        (Res::Unsat, _) => {}
                        (Res::Sat, m) => {
                            let mut model = BTreeMap::new();
                            for i in &ctx.inputs {
                                if let Some(v) = m.get(&i.smt) {
                                    model.insert(i.name.clone(), v.clone());
                                }
                            }
                            let mut e = taken_so_far.clone();
                            e.push(match multi {
                                None => Exp::Bool(!*taken),
                                Some(ex) => {
                                    let mut ex = ex.clone();
                                    ex.push(smt.clone());
                                    Exp::NotIn(ex)
                                }
                            });
                            new_tasks.push(Task {
                                h,
                                model,
                                expected: e,
                            });
                        }
                        (Res::Unknown(u), _) => {
                            trouble.push(format!("solver: {} on {}", u, clip(smt)));
                        }
                    }
                    solver.pop();
                }
                solver.cmd(if *taken {
                    format!("(assert {})", smt)
                } else {
                    format!("(assert (not {}))", smt)
                });
                taken_so_far.push(match multi {
                    None => Exp::Bool(*taken),
                    Some(_) => Exp::Is(smt.clone()),
                });
                branch_no += 1;
            }
        }
    }
    solver.pop();
    // cross-check of identities that the normal form settled
    let (mut ob, mut ob_unsat, mut ob_unknown) = (0, 0, 0);
    for o in &ctx.obligations {
        if sh.oblig_count.load(Ordering::SeqCst) >= cfg.max_obligations {
            break;
        }
        if !sh.oblig_seen.lock().unwrap().insert(o.clone()) {
            continue;
        }
        sh.oblig_count.fetch_add(1, Ordering::SeqCst);
        ob += 1;
        solver.push();
        solver.cmd(o.clone());
        let save = solver.fallback_ms;
        solver.fallback_ms = 0;
        match solver.check(&[]).0 {
            Res::Unsat => ob_unsat += 1,
            Res::Sat => trouble.push(format!("normal form refuted by the solver: {}", clip(o))),
            Res::Unknown(_) => {
                ob_unknown += 1;
                solver.stats.unknown -= 1;
            }
        }
        solver.fallback_ms = save;
        solver.pop();
    }
    let stats = std::mem::replace(&mut solver.stats, before);
    {
        let mut r = sh.reports[h].lock().unwrap();
        r.branches += nbranches;
        r.check_branches += ncheck;
        r.stats.add(&stats);
        r.obligations += ob;
        r.obligations_unsat += ob_unsat;
        r.obligations_unknown += ob_unknown;
        if !trouble.is_empty() {
            // go on looking for a violation elsewhere, but no verdict "holds" any more
            if r.inconclusive.len() < 20 {
                r.inconclusive.extend(trouble);
            }
        }
    }
    if !new_tasks.is_empty() {
        let mut q = sh.queue.lock().unwrap();
        for t in new_tasks {
            q.tasks[t.h].push(t);
        }
        sh.cv.notify_all();
    }
}

fn clip(s: &str) -> String {
    if s.len() > 300 {
        format!("{}...", s.chars().take(300).collect::<String>())
    } else {
        s.to_string()
    }
}

// ---------------------------------------------------------------- JSON

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn jlist(v: impl Iterator<Item = String>) -> String {
    format!("[{}]", v.collect::<Vec<_>>().join(","))
}

pub fn report_json(rs: &[HReport]) -> String {
    jlist(rs.iter().map(|r| {
        let b = |x: &Option<R>| x.as_ref().map_or("null".into(), |x| js(&x.to_string()));
        format!(
            "{{\"name\":{},\"paths\":{},\"assumed_away\":{},\"branches\":{},\"check_branches\":{},\"checks\":{},\"folded\":{},\"folded_checks\":{},\"concretizations\":{},\"ops\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fallbacks\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"obligations\":{},\"obligations_unsat\":{},\"obligations_unknown\":{},\"longest_path\":{},\"seconds\":{:.3},\"covers\":{},\"missing_covers\":{},\"inputs\":{{{}}},\"notes\":{},\"inconclusive\":{},\"violations\":{}}}",
            js(&r.name), r.paths, r.assumed_away, r.branches, r.check_branches, r.checks, r.folded, r.folded_checks,
            r.concretizations, r.ops, r.stats.queries, r.stats.sat, r.stats.unsat, r.stats.unknown,
            r.stats.fallbacks, r.stats.seconds, r.stats.max_query_s, r.obligations, r.obligations_unsat,
            r.obligations_unknown, r.longest_path, r.seconds,
            jlist(r.covers.iter().map(|x| js(x))),
            jlist(r.missing_covers.iter().map(|x| js(x))),
            r.inputs.iter().map(|(n, (l, h))| format!("{}:[{},{}]", js(n), b(l), b(h))).collect::<Vec<_>>().join(","),
            jlist(r.notes.iter().map(|x| js(x))),
            jlist(r.inconclusive.iter().map(|x| js(x))),
            jlist(r.violations.iter().map(|v| format!(
                "{{\"kind\":{},\"message\":{},\"inputs\":{{{}}}}}",
                js(&v.kind), js(&v.message),
                v.inputs.iter().map(|(n, v)| format!("{}:{}", js(n), js(&v.to_string()))).collect::<Vec<_>>().join(",")
            )))
        )
    }))
}

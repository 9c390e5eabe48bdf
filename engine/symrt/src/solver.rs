//! SMT-LIB 2 pipe to z3 (incremental), with one-shot fallbacks (z3, cvc5).

use crate::R;
use std::collections::BTreeMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub enum Res {
    Sat,
    Unsat,
    Unknown(String),
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub fallbacks: u64,
    pub seconds: f64,
    pub max_query_s: f64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.queries += o.queries;
        self.sat += o.sat;
        self.unsat += o.unsat;
        self.unknown += o.unknown;
        self.fallbacks += o.fallbacks;
        self.seconds += o.seconds;
        self.max_query_s = self.max_query_s.max(o.max_query_s);
    }
}

struct Proc {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
}

impl Drop for Proc {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

fn spawn(cmd: &str, args: &[String]) -> Proc {
    let mut child = Command::new(cmd)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| panic!("cannot start {}: {}", cmd, e));
    let stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        for l in BufReader::new(stdout).lines() {
            match l {
                Ok(l) => {
                    if tx.send(l).is_err() {
                        break;
                    }
                }
                Err(_) => break,
            }
        }
    });
    Proc { child, stdin, rx }
}

pub struct Solver {
    proc: Option<Proc>,
    /// commands sent so far on the current stack
    stack: Vec<Vec<String>>,
    pub timeout_ms: u64,
    pub fallback_ms: u64,
    pub stats: Stats,
}

pub fn z3_cmd() -> String {
    std::env::var("VERIF_Z3").unwrap_or_else(|_| "z3-new".into())
}

impl Solver {
    pub fn new(timeout_ms: u64, fallback_ms: u64) -> Solver {
        Solver {
            proc: None,
            stack: vec![vec![]],
            timeout_ms,
            fallback_ms,
            stats: Stats::default(),
        }
    }
    fn raw(&mut self, s: &str) {
        if let Some(p) = &mut self.proc {
            if writeln!(p.stdin, "{}", s).is_err() {
                self.proc = None;
            }
        }
    }
    fn ensure(&mut self) {
        if self.proc.is_some() {
            return;
        }
        let mut p = spawn(&z3_cmd(), &["-in".into(), "-smt2".into()]);
        let mut init = String::new();
        init.push_str(&format!("(set-option :timeout {})\n", self.timeout_ms));
        for (i, f) in self.stack.iter().enumerate() {
            if i > 0 {
                init.push_str("(push)\n");
            }
            for c in f {
                init.push_str(c);
                init.push('\n');
            }
        }
        let _ = p.stdin.write_all(init.as_bytes());
        self.proc = Some(p);
    }
    pub fn push(&mut self) {
        self.stack.push(vec![]);
        self.raw("(push)");
    }
    pub fn pop(&mut self) {
        self.stack.pop();
        self.raw("(pop)");
    }
    pub fn cmd(&mut self, s: String) {
        self.raw(&s);
        self.stack.last_mut().unwrap().push(s);
    }
    fn read_until(&mut self, marker: &str, limit: Duration) -> Result<Vec<String>, String> {
        let p = match &mut self.proc {
            Some(p) => p,
            None => return Err("solver died".into()),
        };
        if p.stdin.flush().is_err() {
            return Err("solver died".into());
        }
        let end = Instant::now() + limit;
        let mut out = vec![];
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match p.rx.recv_timeout(left) {
                Ok(l) => {
                    if l.trim() == marker {
                        return Ok(out);
                    }
                    out.push(l);
                }
                Err(RecvTimeoutError::Timeout) => return Err("timeout".into()),
                Err(RecvTimeoutError::Disconnected) => return Err("solver died".into()),
            }
        }
    }
    /// check-sat with values of the named constants if sat
    pub fn check(&mut self, values: &[String]) -> (Res, BTreeMap<String, R>) {
        let t = Instant::now();
        self.stats.queries += 1;
        let (mut res, mut model) = self.check_incremental(values);
        if let Res::Unknown(_) = res {
            self.stats.fallbacks += 1;
            let r = self.check_fallback(values);
            res = r.0;
            model = r.1;
        }
        match &res {
            Res::Sat => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown(_) => self.stats.unknown += 1,
        }
        let s = t.elapsed().as_secs_f64();
        self.stats.seconds += s;
        self.stats.max_query_s = self.stats.max_query_s.max(s);
        (res, model)
    }
    fn check_incremental(&mut self, values: &[String]) -> (Res, BTreeMap<String, R>) {
        self.ensure();
        self.raw("(check-sat)\n(echo \"<<done>>\")");
        let limit = Duration::from_millis(self.timeout_ms * 2 + 2000);
        let out = match self.read_until("<<done>>", limit) {
            Ok(o) => o,
            Err(e) => {
                self.proc = None;
                return (Res::Unknown(e), BTreeMap::new());
            }
        };
        match parse_answer(&out) {
            Res::Sat => {
                if values.is_empty() {
                    return (Res::Sat, BTreeMap::new());
                }
                self.raw(&format!(
                    "(get-value ({}))\n(echo \"<<done>>\")",
                    values.join(" ")
                ));
                match self.read_until("<<done>>", limit) {
                    Ok(o) => match parse_values(&o.join(" ")) {
                        Some(m) => (Res::Sat, m),
                        None => (Res::Unknown(format!("model: {}", o.join(" "))), BTreeMap::new()),
                    },
                    Err(e) => {
                        self.proc = None;
                        (Res::Unknown(e), BTreeMap::new())
                    }
                }
            }
            r => (r, BTreeMap::new()),
        }
    }
    /// the current assertion stack as one script
    pub fn script(&self) -> String {
        let mut s = String::new();
        for f in &self.stack {
            for c in f {
                s.push_str(c);
                s.push('\n');
            }
        }
        s
    }
    fn check_fallback(&mut self, values: &[String]) -> (Res, BTreeMap<String, R>) {
        let ms = self.fallback_ms;
        if ms == 0 {
            return (Res::Unknown("incremental solver gave up".into()), BTreeMap::new());
        }
        let script = self.script();
        if let Ok(dir) = std::env::var("VERIF_DUMP") {
            static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
            let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            let _ = std::fs::write(
                format!("{}/q{}.smt2", dir, n),
                format!("(set-logic ALL)\n{}(check-sat)\n", script),
            );
        }
        let gv = if values.is_empty() {
            String::new()
        } else {
            format!("(get-value ({}))\n", values.join(" "))
        };
        // several configurations side by side; the first definite answer counts
        let mut configs: Vec<(String, Vec<String>, String)> = vec![
            (
                z3_cmd(),
                vec!["-in".into(), "-smt2".into(), format!("-t:{}", ms)],
                format!("{}(check-sat)\n{}(exit)\n", script, gv),
            ),
            (
                "cvc5".into(),
                vec![
                    "--lang=smt2".into(),
                    "--produce-models".into(),
                    format!("--tlimit={}", ms),
                    "-".into(),
                ],
                format!("(set-logic ALL)\n{}(check-sat)\n{}(exit)\n", script, gv),
            ),
            (
                z3_cmd(),
                vec!["-in".into(), "-smt2".into(), format!("-t:{}", ms)],
                format!(
                    "{}(check-sat-using (then simplify propagate-values solve-eqs (or-else (try-for qfnra-nlsat 3000) smt)))\n{}(exit)\n",
                    script, gv
                ),
            ),
        ];
        let definite = configs.len();
        // small boxes around the origin: only an answer "sat" counts
        if !values.is_empty() {
            for b in [6, 40] {
                let mut sc = script.clone();
                for v in values {
                    sc.push_str(&format!("(assert (and (<= (- {b}) {v}) (<= {v} {b})))\n"));
                }
                configs.push((
                    z3_cmd(),
                    vec!["-in".into(), "-smt2".into(), format!("-t:{}", ms)],
                    format!("{}(check-sat-using (or-else (try-for qfnia 8000) smt))\n{}(exit)\n", sc, gv),
                ));
            }
        }
        let mut procs = vec![];
        for (c, a, input) in &configs {
            let mut p = spawn(c, a);
            let _ = p.stdin.write_all(input.as_bytes());
            let _ = p.stdin.flush();
            procs.push((p, vec![], false));
        }
        let end = Instant::now() + Duration::from_millis(ms * 2 + 3000);
        let mut reason = String::from("all solvers gave up");
        loop {
            let mut alive = false;
            for (no, (p, out, finished)) in procs.iter_mut().enumerate() {
                if *finished {
                    continue;
                }
                loop {
                    match p.rx.try_recv() {
                        Ok(l) => out.push(l),
                        Err(std::sync::mpsc::TryRecvError::Empty) => break,
                        Err(std::sync::mpsc::TryRecvError::Disconnected) => {
                            *finished = true;
                            break;
                        }
                    }
                }
                if *finished {
                    match parse_answer(out) {
                        Res::Unsat if no >= definite => {}
                        Res::Unsat => return (Res::Unsat, BTreeMap::new()),
                        Res::Sat => {
                            if values.is_empty() {
                                return (Res::Sat, BTreeMap::new());
                            }
                            let at = out.iter().position(|l| l.trim() == "sat").unwrap();
                            if let Some(m) = parse_values(&out[at + 1..].join(" ")) {
                                return (Res::Sat, m);
                            }
                        }
                        Res::Unknown(r) => reason = r,
                    }
                } else {
                    alive = true;
                }
            }
            if !alive || Instant::now() > end {
                return (Res::Unknown(reason), BTreeMap::new());
            }
            std::thread::sleep(Duration::from_millis(2));
        }
    }
}

fn parse_answer(out: &[String]) -> Res {
    let mut ans = None;
    for l in out {
        let l = l.trim();
        match l {
            "sat" => ans = Some(Res::Sat),
            "unsat" => ans = Some(Res::Unsat),
            "unknown" | "timeout" => ans = Some(Res::Unknown(l.into())),
            _ => {
                // after unsat a one-shot get-value legitimately fails
                if l.starts_with("(error") && ans != Some(Res::Unsat) {
                    return Res::Unknown(l.into());
                }
            }
        }
    }
    ans.unwrap_or_else(|| Res::Unknown("no answer".into()))
}

/// ((x 1) (y (- 2)))
fn parse_values(s: &str) -> Option<BTreeMap<String, R>> {
    let s = s.replace('(', " ( ").replace(')', " ) ");
    let t: Vec<&str> = s.split_whitespace().collect();
    let mut m = BTreeMap::new();
    let mut i = 0;
    if *t.get(i)? != "(" {
        return None;
    }
    i += 1;
    while *t.get(i)? == "(" {
        let name = t.get(i + 1)?.to_string();
        i += 2;
        let v: R;
        if *t.get(i)? == "(" {
            if *t.get(i + 1)? != "-" {
                return None;
            }
            v = -(t.get(i + 2)?.parse::<R>().ok()?);
            i += 4;
        } else {
            v = t.get(i)?.parse::<R>().ok()?;
            i += 1;
        }
        if *t.get(i)? != ")" {
            return None;
        }
        i += 1;
        m.insert(name, v);
    }
    Some(m)
}

//! One long-lived SMT solver process, spoken to in SMT-LIB2 over a pipe.
use std::io::{BufRead, BufReader, BufWriter, Read, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Sat,
    Unsat,
    Unknown,
}
pub struct Solver {
    child: Child,
    inp: BufWriter<ChildStdin>,
    out: BufReader<ChildStdout>,
    pub queries: u64,
    pub time: Duration,
    pub log: Option<std::fs::File>,
    /// reported a failure that leaves its state in doubt
    pub tainted: bool,
    /// what is declared and, level by level, asserted at the moment: kept for a second opinion
    shadow: Option<Shadow>,
    /// answers that came from the second opinion
    pub second: u64,
}
struct Shadow {
    logic: &'static str,
    decls: String,
    levels: Vec<String>,
}
impl Shadow {
    fn see(&mut self, s: &str) {
        if s.starts_with("(declare") {
            self.decls.push_str(s);
            self.decls.push('\n');
        } else if s.starts_with("(assert") {
            let l = self.levels.last_mut().unwrap();
            l.push_str(s);
            l.push('\n');
        } else if s == "(push)" {
            self.levels.push(String::new());
        } else if s.starts_with("(pop") {
            let n = s[4..s.len() - 1].trim().parse().unwrap_or(1);
            let keep = self.levels.len().saturating_sub(n).max(1);
            self.levels.truncate(keep);
        }
    }
    /// The same assertions, put to fresh one-shot solvers: an incremental solver sometimes stalls
    /// on linear problems which these settle at once.
    fn unsat(&self) -> bool {
        let text = format!("(set-logic {})\n{}{}(check-sat)\n", self.logic, self.decls, self.levels.concat());
        let bin = BIN.with(|b| b.clone());
        let z: [&str; 5] = [&bin, "-in", "-T:8", "-memory:3000", "smt.arith.solver=2"];
        let c: [&str; 4] = ["cvc5", "--lang=smt2", "--tlimit=12000", "-q"];
        for cmd in [&z[..], &c[..]] {
            let Ok(mut child) = Command::new(cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() else { continue };
            let _ = child.stdin.take().unwrap().write_all(text.as_bytes());
            let Ok(out) = child.wait_with_output() else { continue };
            match String::from_utf8_lossy(&out.stdout).trim() {
                "unsat" => return true,
                "sat" => return false,
                _ => (),
            }
        }
        false
    }
}
pub fn solver_bin() -> String {
    std::env::var("SX_Z3").unwrap_or_else(|_| {
        for p in ["z3-new", "z3"] {
            if let Ok(o) = Command::new(p).arg("--version").output() {
                if o.status.success() {
                    return p.to_string();
                }
            }
        }
        "z3".into()
    })
}
pub fn version() -> String {
    Command::new(solver_bin()).arg("--version").output().map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string()).unwrap_or_default()
}
thread_local! { static BIN: String = solver_bin(); }
impl Solver {
    pub fn new() -> Solver {
        let bin = BIN.with(|b| b.clone());
        let mut child = Command::new(&bin)
            .args(["-in", "-memory:3000"])
            .args(std::env::var("SX_Z3_ARGS").unwrap_or_default().split_whitespace())
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| crate::engine::engine_error(&format!("cannot start {bin}: {e}")));
        let inp = BufWriter::with_capacity(1 << 16, child.stdin.take().unwrap());
        let out = BufReader::with_capacity(1 << 16, child.stdout.take().unwrap());
        let log = std::env::var("SX_LOG").ok().map(|p| {
            use std::sync::atomic::*;
            static N: AtomicUsize = AtomicUsize::new(0);
            std::fs::File::create(format!("{p}.{}", N.fetch_add(1, Ordering::Relaxed))).unwrap()
        });
        Solver { child, inp, out, queries: 0, time: Duration::ZERO, log, tainted: false, shadow: None, second: 0 }
    }
    /// From here on, ask other solvers as well where this one has no answer.
    pub fn keep_shadow(&mut self, logic: &'static str) {
        self.shadow = Some(Shadow { logic, decls: String::new(), levels: vec![String::new()] });
    }
    pub fn send(&mut self, s: &str) {
        if let Some(l) = &mut self.log {
            let _ = writeln!(l, "{s}");
        }
        if let Some(h) = &mut self.shadow {
            h.see(s);
        }
        if self.inp.write_all(s.as_bytes()).and_then(|_| self.inp.write_all(b"\n")).is_err() {
            crate::engine::engine_error("solver pipe closed");
        }
    }
    fn line(&mut self) -> String {
        loop {
            let mut s = String::new();
            match self.out.read_line(&mut s) {
                Ok(n) if n > 0 => {
                    if !s.trim().is_empty() {
                        return s.trim().to_string();
                    }
                }
                _ => crate::engine::engine_error("solver died"),
            }
        }
    }
    pub fn check(&mut self) -> Res {
        self.check_cmd("(check-sat)")
    }
    pub fn check_cmd(&mut self, cmd: &str) -> Res {
        let t = Instant::now();
        self.send(cmd);
        let _ = self.inp.flush();
        let l = self.line();
        self.queries += 1;
        let settled = matches!(l.as_str(), "unknown" | "timeout") && self.shadow.as_ref().is_some_and(|h| h.unsat());
        self.time += t.elapsed();
        match l.as_str() {
            "sat" => Res::Sat,
            "unsat" => Res::Unsat,
            "unknown" | "timeout" if settled => {
                self.second += 1;
                Res::Unsat
            }
            "unknown" | "timeout" => Res::Unknown,
            // a tactic that ran out of its time may report it this way; the process is not used again
            o if o.starts_with("(error") && ["canceled", "tactic failed", "timeout", "max. memory"].iter().any(|w| o.contains(w)) => {
                self.tainted = true;
                Res::Unknown
            }
            o => crate::engine::engine_error(&format!("solver said: {o}")),
        }
    }
    /// Read one balanced s-expression.
    pub fn sexpr(&mut self, cmd: &str) -> String {
        self.send(cmd);
        let _ = self.inp.flush();
        let mut s = String::new();
        let mut depth = 0i32;
        let mut b = [0u8; 1];
        loop {
            if self.out.read_exact(&mut b).is_err() {
                crate::engine::engine_error("solver died");
            }
            let c = b[0] as char;
            if depth == 0 && c.is_whitespace() && s.is_empty() {
                continue;
            }
            s.push(c);
            if c == '(' {
                depth += 1
            }
            if c == ')' {
                depth -= 1;
                if depth == 0 {
                    break;
                }
            }
        }
        if s.starts_with("(error") {
            crate::engine::engine_error(&format!("solver said: {s}"));
        }
        s
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
/// Parse `((v1 0.5) (v2 (- (/ 1.0 3.0))) ...)` into name/value pairs.
pub fn parse_values(s: &str) -> Vec<(String, f64)> {
    fn toks(s: &str) -> Vec<String> {
        let mut v = vec![];
        let mut cur = String::new();
        for c in s.chars() {
            if c == '(' || c == ')' || c.is_whitespace() {
                if !cur.is_empty() {
                    v.push(std::mem::take(&mut cur));
                }
                if c == '(' || c == ')' {
                    v.push(c.to_string());
                }
            } else {
                cur.push(c);
            }
        }
        v
    }
    fn val(t: &[String], i: &mut usize) -> f64 {
        if t[*i] == "(" {
            *i += 1;
            let op = t[*i].clone();
            *i += 1;
            let mut args = vec![];
            while t[*i] != ")" {
                args.push(val(t, i));
            }
            *i += 1;
            match op.as_str() {
                "-" if args.len() == 1 => -args[0],
                "-" => args[0] - args[1],
                "/" => args[0] / args[1],
                "+" => args.iter().sum(),
                "*" => args.iter().product(),
                _ => f64::NAN,
            }
        } else {
            let s = t[*i].trim_end_matches('?').to_string();
            *i += 1;
            s.parse::<f64>().unwrap_or(f64::NAN)
        }
    }
    let t = toks(s);
    let mut out = vec![];
    let mut i = 1;
    while i < t.len() && t[i] == "(" {
        i += 1;
        let name = t[i].clone();
        i += 1;
        let v = val(&t, &mut i);
        i += 1;
        out.push((name, v));
    }
    out
}

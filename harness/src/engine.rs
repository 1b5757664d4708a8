//! Runs cases in worker processes, shrinks failures, writes evidence.

use crate::src::{hash_str, mix, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
  Quick,
  Thorough,
}

impl Tier {
  pub fn name(self) -> &'static str {
    if self == Tier::Quick {
      "quick"
    } else {
      "thorough"
    }
  }
}

/// What a case did.
#[derive(Default)]
pub struct Report {
  pub nontrivial: bool,
  pub tags: Vec<String>,
  /// What the case was, written out.
  pub desc: String,
}

impl Report {
  pub fn tag(&mut self, s: impl Into<String>) {
    self.tags.push(s.into());
  }
}

pub struct Fail {
  /// Stable signature: names the kind of failure.
  pub sig: String,
  pub msg: String,
}

impl Fail {
  pub fn new(sig: impl Into<String>, msg: impl Into<String>) -> Self {
    Fail { sig: sig.into(), msg: msg.into() }
  }
}

pub type CaseResult = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
  ($sig:expr, $($arg:tt)*) => {
    return Err($crate::engine::Fail::new($sig, format!($($arg)*)))
  };
}

#[macro_export]
macro_rules! ensure {
  ($cond:expr, $sig:expr, $($arg:tt)*) => {
    if !($cond) {
      return Err($crate::engine::Fail::new($sig, format!($($arg)*)));
    }
  };
}

pub struct Check {
  pub id: &'static str,
  pub rule: &'static str,
  pub assumptions: &'static [&'static str],
  /// Number of cases per tier.
  pub cases: fn(Tier) -> u64,
  /// Runs case `idx`; all choices come from the source.
  pub run: fn(u64, &mut Src, &mut Report) -> CaseResult,
  /// Worker processes.
  pub workers: usize,
  /// Environment of the workers.
  pub env: &'static [(&'static str, &'static str)],
  /// A case that panics breaks the property.
  pub panic_is_violation: bool,
}

const CASE_TIMEOUT: Duration = Duration::from_secs(300);

/// No new case is started after this long (a slow machine explores less).
fn deadline(t: Tier) -> Duration {
  Duration::from_secs(if t == Tier::Quick { 420 } else { 7200 })
}

fn results_line(v: Value) {
  let out = std::io::stdout();
  let mut o = out.lock();
  let _ = writeln!(o, "@@{}", v);
  let _ = o.flush();
}

static LAST_PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

fn normalise(s: &str) -> String {
  // digits vary between runs of the same defect
  let mut out = String::new();
  let mut in_num = false;
  for c in s.chars().take(200) {
    if c.is_ascii_digit() {
      if !in_num {
        out.push('#');
      }
      in_num = true;
    } else {
      in_num = false;
      out.push(if c == '\n' { ' ' } else { c });
    }
  }
  out
}

pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    if std::env::var_os("RVH_VERBOSE").is_some() {
      eprintln!("{info}");
    }
    let msg = info
      .payload()
      .downcast_ref::<&str>()
      .map(|s| s.to_string())
      .or_else(|| info.payload().downcast_ref::<String>().cloned())
      .unwrap_or_else(|| "?".into());
    let (file, line) = info
      .location()
      .map(|l| (l.file().to_string(), l.line()))
      .unwrap_or(("?".into(), 0));
    let mut g = LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
    // keep the first one of a case: later ones are usually echoes
    if g.is_none() {
      let short = file.rsplit("/src/").next().unwrap_or(&file).to_string();
      *g = Some((
        // a panic in the harness itself says nothing about rav1e
        format!(
          "{}:{}:{}",
          if file.starts_with("src/") { "harness" } else { "panic" },
          short,
          normalise(&msg)
        ),
        format!("panic at {}:{}: {}", file, line, msg),
      ));
    }
    if std::env::var_os("RVH_VERBOSE").is_some() {
      eprintln!("panic at {file}:{line}: {msg}");
    }
  }));
}

pub fn take_panic() -> Option<(String, String)> {
  LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).take()
}

/// Runs one case in this process.
pub fn run_local(
  check: &Check, idx: u64, mut src: Src,
) -> (Vec<u64>, Report, Option<Fail>) {
  let mut rep = Report::default();
  let _ = take_panic();
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
    (check.run)(idx, &mut src, &mut rep)
  }));
  let fail = match r {
    Ok(Ok(())) => None,
    Ok(Err(f)) => Some(f),
    Err(_) => {
      let (sig, msg) =
        take_panic().unwrap_or(("panic:?".into(), "panic".into()));
      Some(Fail::new(sig, msg))
    }
  };
  (src.log, rep, fail)
}

pub fn worker(check: &Check, seed: u64) {
  install_panic_hook();
  let stdin = std::io::stdin();
  let mut line = String::new();
  loop {
    line.clear();
    if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
      return;
    }
    let v: Value = serde_json::from_str(&line).unwrap();
    let idx = v["idx"].as_u64().unwrap();
    let src = match v["choices"].as_array() {
      Some(a) => Src::replay(a.iter().map(|x| x.as_u64().unwrap()).collect()),
      None => Src::random(case_seed(check.id, seed, idx)),
    };
    let (log, rep, fail) = run_local(check, idx, src);
    results_line(json!({
      "idx": idx,
      "nt": rep.nontrivial,
      "tags": rep.tags,
      "desc": rep.desc,
      "choices": if fail.is_some() { json!(log) } else { Value::Null },
      "h": hash_str(&format!("{}:{:?}", idx, log)),
      "fail": fail.map(|f| json!({"sig": f.sig, "msg": f.msg})),
    }));
  }
}

fn case_seed(id: &str, seed: u64, idx: u64) -> u64 {
  mix(mix(hash_str(id), seed), idx)
}

struct Proc {
  child: Child,
  stdin: ChildStdin,
  rx: Receiver<String>,
}

enum Answer {
  Line(Value),
  /// The worker died (signal number if any).
  Died(Option<i32>),
  Timeout,
}

impl Proc {
  fn spawn(check: &Check, seed: u64, extra_env: &[(String, String)]) -> Proc {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("worker").arg(check.id).arg(seed.to_string());
    c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(
      if std::env::var_os("RVH_VERBOSE").is_some() {
        Stdio::inherit()
      } else {
        Stdio::null()
      },
    );
    c.env("RAYON_NUM_THREADS", "2");
    c.env_remove("RAV1E_CPU_TARGET");
    for (k, v) in check.env {
      c.env(k, v);
    }
    for (k, v) in extra_env {
      c.env(k, v);
    }
    let mut child = c.spawn().expect("spawn worker");
    let stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || {
      let mut r = BufReader::new(stdout);
      let mut buf = Vec::new();
      loop {
        buf.clear();
        match r.read_until(b'\n', &mut buf) {
          Ok(0) | Err(_) => break,
          Ok(_) => {}
        }
        let line = String::from_utf8_lossy(&buf);
        if let Some(p) = line.find("@@{") {
          if tx.send(line[p + 2..].to_string()).is_err() {
            break;
          }
        }
      }
    });
    Proc { child, stdin, rx }
  }
  fn ask(&mut self, q: Value) -> Answer {
    if writeln!(self.stdin, "{}", q).is_err() {
      return self.died();
    }
    let _ = self.stdin.flush();
    match self.rx.recv_timeout(CASE_TIMEOUT) {
      Ok(l) => Answer::Line(serde_json::from_str(&l).unwrap()),
      Err(RecvTimeoutError::Timeout) => {
        let _ = self.child.kill();
        let _ = self.child.wait();
        Answer::Timeout
      }
      Err(RecvTimeoutError::Disconnected) => self.died(),
    }
  }
  fn died(&mut self) -> Answer {
    use std::os::unix::process::ExitStatusExt;
    let st = self.child.wait().ok();
    Answer::Died(st.and_then(|s| s.signal()))
  }
}

impl Drop for Proc {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}

struct Failure {
  idx: u64,
  choices: Vec<u64>,
  sig: String,
  msg: String,
  desc: String,
}

#[derive(Default)]
struct State {
  evals: u64,
  seen: HashSet<u64>,
  nontrivial: HashSet<u64>,
  tags: BTreeMap<String, u64>,
  samples: Vec<Value>,
  failures: Vec<Failure>,
  known: BTreeMap<String, u64>,
  errors: Vec<String>,
  times: Vec<(u64, u64)>,
}

fn load_known(id: &str) -> Vec<(String, String)> {
  // (sig, text)
  let path = verif_dir().join("known_findings.jsonl");
  let mut out = vec![];
  if let Ok(s) = std::fs::read_to_string(path) {
    for l in s.lines().filter(|l| !l.trim().is_empty()) {
      let v: Value = serde_json::from_str(l).expect("known_findings.jsonl");
      if v["property"] == id && v["kind"] == "known" {
        out.push((
          v["sig"].as_str().unwrap().to_string(),
          v["what"].as_str().unwrap().to_string(),
        ));
      }
    }
  }
  out
}

pub fn verif_dir() -> PathBuf {
  PathBuf::from(
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()),
  )
}

/// Outcome of one case run in a worker, as (fail, log).
fn interpret(a: Answer) -> Result<(Value, Option<(String, String)>), String> {
  match a {
    Answer::Line(v) => {
      let f = v.get("fail").filter(|f| !f.is_null()).map(|f| {
        (
          f["sig"].as_str().unwrap().to_string(),
          f["msg"].as_str().unwrap().to_string(),
        )
      });
      Ok((v, f))
    }
    Answer::Died(Some(9)) => Err("worker was killed (out of memory?)".into()),
    Answer::Died(sig) => Ok((
      Value::Null,
      Some((
        format!("crash:{:?}", sig),
        format!("the process running the case died, signal {:?}", sig),
      )),
    )),
    Answer::Timeout => {
      Err(format!("case exceeded {} s (inconclusive)", CASE_TIMEOUT.as_secs()))
    }
  }
}

pub fn run(check: &'static Check, tier: Tier, seed: u64) -> i32 {
  let t0 = Instant::now();
  let total = std::env::var("RVH_CASES")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or_else(|| (check.cases)(tier));
  let first: u64 = std::env::var("RVH_FIRST")
    .ok()
    .and_then(|s| s.parse().ok())
    .unwrap_or(0);
  let keep_going = std::env::var_os("RVH_KEEP_GOING").is_some();
  let known = Arc::new(load_known(check.id));
  let next = Arc::new(Mutex::new(first));
  let state = Arc::new(Mutex::new(State::default()));
  let mut hs = vec![];
  for _ in 0..check.workers.max(1) {
    let (next, state, known) = (next.clone(), state.clone(), known.clone());
    hs.push(std::thread::spawn(move || {
      let mut p = Proc::spawn(check, seed, &[]);
      loop {
        let idx = {
          let mut n = next.lock().unwrap();
          {
            let s = state.lock().unwrap();
            if *n >= first + total
              || (!keep_going && !s.failures.is_empty())
              || s.errors.len() > 3
              || t0.elapsed() > deadline(tier)
            {
              return;
            }
          }
          *n += 1;
          *n - 1
        };
        let ts = Instant::now();
        let r = interpret(p.ask(json!({ "idx": idx })));
        let dt = ts.elapsed().as_millis() as u64;
        let mut s = state.lock().unwrap();
        s.evals += 1;
        s.times.push((dt, idx));
        match r {
          Err(e) => {
            s.errors.push(format!("case {idx}: {e}"));
            p = Proc::spawn(check, seed, &[]);
          }
          Ok((v, fail)) => {
            let died = v.is_null();
            if !died {
              let h = v["h"].as_u64().unwrap();
              let is_new = s.seen.insert(h);
              if v["nt"] == true && is_new {
                s.nontrivial.insert(h);
              }
              for t in v["tags"].as_array().unwrap() {
                *s.tags.entry(t.as_str().unwrap().into()).or_insert(0) += 1;
              }
              if v["nt"] == true && s.samples.len() < 6 {
                s.samples.push(json!({"case": idx, "desc": v["desc"]}));
              }
            }
            if let Some((sig, msg)) = fail {
              if known.iter().any(|(k, _)| *k == sig) {
                *s.known.entry(sig).or_insert(0) += 1;
              } else if sig.starts_with("panic:") && !check.panic_is_violation
              {
                s.errors.push(format!("case {idx}: harness {msg}"));
              } else if sig.starts_with("harness:") {
                s.errors.push(format!("case {idx}: {sig} {msg}"));
              } else {
                if keep_going {
                  println!("FAIL case {idx} [{sig}] {msg} :: {}", v["desc"]);
                }
                let choices = v["choices"]
                  .as_array()
                  .map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect())
                  .unwrap_or_default();
                s.failures.push(Failure {
                  idx,
                  choices,
                  sig,
                  msg,
                  desc: v["desc"].as_str().unwrap_or("").to_string(),
                });
              }
            }
            if died {
              p = Proc::spawn(check, seed, &[]);
            }
          }
        }
      }
    }));
  }
  for h in hs {
    h.join().unwrap();
  }
  let mut st = std::mem::take(&mut *state.lock().unwrap());
  let mut replay = None;
  if !keep_going {
    st.failures.sort_by_key(|f| f.idx);
    if let Some(f) = st.failures.first() {
      replay = Some(shrink_and_save(check, seed, f));
    }
  }
  let wall = t0.elapsed().as_secs_f64();
  let ev = json!({
    "property": check.id,
    "tier": tier.name(),
    "seed": seed,
    "level": "exploration",
    "coverage": {
      "evaluations": st.evals,
      "distinct_nontrivial": st.nontrivial.len(),
      "rule": check.rule,
      "samples": st.samples,
      "classes": st.tags,
      "known_finding_hits": st.known,
      "inconclusive": st.errors,
    },
    "assumptions": check.assumptions,
    "wall_s": wall,
    "violations": st.failures.len(),
  });
  let evdir = verif_dir().join("evidence");
  let _ = std::fs::create_dir_all(&evdir);
  std::fs::write(
    evdir.join(format!("{}.json", check.id)),
    serde_json::to_string_pretty(&ev).unwrap() + "\n",
  )
  .expect("write evidence");
  println!(
    "{}: {} cases, {} distinct non-trivial, {} failures, {} inconclusive, {:.1} s",
    check.id,
    st.evals,
    st.nontrivial.len(),
    st.failures.len(),
    st.errors.len(),
    wall
  );
  if std::env::var_os("RVH_STATS").is_some() {
    for (t, n) in &st.tags {
      println!("  {n:7} {t}");
    }
    st.times.sort();
    st.times.reverse();
    println!("  slowest: {:?}", &st.times[..st.times.len().min(12)]);
  }
  for (_, what) in known.iter() {
    println!("KNOWN-FINDING: property={} {}", check.id, what);
  }
  for e in &st.errors {
    println!("inconclusive: {e}");
  }
  if !st.failures.is_empty() {
    let path = replay
      .map(|p| p.display().to_string())
      .unwrap_or_else(|| "none".into());
    let f = &st.failures[0];
    println!("failing case {}: [{}] {}", f.idx, f.sig, f.msg);
    println!("VIOLATION property={} replay={}", check.id, path);
    return 1;
  }
  if !st.errors.is_empty() {
    return 2;
  }
  0
}

fn shrink_and_save(check: &Check, seed: u64, f: &Failure) -> PathBuf {
  let budget = Duration::from_secs(60);
  let t0 = Instant::now();
  let mut best = f.choices.clone();
  let mut best_desc = f.desc.clone();
  let mut best_msg = f.msg.clone();
  let mut tries = 0u64;
  // A crashed worker returns no choice list: nothing to shrink, the case is
  // replayed from its seed.
  if !best.is_empty() {
    let mut p = Proc::spawn(check, seed, &[]);
    let kind = |s: &str| s.split(':').next().unwrap_or("").to_string();
    let want = kind(&f.sig);
    let mut attempt = |cand: &[u64],
                       best: &mut Vec<u64>,
                       tries: &mut u64|
     -> bool {
      *tries += 1;
      match interpret(p.ask(json!({"idx": f.idx, "choices": cand}))) {
        Ok((v, Some((sig, msg)))) if kind(&sig) == want && !v.is_null() => {
          let log: Vec<u64> = v["choices"]
            .as_array()
            .unwrap()
            .iter()
            .map(|x| x.as_u64().unwrap())
            .collect();
          let trimmed = trim(&log);
          let better = (trimmed.len(), &trimmed) < (best.len(), &*best);
          if better {
            *best = trimmed;
            best_desc = v["desc"].as_str().unwrap_or("").to_string();
            best_msg = msg;
          }
          better
        }
        Ok((v, _)) => {
          if v.is_null() {
            p = Proc::spawn(check, seed, &[]);
          }
          false
        }
        Err(_) => {
          p = Proc::spawn(check, seed, &[]);
          false
        }
      }
    };
    let mut improved = true;
    while improved && t0.elapsed() < budget && tries < 600 {
      improved = false;
      // delete chunks
      let mut k = best.len() / 2;
      while k >= 1 && t0.elapsed() < budget {
        let mut i = 0;
        while i + k <= best.len() && t0.elapsed() < budget {
          let mut c = best.clone();
          c.drain(i..i + k);
          if attempt(&c, &mut best, &mut tries) {
            improved = true;
          } else {
            i += k;
          }
        }
        k /= 2;
      }
      // zero, then halve values
      let mut i = 0;
      while i < best.len() && t0.elapsed() < budget {
        if best[i] != 0 {
          let mut c = best.clone();
          c[i] = 0;
          if attempt(&c, &mut best, &mut tries) {
            improved = true;
          } else {
            let mut step = best[i] / 2;
            while step > 0 && i < best.len() && t0.elapsed() < budget {
              let mut c = best.clone();
              if c[i] < step {
                break;
              }
              c[i] -= step;
              if attempt(&c, &mut best, &mut tries) {
                improved = true;
              }
              step /= 2;
            }
          }
        }
        i += 1;
      }
    }
  }
  let dir = verif_dir().join("replays");
  let _ = std::fs::create_dir_all(&dir);
  let path = dir.join(format!(
    "{}-{:08x}.json",
    check.id,
    hash_str(&format!("{}{:?}", f.sig, best)) as u32
  ));
  let v = json!({
    "property": check.id,
    "seed": seed,
    "case": f.idx,
    "choices": if best.is_empty() { Value::Null } else { json!(best) },
    "signature": f.sig,
    "message": best_msg,
    "description": best_desc,
    "shrink_attempts": tries,
    "replay_cmd": format!("./check.sh {} replay {}", check.id, path.display()),
  });
  let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
  println!("shrunk: {best_msg} :: {best_desc}");
  path
}

fn trim(log: &[u64]) -> Vec<u64> {
  let mut v = log.to_vec();
  while v.last() == Some(&0) {
    v.pop();
  }
  v
}

pub fn replay(check: &'static Check, file: &str) -> i32 {
  let v: Value =
    serde_json::from_str(&std::fs::read_to_string(file).expect("replay file"))
      .expect("replay json");
  let idx = v["case"].as_u64().unwrap();
  let seed = v["seed"].as_u64().unwrap();
  let mut p = Proc::spawn(check, seed, &[]);
  let q = match v["choices"].as_array() {
    Some(a) => json!({"idx": idx, "choices": a}),
    None => json!({ "idx": idx }),
  };
  match interpret(p.ask(q)) {
    Ok((v, Some((sig, msg)))) => {
      println!("[{sig}] {msg}");
      if let Some(d) = v["desc"].as_str() {
        println!("{d}");
      }
      println!("VIOLATION property={} replay={}", check.id, file);
      1
    }
    Ok((v, None)) => {
      println!("case passes: {}", v["desc"]);
      0
    }
    Err(e) => {
      println!("inconclusive: {e}");
      2
    }
  }
}

#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, dead_code, static_mut_refs)]
//! Deterministic simulation of japanese_law_xml_schema. See /verif/DESIGN.md.
mod doc;
mod grammar;
mod index;
mod json;
mod known;
mod ops;
mod report;
mod scen;
mod shared;
mod sys;
mod textgen;
mod tok;
mod xmlread;

use shared::*;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::time::Instant;
use sys::*;

#[global_allocator]
static A: SimAlloc = SimAlloc;

extern "C" {
  fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
  fn pipe(p: *mut i32) -> i32;
}

/// What one simulated execution ended with.
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
  pub code: i32, // EXIT_DONE, EXIT_VIOLATION or EXIT_HARNESS
  pub class: String,
  pub detail: String,
  pub epochs: u32,
}
pub const MAX_EPOCHS: u32 = 8;

/// Runs one execution of the scenario under the choices in the shared region:
/// every process lifetime is a forked child, only the blob survives a crash.
pub fn execute(prop: &str) -> Outcome {
  let mut epoch = 0;
  loop {
    let pid = unsafe { raw_fork() };
    if pid < 0 {
      return Outcome { code: EXIT_HARNESS, class: "harness".into(), detail: "fork failed".into(), epochs: epoch };
    }
    if pid == 0 {
      default_signals();
      arm_timers();
      init_world();
      count(C::Epochs);
      scen::run(prop, epoch);
      exit_child(EXIT_DONE);
    }
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } != pid {}
    let s = sh();
    epoch += 1;
    let text = |s: &Shared| (get_str(&s.class, s.class_len), get_str(&s.detail, s.detail_len));
    if st & 0x7f != 0 {
      let sig = st & 0x7f;
      let l = get_str(&s.oplabel, s.oplabel_len);
      let lib = s.in_lib_now != 0;
      let (code, class, detail) = match sig {
        26 if lib => (EXIT_VIOLATION, "runaway", format!("{l}: still running after 10 s of processor time")),
        14 if lib => (EXIT_VIOLATION, "hang", format!("{l}: no progress for {WALL_LIMIT} s")),
        9 => (EXIT_HARNESS, "harness", "the simulation was killed".into()),
        _ if lib => (EXIT_VIOLATION, "abort", format!("{l}: the process died by signal {sig}")),
        _ => (EXIT_HARNESS, "harness", format!("signal {sig} outside the library, last call {l}")),
      };
      return Outcome { code, class: class.into(), detail, epochs: epoch };
    }
    match st >> 8 & 0xff {
      EXIT_NEXT_EPOCH if epoch < MAX_EPOCHS => continue,
      EXIT_NEXT_EPOCH | EXIT_DONE => return Outcome { code: EXIT_DONE, class: String::new(), detail: String::new(), epochs: epoch },
      EXIT_VIOLATION => {
        let (class, detail) = text(s);
        return Outcome { code: EXIT_VIOLATION, class, detail, epochs: epoch };
      }
      EXIT_HARNESS => {
        let (class, detail) = text(s);
        return Outcome { code: EXIT_HARNESS, class, detail, epochs: epoch };
      }
      c => {
        // the library itself ended the process
        let l = get_str(&s.oplabel, s.oplabel_len);
        let lib = s.in_lib_now != 0;
        return Outcome {
          code: if lib { EXIT_VIOLATION } else { EXIT_HARNESS },
          class: if lib { "exit".into() } else { "harness".into() },
          detail: format!("{l}: the process ended with status {c}"),
          epochs: epoch,
        };
      }
    }
  }
}

pub fn seed_of(prop: &str, base: u64, i: u64) -> u64 {
  let mut x = base ^ hash_bytes(prop.as_bytes()) ^ i.wrapping_mul(0x9E3779B97F4A7C15);
  splitmix(&mut x)
}
pub fn recorded() -> Vec<Vec<u32>> {
  let s = sh();
  (0..NSTREAM).map(|i| s.rec[i][..(s.pos[i] as usize).min(CAP)].to_vec()).collect()
}
pub fn run_seed(prop: &str, seed: u64) -> Outcome {
  reset(seed, false, None, false);
  execute(prop)
}
pub fn run_forced(prop: &str, seed: u64, streams: &[Vec<u32>]) -> Outcome {
  reset(seed, true, Some(streams), false);
  execute(prop)
}

// ------------------------------------------------------------------- counts
/// (quick runs, thorough runs): chosen so that quick takes well under a minute.
fn runs(prop: &str, thorough: bool) -> u64 {
  let (q, t) = match prop {
    "C01" => (8000, 110_000),
    "C02" => (60_000, 800_000),
    "C03" => (20_000, 280_000),
    "C04" => (30_000, 500_000),
    "C05" => (45_000, 700_000),
    "C06" => (60_000, 1_000_000),
    "C07" => (9000, 130_000),
    "C08" => (12_000, 200_000),
    "C09" => (12_000, 180_000),
    "C10" => (4500, 55_000),
    "C11" => (9000, 140_000),
    "C12" => (8000, 130_000),
    "C13" => (50_000, 750_000),
    "C14" => (4500, 65_000),
    "C15" => (2400, 36_000),
    "C31" => (4000, 60_000),
    "C33" => (10_000, 150_000),
    _ => (100, 1000),
  };
  if thorough {
    t
  } else {
    q
  }
}

#[derive(Default, Clone)]
pub struct Summary {
  pub runs: u64,
  pub counters: Vec<u64>,
  pub sim_ns: u64,
  pub steps: u64,
  pub events: u64,
  pub sched: Vec<u64>,
  pub states: Vec<u64>,
  pub logs: Vec<u64>,
  pub samples: Vec<(u64, String)>,
  pub violation: Option<(u64, Outcome)>,
  pub harness: Option<(u64, Outcome)>,
  pub nontrivial: Vec<u64>, // hash of each non-trivial run, by the property's measure
}

/// One worker: executes the runs i with i mod `of` == `w`, stops above `stop`.
fn worker(prop: &str, base: u64, n: u64, w: u64, of: u64, stop: *mut u64, deadline: Instant) -> Summary {
  let mut r = Summary { counters: vec![0; NCOUNT], ..Default::default() };
  let mut i = w;
  while i < n {
    if i > unsafe { std::ptr::read_volatile(stop) } || Instant::now() > deadline {
      break;
    }
    let mut o = run_seed(prop, seed_of(prop, base, i));
    // a limit of real time may only say that the machine is busy: it has to be passed three times
    for _ in 0..2 {
      if !(o.code == EXIT_VIOLATION && matches!(o.class.as_str(), "runaway" | "hang")) {
        break;
      }
      o = run_seed(prop, seed_of(prop, base, i));
    }
    let s = sh();
    r.runs += 1;
    for k in 0..NCOUNT {
      r.counters[k] += s.counters[k];
    }
    r.sim_ns += s.sim_ns;
    r.steps += s.steps;
    r.events += s.log_events;
    r.sched.push(s.sched_hash);
    r.states.push(s.state_hash);
    r.logs.push(s.log_hash);
    if nontrivial(prop) {
      r.nontrivial.push(report::measure(prop, s.sched_hash, s.log_hash, s.state_hash));
    }
    if i < 24 && s.sample_len > 0 {
      r.samples.push((i, get_str(&s.sample, s.sample_len)));
    }
    match o.code {
      EXIT_DONE => {}
      EXIT_VIOLATION => {
        // lowest index wins; a race only makes others stop later
        unsafe {
          if i < std::ptr::read_volatile(stop) {
            std::ptr::write_volatile(stop, i);
          }
        }
        r.violation = Some((i, o));
        break;
      }
      _ => {
        r.harness = Some((i, o));
        unsafe { std::ptr::write_volatile(stop, 0) };
        break;
      }
    }
    i += of;
  }
  r
}
fn put_u64(v: &mut Vec<u8>, x: u64) {
  v.extend_from_slice(&x.to_le_bytes());
}
fn put_s(v: &mut Vec<u8>, s: &str) {
  put_u64(v, s.len() as u64);
  v.extend_from_slice(s.as_bytes());
}
struct Rd<'a>(&'a [u8], usize);
impl Rd<'_> {
  fn u(&mut self) -> u64 {
    let v = u64::from_le_bytes(self.0[self.1..self.1 + 8].try_into().unwrap());
    self.1 += 8;
    v
  }
  fn s(&mut self) -> String {
    let n = self.u() as usize;
    self.1 += n;
    String::from_utf8_lossy(&self.0[self.1 - n..self.1]).into_owned()
  }
  fn vec(&mut self) -> Vec<u64> {
    let n = self.u();
    (0..n).map(|_| self.u()).collect()
  }
  fn outcome(&mut self) -> Option<(u64, Outcome)> {
    if self.u() == 0 {
      return None;
    }
    let i = self.u();
    let code = self.u() as i32;
    let class = self.s();
    let detail = self.s();
    let epochs = self.u() as u32;
    Some((i, Outcome { code, class, detail, epochs }))
  }
}
impl Summary {
  fn encode(&self) -> Vec<u8> {
    let mut v = Vec::new();
    for x in [self.runs, self.sim_ns, self.steps, self.events] {
      put_u64(&mut v, x);
    }
    for l in [&self.counters, &self.sched, &self.states, &self.logs, &self.nontrivial] {
      put_u64(&mut v, l.len() as u64);
      l.iter().for_each(|x| put_u64(&mut v, *x));
    }
    put_u64(&mut v, self.samples.len() as u64);
    for (i, s) in &self.samples {
      put_u64(&mut v, *i);
      put_s(&mut v, s);
    }
    for o in [&self.violation, &self.harness] {
      match o {
        None => put_u64(&mut v, 0),
        Some((i, o)) => {
          put_u64(&mut v, 1);
          put_u64(&mut v, *i);
          put_u64(&mut v, o.code as u64);
          put_s(&mut v, &o.class);
          put_s(&mut v, &o.detail);
          put_u64(&mut v, o.epochs as u64);
        }
      }
    }
    v
  }
  fn decode(b: &[u8]) -> Summary {
    let mut r = Rd(b, 0);
    let (runs, sim_ns, steps, events) = (r.u(), r.u(), r.u(), r.u());
    let (counters, sched, states, logs, nontrivial) = (r.vec(), r.vec(), r.vec(), r.vec(), r.vec());
    let n = r.u();
    let samples = (0..n).map(|_| (r.u(), r.s())).collect();
    let violation = r.outcome();
    let harness = r.outcome();
    Summary { runs, counters, sim_ns, steps, events, sched, states, logs, samples, violation, harness, nontrivial }
  }
  fn merge(&mut self, o: Summary) {
    self.runs += o.runs;
    self.sim_ns += o.sim_ns;
    self.steps += o.steps;
    self.events += o.events;
    self.nontrivial.extend(o.nontrivial);
    if self.counters.is_empty() {
      self.counters = vec![0; NCOUNT];
    }
    for k in 0..NCOUNT {
      self.counters[k] += o.counters[k];
    }
    self.sched.extend(o.sched);
    self.states.extend(o.states);
    self.logs.extend(o.logs);
    self.samples.extend(o.samples);
    for (a, b) in [(&mut self.violation, o.violation), (&mut self.harness, o.harness)] {
      if let Some(b) = b {
        if a.as_ref().map_or(true, |x| b.0 < x.0) {
          *a = Some(b);
        }
      }
    }
  }
}

/// Runs `n` seeds of a property on `of` worker processes.
pub fn explore(prop: &str, base: u64, n: u64, of: u64, secs: u64) -> Summary {
  let deadline = Instant::now() + std::time::Duration::from_secs(secs);
  let stop = unsafe { raw6(9, 0, 4096, 3, 0x21, -1, 0) } as *mut u64;
  unsafe { *stop = u64::MAX };
  let mut kids = Vec::new();
  for w in 0..of {
    let mut p = [0i32; 2];
    assert!(unsafe { pipe(p.as_mut_ptr()) } == 0);
    let pid = unsafe { raw_fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
      unsafe { raw6(3, p[0] as i64, 0, 0, 0, 0, 0) };
      shared::init();
      let s = worker(prop, base, n, w, of, stop, deadline);
      let mut f = unsafe { File::from_raw_fd(p[1]) };
      let ok = f.write_all(&s.encode()).is_ok();
      exit_child(!ok as i32);
    }
    unsafe { raw6(3, p[1] as i64, 0, 0, 0, 0, 0) };
    kids.push((pid, p[0]));
  }
  let mut sum = Summary::default();
  for (w, (pid, fd)) in kids.into_iter().enumerate() {
    let mut f = unsafe { File::from_raw_fd(fd) };
    let mut b = Vec::new();
    let r = f.read_to_end(&mut b);
    let mut st = 0;
    while unsafe { waitpid(pid, &mut st, 0) } != pid {}
    if r.is_err() || st != 0 || b.is_empty() {
      eprintln!("worker {w} died (status {st:#x})");
      std::process::exit(2);
    }
    sum.merge(Summary::decode(&b));
  }
  unsafe { raw6(11, stop as i64, 4096, 0, 0, 0, 0) };
  sum
}

// ---------------------------------------------------------------- minimising
/// What must stay the same for a smaller run to be the same violation.
fn signature(o: &Outcome) -> String {
  let first = o.detail.lines().next().unwrap_or("");
  let place = first.rfind(".rs:").map(|p| {
    let a = first[..p].rfind(' ').map_or(0, |x| x + 1);
    let b = first[p + 4..].find(|c: char| !c.is_ascii_digit()).map_or(first.len(), |x| p + 4 + x);
    first[a..b].to_string()
  });
  format!("{} {}", o.class, place.unwrap_or_default())
}
pub struct Found {
  pub seed: u64,
  pub streams: Vec<Vec<u32>>,
  pub outcome: Outcome,
  pub log: String,
  pub log_hash: u64,
  pub original: usize,
  pub tried: u64,
}
fn minimise(prop: &str, seed: u64, secs: u64) -> Option<Found> {
  let o = run_seed(prop, seed);
  if o.code != EXIT_VIOLATION {
    return None;
  }
  let want = signature(&o);
  let end = Instant::now() + std::time::Duration::from_secs(secs);
  let mut cur = recorded();
  let original: usize = cur.iter().map(|s| s.len()).sum();
  let mut tried = 0;
  let mut attempt = |cand: &[Vec<u32>], cur: &mut Vec<Vec<u32>>| -> bool {
    tried += 1;
    let o = run_forced(prop, seed, cand);
    if o.code != EXIT_VIOLATION || signature(&o) != want {
      return false;
    }
    let mut r = recorded();
    for s in &mut r {
      while s.last() == Some(&0) {
        s.pop();
      }
    }
    let size = |v: &[Vec<u32>]| (v.iter().map(|s| s.len()).sum::<usize>(), v.iter().flatten().map(|x| *x as u64).sum::<u64>());
    if size(&r) < size(cur) {
      *cur = r;
      return true;
    }
    false
  };
  if attempt(&cur.clone(), &mut cur) {}
  let order = [S_AMB, S_SCHED, S_FAULT, S_CFG, S_DOC];
  'outer: loop {
    let before = cur.clone();
    for &k in &order {
      // shorter, then with chunks removed
      if !cur[k].is_empty() {
        let mut c = cur.clone();
        c[k].clear();
        attempt(&c, &mut cur);
      }
      let mut chunk = cur[k].len() / 2;
      while chunk >= 1 {
        let mut at = cur[k].len().saturating_sub(chunk);
        loop {
          if Instant::now() > end {
            break 'outer;
          }
          if at + chunk <= cur[k].len() {
            let mut c = cur.clone();
            c[k].drain(at..at + chunk);
            let mut ok = attempt(&c, &mut cur);
            if !ok && chunk <= 8 && cur[k].len() >= at + chunk && cur[k][at..at + chunk].iter().any(|x| *x != 0) {
              let mut c = cur.clone();
              c[k][at..at + chunk].fill(0);
              ok = attempt(&c, &mut cur);
            }
            let _ = ok;
          }
          if at == 0 {
            break;
          }
          at = at.saturating_sub(chunk);
        }
        chunk /= 2;
      }
      // smaller values
      let mut i = 0;
      while i < cur[k].len() {
        if Instant::now() > end {
          break 'outer;
        }
        let v = cur[k][i];
        for nv in [0, v / 2, v.saturating_sub(1)] {
          if nv < v && i < cur[k].len() {
            let mut c = cur.clone();
            c[k][i] = nv;
            if attempt(&c, &mut cur) {
              break;
            }
          }
        }
        i += 1;
      }
    }
    if cur == before {
      break;
    }
  }
  let o = run_forced(prop, seed, &cur);
  if o.code != EXIT_VIOLATION {
    return None;
  }
  let s = sh();
  Some(Found { seed, streams: cur, outcome: o, log: get_str(&s.log, s.log_len), log_hash: s.log_hash, original, tried })
}

/// A repeatable violation for the seed: minimised if possible, else as it came.
/// Some(_, false): it repeats, but with differences in its log or detail.
fn pin_down(prop: &str, seed: u64, secs: u64) -> Option<(Found, bool)> {
  if let Some(f) = minimise(prop, seed, secs) {
    // the replay must reproduce it exactly, several times
    if (0..3).all(|_| run_forced(prop, seed, &f.streams) == f.outcome && sh().log_hash == f.log_hash) {
      return Some((f, true));
    }
  }
  let mut best = None;
  for _ in 0..6 {
    let o = run_seed(prop, seed);
    if o.code != EXIT_VIOLATION {
      continue;
    }
    let streams = recorded();
    let s = sh();
    let original = streams.iter().map(|s| s.len()).sum();
    let f = Found { seed, streams, outcome: o, log: get_str(&s.log, s.log_len), log_hash: s.log_hash, original, tried: 0 };
    if (0..3).all(|_| run_forced(prop, seed, &f.streams) == f.outcome && sh().log_hash == f.log_hash) {
      return Some((f, true));
    }
    best = Some((f, false));
  }
  best
}

fn env_u64(n: &str, d: u64) -> u64 {
  std::env::var(n).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}
fn arg(args: &[String], n: &str) -> Option<String> {
  args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned())
}
fn verif_dir() -> String {
  std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn check(args: &[String]) -> i32 {
  let prop = args[0].clone();
  let tier = arg(args, "--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
  let seed = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or_else(|| env_u64("VERIF_SEED", 1));
  let thorough = tier == "thorough";
  let n = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or_else(|| runs(&prop, thorough));
  let of = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
  let secs = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 720 } else { 200 });
  let t0 = Instant::now();
  let known = known::check_listed(&prop);
  let mut sum = explore(&prop, seed, n, of, secs);
  let search_s = t0.elapsed().as_secs_f64();
  if let (Some((i, o)), None) = (&sum.harness, &sum.violation) {
    println!("HARNESS ERROR property={prop} run={i} seed={:#x} {}", seed_of(&prop, seed, *i), o.detail);
    return 2;
  }
  sum.samples.sort();
  let mut rc = 0;
  let mut found = None;
  if let Some((i, o)) = sum.violation.clone() {
    let s = seed_of(&prop, seed, i);
    let Some((f, exact)) = pin_down(&prop, s, if thorough { 120 } else { 40 }) else {
      println!("HARNESS ERROR property={prop} run={i} seed={s:#x}: the violation did not repeat: {} {}", o.class, o.detail);
      return 2;
    };
    let path = report::write_replay(&verif_dir(), &prop, &f, i, seed);
    println!("{}: {}", f.outcome.class, f.outcome.detail);
    println!("(run {i}, seed {s:#x}; {} choices, minimised to {})", f.original, f.streams.iter().map(|s| s.len()).sum::<usize>());
    if !exact {
      println!("(the replay repeats the violation but not every logged detail: the library now reads something outside the simulator)");
    }
    println!("VIOLATION property={prop} replay={path}");
    found = Some(f);
    rc = 1;
  }
  report::write_evidence(&verif_dir(), &prop, &tier, seed, n, of, &sum, found.as_ref(), &known, t0.elapsed().as_secs_f64(), search_s);
  if rc == 0 {
    println!("OK property={prop} runs={} of {n} in {:.1} s", sum.runs, t0.elapsed().as_secs_f64());
  }
  rc
}

/// Every seed twice, with different worker counts: all event logs must be equal.
fn selftest(args: &[String]) -> i32 {
  let n = arg(args, "--runs").and_then(|s| s.parse().ok()).unwrap_or(200);
  let mut bad = 0;
  for p in scen::PROPS {
    let mut all = Vec::new();
    for of in [8, 3, 16] {
      let mut s = explore(p, 7, n, of, 600);
      if let Some((i, o)) = s.harness.clone() {
        println!("{p}: harness error in run {i}: {}", o.detail);
        bad += 1;
      }
      s.logs.sort();
      all.push((s.logs, s.violation.map(|v| (v.0, v.1))));
    }
    let same = all.iter().all(|a| a.1 == all[0].1 && (a.1.is_some() || a.0 == all[0].0));
    println!("{p}: {} executions three times each: {}", all[0].0.len(), if same { "identical" } else { "DIFFERENT" });
    bad += !same as i32;
  }
  (bad > 0) as i32
}

/// Addresses are an input like any other: turn their randomisation off and start over.
fn fixed_addresses() {
  const ADDR_NO_RANDOMIZE: i64 = 0x0040000;
  unsafe {
    let p = raw6(135, 0xffffffff, 0, 0, 0, 0, 0);
    if p < 0 || p & ADDR_NO_RANDOMIZE != 0 || raw6(135, p | ADDR_NO_RANDOMIZE, 0, 0, 0, 0, 0) < 0 {
      return;
    }
  }
  use std::os::unix::process::CommandExt;
  let _ = std::process::Command::new("/proc/self/exe").args(std::env::args_os().skip(1)).exec();
}
fn main() {
  fixed_addresses();
  shared::init();
  ops::init_grammar();
  install_panic_hook();
  find_sync_functions();
  let args: Vec<String> = std::env::args().skip(1).collect();
  let rc = match args.first().map(|s| &**s) {
    Some("check") if args.len() > 1 => check(&args[1..]),
    Some("replay") if args.len() > 1 => report::replay(&args[1]),
    Some("selftest") => selftest(&args[1..]),
    Some("witness") if args.len() > 1 => known::run_one(&args[1]),
    Some("one") if args.len() > 2 => {
      let seed = args[2].trim_start_matches("0x");
      let seed = if args[2].starts_with("0x") { u64::from_str_radix(seed, 16).unwrap() } else { seed_of(&args[1], env_u64("VERIF_SEED", 1), seed.parse().unwrap()) };
      let o = run_seed(&args[1], seed);
      let s = sh();
      println!("{}", get_str(&s.log, s.log_len));
      println!("sample {}", get_str(&s.sample, s.sample_len));
      println!("{o:?} log hash {:x} steps {} choices {:?}", s.log_hash, s.steps, s.pos);
      0
    }
    _ => {
      eprintln!("usage: lawsim check PROP [--tier T] [--seed N] [--runs N] | replay FILE | one PROP SEED | selftest | witness ID");
      2
    }
  };
  std::process::exit(rc);
}
/// Whether the run that just ended did what its property's rule asks for.
fn nontrivial(prop: &str) -> bool {
  let s = sh();
  let c = |x: C| s.counters[x as usize];
  let faults: u64 = COUNTER_NAMES.iter().enumerate().filter(|(_, n)| n.starts_with("fault.")).map(|(k, _)| s.counters[k]).sum();
  match prop {
    "C03" => c(C::LibCalls) > 2 && faults > 0,
    "C04" => c(C::TornInputs) > 0,
    "C05" | "C10" => c(C::Damaged) > 0,
    "C07" => c(C::Preempt) > 0,
    "C12" => c(C::Retry) > 0,
    "C11" => c(C::Rounds) >= 10,
    "C09" => c(C::LibCalls) > 0,
    "C15" => c(C::TextCut) > 0,
    _ => c(C::Compared) > 0,
  }
}

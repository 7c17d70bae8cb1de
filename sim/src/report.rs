//! Replay files and evidence files.
use crate::shared::*;
use crate::{Found, Outcome, Summary};
use std::fmt::Write;

fn esc(s: &str) -> String {
  let mut o = String::with_capacity(s.len() + 2);
  o.push('"');
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      '\n' => o.push_str("\\n"),
      c if (c as u32) < 0x20 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      }
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn unesc(s: &str) -> String {
  let mut o = String::new();
  let mut it = s.chars();
  while let Some(c) = it.next() {
    if c != '\\' {
      o.push(c);
      continue;
    }
    match it.next() {
      Some('n') => o.push('\n'),
      Some('u') => {
        let h: String = it.by_ref().take(4).collect();
        o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap_or(63)).unwrap_or('?'));
      }
      Some(c) => o.push(c),
      None => {}
    }
  }
  o
}
pub fn write_replay(dir: &str, prop: &str, f: &Found, run: u64, base: u64) -> String {
  let d = format!("{dir}/replays");
  let _ = std::fs::create_dir_all(&d);
  let path = format!("{d}/{prop}-{:016x}.json", f.seed);
  let mut j = String::from("{\n");
  let _ = writeln!(j, " \"property\": {},", esc(prop));
  let _ = writeln!(j, " \"verif_seed\": {base}, \"run\": {run},");
  let _ = writeln!(j, " \"seed\": \"{:#018x}\",", f.seed);
  let _ = writeln!(j, " \"class\": {},", esc(&f.outcome.class));
  let _ = writeln!(j, " \"detail\": {},", esc(&f.outcome.detail));
  let _ = writeln!(j, " \"process_lifetimes\": {},", f.outcome.epochs);
  let _ = writeln!(j, " \"log_hash\": \"{:#018x}\",", f.log_hash);
  let _ = writeln!(j, " \"choices_before_minimising\": {}, \"runs_to_minimise\": {},", f.original, f.tried);
  j.push_str(" \"choices\": {\n");
  for k in 0..NSTREAM {
    let v: Vec<String> = f.streams[k].iter().map(|x| x.to_string()).collect();
    let _ = writeln!(j, "  \"{}\": [{}]{}", STREAM_NAMES[k], v.join(","), if k + 1 < NSTREAM { "," } else { "" });
  }
  j.push_str(" },\n \"trace\": [\n");
  let lines: Vec<&str> = f.log.lines().collect();
  let from = lines.len().saturating_sub(400);
  for (i, l) in lines[from..].iter().enumerate() {
    let _ = writeln!(j, "  {}{}", esc(l), if from + i + 1 < lines.len() { "," } else { "" });
  }
  j.push_str(" ]\n}\n");
  if let Err(e) = std::fs::write(&path, j) {
    eprintln!("cannot write {path}: {e}");
  }
  path
}
fn field<'a>(j: &'a str, name: &str) -> Option<&'a str> {
  let p = j.find(&format!("\"{name}\": "))? + name.len() + 4;
  Some(&j[p..])
}
fn str_field(j: &str, name: &str) -> Option<String> {
  let f = field(j, name)?.strip_prefix('"')?;
  let mut end = 0;
  let b = f.as_bytes();
  while b[end] != b'"' {
    end += if b[end] == b'\\' { 2 } else { 1 };
  }
  Some(unesc(&f[..end]))
}
/// Re-executes a replay file; 1 if it reproduces exactly what it records.
pub fn replay(path: &str) -> i32 {
  let j = match std::fs::read_to_string(path) {
    Ok(j) => j,
    Err(e) => {
      eprintln!("{path}: {e}");
      return 2;
    }
  };
  let get = |n: &str| str_field(&j, n).unwrap_or_default();
  let prop = get("property");
  let hex = |n: &str| u64::from_str_radix(get(n).trim_start_matches("0x"), 16).unwrap_or(0);
  let (seed, want_log) = (hex("seed"), hex("log_hash"));
  let choices = field(&j, "choices").unwrap_or("");
  let streams: Vec<Vec<u32>> = STREAM_NAMES
    .iter()
    .map(|n| {
      let f = field(choices, n).unwrap_or("[]");
      let f = &f[1..f.find(']').unwrap_or(1)];
      f.split(',').filter_map(|x| x.trim().parse().ok()).collect()
    })
    .collect();
  let o: Outcome = crate::run_forced(&prop, seed, &streams);
  let s = sh();
  println!("{}", get_str(&s.log, s.log_len));
  println!("{}: {}", o.class, o.detail);
  if o.code != crate::sys::EXIT_VIOLATION {
    println!("NOT REPRODUCED: this execution ends without a violation");
    return 0;
  }
  let exact = o.class == get("class") && o.detail == get("detail") && s.log_hash == want_log;
  println!("{}", if exact { "REPRODUCED exactly" } else { "a violation, but not exactly the recorded one (the code differs)" });
  println!("VIOLATION property={prop} replay={path}");
  1
}

const RULES: [(&str, &str); 17] = [
  ("C01", "A run is one history of load, text-parse, save (new file or in place), fsync, crash, restart and reload over simulated files, up to five process lifetimes. Non-trivial: at least one library call and one comparison against an acknowledged law, counted as distinct by the hash of all results and stored bytes."),
  ("C02", "A run generates one schema document around a randomly chosen schema edge, loads it through the simulated disk, saves it and compares both documents read by an independent reader. Non-trivial: the comparison was made; distinct by hash of the results."),
  ("C03", "A run saves one law to two to seven sinks with seeded failures and compares what each accepted. Non-trivial: at least one fault fired; distinct by hash of the results."),
  ("C04", "A run tears a saved document 4 to 15 times and loads each. Non-trivial: at least one input was really torn (not well-formed); distinct by hash of the inputs and results."),
  ("C05", "A run damages a document 3 to 10 times and loads, saves and reloads. Non-trivial: at least one damaged input; distinct by hash of the inputs and results."),
  ("C06", "A run loads a simulated file one to four times under seeded read behaviour. Non-trivial: at least one load was compared; distinct by hash of the event log."),
  ("C07", "A run interleaves two to seven tasks under the seeded scheduler. Non-trivial: at least one preemption happened; distinct by hash of the sequence of task switches and their step numbers."),
  ("C08", "A run executes the same operations in three processes with different ambients. Non-trivial: the results were compared; distinct by hash of the event log (which names the ambients)."),
  ("C09", "A run executes operations with failing and healthy I/O on one to three tasks while every system call of the library is intercepted. Non-trivial: library calls were made; distinct by hash of the event log."),
  ("C10", "A run parses one to three law texts, mostly damaged, under a step budget. Non-trivial: text was parsed; distinct by hash of texts and results."),
  ("C11", "A run repeats a history of operations and faults, over contents that differ from round to round, twelve times (up to 600 when the memory held has grown) and watches the allocator and descriptors. Non-trivial: all rounds ran; distinct by hash of the event log."),
  ("C12", "A run is a history of failing and panicking operations, each compared with the same operation alone in a fresh process. Non-trivial: at least one operation failed or panicked and was retried; distinct by hash of the event log."),
  ("C13", "A run saves a law holding unusual characters and reads it with an independent reader. Non-trivial: a comparison was made; distinct by hash of the results."),
  ("C14", "A run is one history of snapshots through serde into failing and crashing sinks, restarts and restores, up to five process lifetimes. Non-trivial: a snapshot was restored and compared; distinct by hash of the results."),
  ("C15", "A run cuts a law text two to four times, also continuing it with cut, damaged or other lines, and compares what the kept lines give. Non-trivial: a cut text was parsed; distinct by hash of texts and results."),
  ("C31", "A run stores divided laws through failing and crashing sinks, restarts, and rebuilds lists, contents and texts from what is stored; or several tasks do so at once. Non-trivial: a list was compared with the document; distinct by hash of the lists."),
  ("C33", "A run parses law texts of days around the changes of era in several tasks under jumping clocks, and stores and reloads them. Non-trivial: an era was compared; distinct by hash of the dates and the schedule."),
];

pub fn measure(prop: &str, sched: u64, log: u64, state: u64) -> u64 {
  match prop {
    "C07" => sched,
    "C06" | "C08" | "C09" | "C11" | "C12" => log,
    _ => state,
  }
}
#[allow(clippy::too_many_arguments)]
pub fn write_evidence(dir: &str, prop: &str, tier: &str, seed: u64, planned: u64, workers: u64, s: &Summary, found: Option<&Found>, known: &[String], wall: f64, search: f64) {
  let c = |x: C| s.counters[x as usize];
  let distinct = |v: &[u64]| {
    let mut v = v.to_vec();
    v.sort();
    v.dedup();
    v.len()
  };
  let name = match prop {
    "C07" => "task interleavings (task and step number of every switch)",
    "C06" | "C08" | "C09" | "C11" | "C12" => "event logs",
    _ => "hashes of inputs and results",
  };
  let nontrivial = distinct(&s.nontrivial);
  let rule = RULES.iter().find(|r| r.0 == prop).map_or("", |r| r.1);
  let mut j = String::from("{\n");
  let _ = writeln!(j, " \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": \"exploration\",", esc(prop), esc(tier));
  j.push_str(" \"coverage\": {\n");
  let _ = writeln!(j, "  \"evaluations\": {},", s.runs);
  let _ = writeln!(j, "  \"distinct_nontrivial\": {nontrivial},");
  let _ = writeln!(j, "  \"rule\": {},", esc(&format!("{rule} Distinct is counted over {name}.")));
  let smp: Vec<String> = s.samples.iter().take(8).map(|(i, t)| esc(&format!("run {i} (seed {:#x}): {t}", crate::seed_of(prop, seed, *i)))).collect();
  let _ = writeln!(j, "  \"samples\": [\n   {}\n  ],", smp.join(",\n   "));
  let per_h = if search > 0.0 { (s.runs as f64 / search * 3600.0) as u64 } else { 0 };
  let _ = writeln!(j, "  \"runs_planned\": {planned}, \"workers\": {workers}, \"runs_per_hour\": {per_h}, \"seeds_per_hour\": {per_h},");
  let _ = writeln!(j, "  \"simulated_seconds\": {:.3}, \"library_steps\": {}, \"events_logged\": {},", s.sim_ns as f64 / 1e9, s.steps, s.events);
  let _ = writeln!(j, "  \"distinct_interleavings\": {}, \"distinct_event_logs\": {}, \"distinct_results\": {},", distinct(&s.sched), distinct(&s.logs), distinct(&s.states));
  for (key, pre) in [("faults_injected", "fault."), ("damage_injected", "damage."), ("ambient", "ambient."), ("scheduler", "sched."), ("operations", "")] {
    let mut v = Vec::new();
    for (k, n) in COUNTER_NAMES.iter().enumerate() {
      let is = if pre.is_empty() { !["fault.", "damage.", "ambient.", "sched."].iter().any(|p| n.starts_with(p)) } else { n.starts_with(pre) };
      if is && s.counters[k] > 0 {
        v.push(format!("{}: {}", esc(n.trim_start_matches(pre)), s.counters[k]));
      }
    }
    let _ = writeln!(j, "  \"{key}\": {{{}}},", v.join(", "));
  }
  let _ = writeln!(j, "  \"comparisons\": {},", c(C::Compared));
  let _ = writeln!(j, "  \"real_code\": [\"japanese_law_xml_schema (built from /repo, unmodified)\", \"xmltree, xml-rs, regex, kansuji, koyomi, roman\", \"std: files, locks, collections, formatting\"],");
  let _ = writeln!(j, "  \"simulated\": [\"libc calls reachable from the library: open, read, stat, seek, close, write, clocks, sleep, entropy, environment, working directory, futex\", \"thread scheduling\", \"the caller's sink\", \"disk contents, fsync and crash\", \"allocator accounting\"],");
  let k: Vec<String> = known.iter().map(|x| esc(x)).collect();
  let _ = writeln!(j, "  \"known_findings_still_failing\": [{}]", k.join(", "));
  j.push_str(" },\n");
  let _ = writeln!(j, " \"assumptions\": [\"the library reaches the operating system only through libc symbols (std does)\", \"tasks switch only at allocations, locks and I/O\", \"the independent XML reader and the schema table in the harness are right\"],");
  let _ = writeln!(j, " \"wall_s\": {wall:.2},");
  let _ = writeln!(j, " \"violations\": {}", found.is_some() as u32);
  j.push_str("}\n");
  let d = format!("{dir}/evidence");
  let _ = std::fs::create_dir_all(&d);
  let path = format!("{d}/{prop}.json");
  if let Err(e) = std::fs::write(&path, j) {
    eprintln!("cannot write {path}: {e}");
  }
}

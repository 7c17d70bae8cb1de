//! One scenario per property. Each runs in a fresh process; its choices come from
//! the seed. A scenario returns when nothing was violated.
use crate::doc::*;
use crate::ops::*;
use crate::shared::*;
use crate::sys::*;
use crate::textgen;
use crate::tok::*;
use crate::xmlread;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub const PROPS: [&str; 17] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C31", "C33"];

pub fn run(prop: &str, epoch: u32) {
  draw_ambient();
  match prop {
    "C01" => c01(epoch),
    "C02" => c02(),
    "C03" => c03(),
    "C04" => c04(),
    "C05" => c05(),
    "C06" => c06(),
    "C07" => c07(),
    "C08" => c08(),
    "C09" => c09(),
    "C10" => c10(),
    "C11" => c11(),
    "C12" => c12(),
    "C13" => c13(),
    "C14" => c14(epoch),
    "C15" => c15(),
    "C31" => crate::index::c31(epoch),
    "C33" => crate::index::c33(),
    _ => harness_error("unknown property"),
  }
}

// --------------------------------------------------------------- small helpers
pub fn clip(s: &str, n: usize) -> String {
  let mut t: String = s.chars().take(n).collect();
  if t.len() < s.len() {
    t.push('…');
  }
  t
}
fn show_bytes(b: &[u8]) -> String {
  clip(&String::from_utf8_lossy(b), 3000)
}
fn must<R>(r: Called<R>, what: &str) -> R {
  match r {
    Called::Returned(v) => v,
    Called::Panicked(m) => violate("panic", &format!("{what} panicked: {m}")),
  }
}
/// A small document configuration for scenarios where many calls matter more
/// than big documents.
pub fn small_cfg() -> DocCfg {
  let mut c = gen_cfg();
  c.budget = [8, 12, 30, 60][choose(S_CFG, 4) as usize];
  c.repmax = c.repmax.min(2);
  c.chars.long = c.chars.long && choose(S_CFG, 4) == 3;
  c
}
struct GenDoc {
  tree: Elem,
  bytes: Vec<u8>,
}
fn new_doc(cfg: &DocCfg, layout: &Layout) -> GenDoc {
  let g = grammar();
  let tree = gen_doc(g, cfg);
  let bytes = serialize(g, &tree, layout);
  GenDoc { tree, bytes }
}
fn sample_doc(prefix: &str, d: &GenDoc) {
  sample(&format!("{prefix}: {} elements, depth {}, {} bytes: {}", d.tree.count(), d.tree.depth(), d.bytes.len(), clip(&String::from_utf8_lossy(&d.bytes), 200)));
}
/// Reads a saved document with the independent reader or reports it.
pub fn readable(bytes: &[u8], what: &str, class: &str) -> Elem {
  match xmlread::read(bytes) {
    Ok(e) => e,
    Err(m) => violate(class, &format!("{what} is not a well-formed document: {m}\n{}", show_bytes(bytes))),
  }
}
fn same_doc(a: &Elem, b: &Elem) -> Option<String> {
  count(C::Compared);
  let g = grammar();
  diff(&canon(g, a), &canon(g, b), "")
}

// ------------------------------------------------------------------------ C01
#[derive(Default)]
struct Slot {
  disk: Option<Vec<u8>>, // durable content
  acked: Option<String>, // digest of the law whose save was acknowledged
  doc: Vec<u8>,          // the bytes that were acknowledged
  text: bool,
}
pub fn put(v: &mut Vec<u8>, b: &[u8]) {
  v.extend_from_slice(&(b.len() as u64).to_le_bytes());
  v.extend_from_slice(b);
}
pub fn take(v: &[u8], p: &mut usize) -> Vec<u8> {
  let n = u64::from_le_bytes(v[*p..*p + 8].try_into().unwrap()) as usize;
  *p += 8 + n;
  v[*p - n..*p].to_vec()
}
fn store(slots: &[Slot]) {
  let mut v = Vec::new();
  for s in slots {
    put(&mut v, &[s.disk.is_some() as u8, s.acked.is_some() as u8, s.text as u8]);
    put(&mut v, s.disk.as_deref().unwrap_or(b""));
    put(&mut v, s.acked.as_deref().unwrap_or("").as_bytes());
    put(&mut v, &s.doc);
  }
  blob_put(&v);
}
fn restore() -> Vec<Slot> {
  let v = blob_get();
  let mut p = 0;
  let mut out = Vec::new();
  while p < v.len() {
    let f = take(&v, &mut p);
    let d = take(&v, &mut p);
    let a = take(&v, &mut p);
    let doc = take(&v, &mut p);
    out.push(Slot {
      disk: if f[0] != 0 { Some(d) } else { None },
      acked: if f[1] != 0 { Some(String::from_utf8(a).unwrap()) } else { None },
      doc,
      text: f[2] != 0,
    });
  }
  out
}
fn c01_check(slots: &[Slot], when: &str) {
  for (i, s) in slots.iter().enumerate() {
    let name = format!("/sim/law{i}.xml");
    let Some(d) = &s.disk else { continue };
    put_file(&name, d.clone());
    let Some(want) = &s.acked else {
      // torn or replaced by an unacknowledged save: anything but a crash
      let r = exec(&Op::Load(name.clone(), benign_read()), &[]);
      if let Some(m) = r.panicked {
        violate("panic", &format!("{when}: loading an unacknowledged file panicked: {m}"));
      }
      continue;
    };
    let op = if choose(S_DOC, 3) == 2 { Op::Parse(Arc::new(d.clone())) } else { Op::Load(name.clone(), benign_read()) };
    let r = exec(&op, &[]);
    count(C::Compared);
    let Some(law) = r.law else {
      violate("acked-save-lost", &format!("{when}: an acknowledged and durable save does not load: {}\n{}", r.digest, show_bytes(d)));
    };
    let got = law_digest(&law);
    if !s.text && got != *want {
      violate("reload-differs", &format!("{when}: the reloaded law differs from the one whose save was acknowledged\n{}", show_bytes(d)));
    }
    // further generations: the document stays as it was
    let gens = if s.text { 2 } else { choose(S_DOC, 3) };
    let mut law = law;
    for k in 0..gens {
      count(C::Generations);
      let laws = [law];
      let sv = exec(&Op::Save(0, benign_sink()), &laws);
      if !sv.digest.starts_with("Ok doc") {
        violate("resave-failed", &format!("{when}: saving the reloaded law again: {}", sv.digest));
      }
      let a = readable(&s.doc, "acknowledged document", "resave-failed");
      let b = readable(&sv.out, "re-saved document", "resave-failed");
      if let Some(x) = same_doc(&a, &b) {
        violate("drift", &format!("{when}: generation {} of the document differs: {x}", k + 2));
      }
      let r2 = exec(&Op::Parse(Arc::new(sv.out)), &[]);
      let Some(l2) = r2.law else {
        violate("acked-save-lost", &format!("{when}: generation {} does not load: {}", k + 2, r2.digest));
      };
      if law_digest(&l2) != got {
        violate("reload-differs", &format!("{when}: generation {} loads as a different law", k + 2));
      }
      law = l2;
    }
  }
}
fn c01(epoch: u32) {
  let nslots = 1 + choose(S_CFG, 2) as usize;
  let cfg = gen_cfg();
  let layout = gen_layout(true);
  let steps = 1 + choose(S_CFG, 4);
  solo(move || {
    let mut slots = if epoch == 0 { (0..nslots).map(|_| Slot::default()).collect::<Vec<_>>() } else { restore() };
    if epoch > 0 {
      log(format_args!("process lifetime {epoch}"));
      c01_check(&slots, "after restart");
      if epoch >= 4 {
        return;
      }
    }
    for _ in 0..steps {
      match choose(S_DOC, 5) {
        3 => {
          c01_check(&slots, "in the same process");
        }
        4 if epoch < 4 => {
          count(C::Crash);
          log(format_args!("crash between operations"));
          store(&slots);
          exit_child(EXIT_NEXT_EPOCH);
        }
        _ => {
          let i = choose(S_DOC, slots.len() as u32) as usize;
          let text = choose(S_DOC, 8) == 7;
          let law = if text {
            let a = gen_text_args(false, false);
            exec(&Op::Text(Arc::new(a)), &[])
          } else {
            let d = new_doc(&cfg, &layout);
            sample_doc("save/crash/reload", &d);
            exec(&Op::Parse(Arc::new(d.bytes)), &[])
          };
          let Some(law) = law.law else {
            count(C::Skipped);
            continue;
          };
          let digest = law_digest(&law);
          // the writer's protocol: new file and rename, or in place
          let in_place = choose(S_DOC, 2) == 1;
          let mut plan = benign_sink();
          let approx = 400 + cfg.budget as usize * 60;
          match choose(S_FAULT, 6) {
            4 => plan.crash_at = Some(choose(S_FAULT, approx as u32) as usize),
            5 => {
              let f = failing_sink(approx);
              plan.err_at = f.err_at;
              plan.zero_at = f.zero_at;
              plan.full_at = f.full_at;
            }
            _ => {}
          }
          let slots_cell = Arc::new(Mutex::new(slots));
          let sc = slots_cell.clone();
          let mut sink = Sink::new(plan);
          sink.on_crash = Some(Box::new(move |written: &[u8]| {
            count(C::Crash);
            count(C::CrashMidSave);
            log(format_args!("crash inside the save after {} bytes", written.len()));
            let mut s = sc.lock().unwrap();
            if in_place {
              // unsynced: some prefix reached the disk, possibly with lost blocks
              let k = choose(S_FAULT, written.len() as u32 + 1) as usize;
              count(C::LostTail);
              let mut d = written[..k].to_vec();
              if choose(S_FAULT, 3) == 2 && k > 64 {
                count(C::TornBlocks);
                let b = choose(S_FAULT, (k / 64) as u32) as usize * 64;
                for x in &mut d[b..(b + 64).min(k)] {
                  *x = 0;
                }
              }
              s[i].disk = Some(d);
              s[i].acked = None;
            }
            store(&s);
            exit_child(EXIT_NEXT_EPOCH);
          }));
          let r = lib_call("write_file", || lib::write_file(&law, &mut sink));
          slots = std::mem::take(&mut *slots_cell.lock().unwrap());
          match r {
            Called::Panicked(m) => violate("panic", &format!("write_file panicked: {m}")),
            Called::Returned(Ok(())) => {
              count(C::OpSaveOk);
              // fsync may fail or the machine may die before it: then not acknowledged
              let fs = choose(S_FAULT, 8);
              if fs == 7 {
                log(format_args!("fsync fails"));
                if in_place {
                  slots[i].disk = Some(sink.data.clone());
                  slots[i].acked = None;
                }
              } else {
                count(C::Sync);
                slots[i] = Slot { disk: Some(sink.data.clone()), acked: Some(digest), doc: sink.data.clone(), text };
              }
            }
            Called::Returned(Err(e)) => {
              count(C::OpSaveErr);
              log(format_args!("save failed: {e:?}"));
              if !sink.failed {
                violate("save-refused", &format!("saving to a sink that never failed returned {e:?}"));
              }
              if in_place {
                slots[i].disk = Some(sink.data.clone());
                slots[i].acked = None;
              }
            }
          }
          state(hash_bytes(&sink.data));
        }
      }
    }
    c01_check(&slots, "at the end");
    if epoch < 4 && choose(S_DOC, 2) == 1 {
      count(C::Restart);
      store(&slots);
      exit_child(EXIT_NEXT_EPOCH);
    }
  });
}

// ------------------------------------------------------------------------ C02
fn c02() {
  let cfg = gen_cfg();
  let layout = gen_layout(true);
  let d = new_doc(&cfg, &layout);
  sample_doc("load/save", &d);
  let name = "/sim/in.xml";
  put_file(name, d.bytes.clone());
  let via = choose(S_DOC, 3);
  solo(move || {
    let op = if via == 2 { Op::Parse(Arc::new(d.bytes.clone())) } else { Op::Load(name.into(), benign_read()) };
    let r = exec(&op, &[]);
    let Some(law) = r.law else {
      violate("schema-document-refused", &format!("a document following the schema does not load: {}\n{}", r.digest, show_bytes(&d.bytes)));
    };
    let op = if choose(S_DOC, 3) == 2 { Op::ToXml(0) } else { Op::Save(0, benign_sink()) };
    let s = exec(&op, &[law]);
    if !s.digest.starts_with("Ok") {
      violate("save-refused", &format!("saving to a healthy sink: {}", s.digest));
    }
    let back = readable(&s.out, "the saved document", "saved-unreadable");
    if let Some(x) = same_doc(&d.tree, &back) {
      violate("not-conserved", &format!("load and save changed the document: {x}\ninput:\n{}", show_bytes(&d.bytes)));
    }
  });
}

// ------------------------------------------------------------------------ C03
/// Is `part` a prefix of a serialisation of the document `whole` (which may order
/// attributes differently)?
fn is_prefix(part: &[u8], whole: &[u8]) -> Option<String> {
  if part.len() <= whole.len() && whole[..part.len()] == *part {
    return None;
  }
  let (a, open) = tokens(part);
  let (b, _) = tokens(whole);
  for (i, t) in a.iter().enumerate() {
    if b.get(i) != Some(t) {
      return Some(format!("token {i} is {t:?}, in the document it is {:?}", b.get(i)));
    }
  }
  let Some(open) = open else { return None };
  let Some(t) = b.get(a.len()) else {
    return Some(format!("{:?} follows after the end of the document", String::from_utf8_lossy(&open)));
  };
  match t {
    Tok::Text(x) => {
      if x.starts_with(&open) {
        None
      } else {
        Some(format!("text {:?} where the document has {:?}", String::from_utf8_lossy(&open), String::from_utf8_lossy(x)))
      }
    }
    Tok::Tag(n, attrs) => {
      if open[0] != b'<' {
        return Some(format!("text {:?} where the document has <{n}", String::from_utf8_lossy(&open)));
      }
      let p = tag_parts(&open[1..]);
      let last = p.len() - 1;
      let nm = n.trim_end_matches('/');
      for (i, s) in p.iter().enumerate() {
        let ok = if i == 0 && last == 0 {
          format!("{nm}/").starts_with(&**s) || n.starts_with(&**s)
        } else if i == 0 {
          s == nm || s == n
        } else if i < last {
          s.is_empty() || attrs.contains(s)
        } else {
          s.is_empty() || s == "/" || attrs.iter().any(|a| a.starts_with(s.trim_end_matches('\u{fffd}')) || format!("{a}/") == *s || *a == *s)
        };
        if !ok {
          return Some(format!("cut tag {:?} where the document has <{n} {attrs:?}", String::from_utf8_lossy(&open)));
        }
      }
      None
    }
  }
}
fn c03() {
  let cfg = if choose(S_CFG, 3) == 2 { gen_cfg() } else { small_cfg() };
  let layout = gen_layout(false);
  let saves = 2 + choose(S_CFG, 6);
  let text = choose(S_CFG, 8) == 7;
  solo(move || {
    let r = if text {
      exec(&Op::Text(Arc::new(gen_text_args(false, false))), &[])
    } else {
      let d = new_doc(&cfg, &layout);
      sample_doc("save with failing sinks", &d);
      exec(&Op::Parse(Arc::new(d.bytes)), &[])
    };
    let Some(law) = r.law else {
      count(C::Skipped);
      return;
    };
    let laws = [law];
    let s = exec(&Op::ToXml(0), &laws);
    if !s.digest.starts_with("Ok") {
      violate("save-refused", &format!("saving to a string: {}", s.digest));
    }
    let whole = s.out;
    let tree = readable(&whole, "the document saved to a string", "saved-unreadable");
    for k in 0..saves {
      let failing = k % 2 == 1;
      let plan = if failing { failing_sink(whole.len() + 2) } else { benign_sink() };
      let r = exec(&Op::Save(0, plan.clone()), &laws);
      if let Some(m) = r.panicked {
        violate("panic", &format!("write_file panicked with sink {plan:?}: {m}"));
      }
      if r.digest.starts_with("Ok") {
        if r.sink_failed {
          violate("false-success", &format!("write_file returned Ok although the sink failed ({plan:?}); it accepted {} of about {} bytes", r.out.len(), whole.len()));
        }
        let t = readable(&r.out, "a save reported as complete", "incomplete-success");
        if let Some(x) = same_doc(&tree, &t) {
          violate("incomplete-success", &format!("a save reported as complete differs from the document: {x} (sink {plan:?})"));
        }
      } else {
        if !r.sink_failed {
          violate("false-failure", &format!("write_file returned {} although the sink never failed ({plan:?})", r.digest));
        }
        if let Some(x) = is_prefix(&r.out, &whole) {
          violate("not-a-prefix", &format!("after a failed save the sink holds something that is not the beginning of the document: {x} (sink {plan:?})"));
        }
      }
    }
  });
}

// ------------------------------------------------------------------------ C04
fn c04() {
  let cfg = if choose(S_CFG, 3) == 2 { gen_cfg() } else { small_cfg() };
  let layout = gen_layout(false);
  let cuts = 4 + choose(S_CFG, 12);
  let raw = choose(S_CFG, 4) == 3;
  solo(move || {
    let mut docs = Vec::new();
    for _ in 0..2 {
      let d = new_doc(&cfg, &layout);
      if docs.is_empty() {
        sample_doc("torn copies", &d);
      }
      if raw {
        docs.push(d.bytes);
        continue;
      }
      let r = exec(&Op::Parse(Arc::new(d.bytes)), &[]);
      let Some(law) = r.law else {
        count(C::Skipped);
        return;
      };
      let s = exec(&Op::Save(0, benign_sink()), &[law]);
      if !s.digest.starts_with("Ok") {
        count(C::Skipped);
        return;
      }
      docs.push(s.out);
    }
    let (new, old) = (&docs[0], &docs[1]);
    let end = match new.iter().rposition(|c| *c == b'>') {
      Some(e) if e > 0 => e, // the cut is at or before the last '>'
      _ => return,
    };
    for _ in 0..cuts {
      let cut = match choose(S_FAULT, 8) {
        0 => end - choose(S_FAULT, end.min(30) as u32) as usize,
        1 | 2 => {
          // right after a '>' somewhere
          let k = choose(S_FAULT, end as u32) as usize;
          new[..k].iter().rposition(|c| *c == b'>').map_or(k, |p| p + 1)
        }
        3 => choose(S_FAULT, end.min(64) as u32) as usize,
        _ => choose(S_FAULT, end as u32) as usize,
      };
      let mut b = new[..cut].to_vec();
      let kind = choose(S_FAULT, 10);
      match kind {
        0 | 1 => count(C::TruncPrefix),
        2 => {
          count(C::NulTail);
          b.resize(cut + 1 + choose(S_FAULT, 600) as usize, 0);
        }
        3 => {
          // the file keeps its length, the tail was never written
          count(C::ZeroBlock);
          b.resize(new.len(), 0);
        }
        4 => {
          count(C::StaleTail);
          if old.len() > cut {
            b.extend_from_slice(&old[cut..]);
          }
        }
        5 => {
          count(C::StaleTail);
          // block-aligned tail of the old file
          let at = (cut + 63) / 64 * 64;
          b.resize(at.min(new.len()), 0);
          let l = b.len();
          if old.len() > l {
            b.extend_from_slice(&old[l..]);
          }
        }
        6 => {
          // all of it was written, and the file goes on with blocks that were only reserved
          count(C::NulTail);
          b = new.clone();
          let block = [1, 16, 512, 4096][choose(S_FAULT, 4) as usize];
          b.resize((b.len() / block + 1) * block, 0);
        }
        7 => {
          // written in place over a file that was longer, which was not cut to the new length
          count(C::StaleTail);
          b = new.clone();
          let from = choose(S_FAULT, old.len() as u32) as usize;
          b.extend_from_slice(&old[if old.len() > new.len() { new.len() } else { from }..]);
        }
        _ => {
          // blocks in the middle that were not written: zeroes, or what the old file had there
          let block = [16, 64, 512][choose(S_FAULT, 3) as usize];
          let at = cut / block * block;
          let end = (at + block * (1 + choose(S_FAULT, 3) as usize)).min(new.len());
          b = new.clone();
          if kind == 8 || old.len() < end {
            count(C::ZeroBlock);
            b[at..end].fill(0);
          } else {
            count(C::StaleTail);
            b[at..end].copy_from_slice(&old[at..end]);
          }
        }
      }
      if xmlread::read(&b).is_ok() || xmlread::listed_shape(&b) {
        count(C::Skipped);
        continue;
      }
      count(C::TornInputs);
      state(hash_bytes(&b));
      let op = if choose(S_FAULT, 2) == 1 {
        put_file("/sim/torn.xml", b.clone());
        Op::Load("/sim/torn.xml".into(), benign_read())
      } else {
        Op::Parse(Arc::new(b.clone()))
      };
      let r = exec(&op, &[]);
      count(C::Compared);
      if let Some(m) = r.panicked {
        violate("panic", &format!("loading a torn document (kind {kind}, cut at {cut} of {}) panicked: {m}", new.len()));
      }
      if r.law.is_some() {
        violate("torn-loaded", &format!("a torn document (kind {kind}, cut at {cut} of {}) was loaded as a law\n{}", new.len(), show_bytes(&b)));
      }
    }
  });
}

// ------------------------------------------------------------------------ C05
fn all_elems<'a>(e: &'a mut Elem, k: &mut usize) -> Option<&'a mut Elem> {
  if *k == 0 {
    return Some(e);
  }
  *k -= 1;
  for n in &mut e.kids {
    if let Node::Elem(c) = n {
      if let Some(r) = all_elems(c, k) {
        return Some(r);
      }
    }
  }
  None
}
fn pick_elem(root: &mut Elem) -> &mut Elem {
  if choose(S_FAULT, 3) == 2 {
    // somewhere along the deepest path
    let mut e = root;
    loop {
      let deepest = e.kids.iter().enumerate().filter_map(|(i, k)| if let Node::Elem(c) = k { Some((c.depth(), i)) } else { None }).max();
      match deepest {
        Some((d, i)) if d > 1 || choose(S_FAULT, 2) == 1 => {
          if d < 4 && choose(S_FAULT, 4) == 3 {
            return e;
          }
          let Node::Elem(c) = &mut e.kids[i] else { unreachable!() };
          e = c;
        }
        _ => return e,
      }
    }
  }
  let n = root.count();
  let mut k = choose(S_FAULT, n as u32) as usize;
  all_elems(root, &mut k).unwrap()
}
const BADVALS: [&str; 24] = [
  "", " ", "x", "-1", "0", "99999999999999999999999999", "1_", "_1", ":", "1:", ":1", "1::2", "1_2_", "１", "true ", "TRUE", "18446744073709551615", "18446744073709551616", "1.5", "+1",
  "_", "1:2:3", "00", "一",
];
const BADPARTS: [&str; 24] =
  ["1", "条", "一", "第", "の", "_", ":", "１", "２", "項", "号", "十", "百", "イ", "x", " ", "-", "０", "章", "\u{3000}", "é", "𠮷", "\u{feff}", "("];
fn bad_value(old: String) -> String {
  match choose(S_FAULT, 4) {
    0 => BADVALS[choose(S_FAULT, BADVALS.len() as u32) as usize].into(),
    1 | 2 => (0..1 + choose(S_FAULT, 4)).map(|_| BADPARTS[choose(S_FAULT, 24) as usize]).collect(),
    _ => {
      // the old value with something lost, added or changed
      let mut c: Vec<char> = old.chars().collect();
      let at = choose(S_FAULT, c.len() as u32 + 1) as usize;
      match choose(S_FAULT, 4) {
        0 => c.truncate(at),
        1 if at < c.len() => {
          c.remove(at);
        }
        2 if at < c.len() => c[at] = BADPARTS[choose(S_FAULT, 24) as usize].chars().next().unwrap(),
        _ => {
          let x: Vec<char> = BADPARTS[choose(S_FAULT, 24) as usize].chars().collect();
          c.splice(at..at, x);
        }
      }
      c.into_iter().collect()
    }
  }
}
fn damage_tree(root: &mut Elem) {
  let g = grammar();
  match choose(S_FAULT, 10) {
    0 => {
      count(C::ElemDrop);
      let e = pick_elem(root);
      if !e.kids.is_empty() {
        let i = choose(S_FAULT, e.kids.len() as u32) as usize;
        e.kids.remove(i);
      }
    }
    1 => {
      count(C::ElemDup);
      let e = pick_elem(root);
      if !e.kids.is_empty() {
        let i = choose(S_FAULT, e.kids.len() as u32) as usize;
        let c = e.kids[i].clone();
        let j = choose(S_FAULT, e.kids.len() as u32 + 1) as usize;
        e.kids.insert(j, c);
      }
    }
    2 => {
      count(C::ElemMove);
      let c = {
        let e = pick_elem(root);
        if e.kids.is_empty() {
          return;
        }
        let i = choose(S_FAULT, e.kids.len() as u32) as usize;
        e.kids.remove(i)
      };
      let e = pick_elem(root);
      let j = choose(S_FAULT, e.kids.len() as u32 + 1) as usize;
      e.kids.insert(j, c);
    }
    3 => {
      count(C::ElemRename);
      let e = pick_elem(root);
      e.name = if choose(S_FAULT, 8) == 7 { "Unknown".into() } else { g.specs[choose(S_FAULT, g.specs.len() as u32) as usize].name.clone() };
    }
    4 => {
      count(C::AttrDrop);
      let e = pick_elem(root);
      if !e.attrs.is_empty() {
        let i = choose(S_FAULT, e.attrs.len() as u32) as usize;
        e.attrs.remove(i);
      }
    }
    5 => {
      count(C::AttrGarble);
      let mut e = pick_elem(root);
      for _ in 0..4 {
        if e.attrs.is_empty() {
          e = pick_elem(root);
        }
      }
      if !e.attrs.is_empty() {
        let i = choose(S_FAULT, e.attrs.len() as u32) as usize;
        let old = std::mem::take(&mut e.attrs[i].1);
        e.attrs[i].1 = bad_value(old);
      }
    }
    6 => {
      count(C::TextGarble);
      let e = pick_elem(root);
      let j = choose(S_FAULT, e.kids.len() as u32 + 1) as usize;
      e.kids.insert(j, Node::Text(["x", "　", "\u{fffd}", "一"][choose(S_FAULT, 4) as usize].into()));
    }
    7 => {
      // all children lost
      count(C::ElemDrop);
      let e = pick_elem(root);
      e.kids.clear();
    }
    8 => {
      // attributes nobody asked for, look-alikes of the real ones among them
      count(C::AttrAdd);
      let e = pick_elem(root);
      for _ in 0..1 + choose(S_FAULT, 3) {
        let name = match choose(S_FAULT, 5) {
          0 if !e.attrs.is_empty() => {
            let n = e.attrs[choose(S_FAULT, e.attrs.len() as u32) as usize].0.clone();
            if choose(S_FAULT, 2) == 1 {
              n.to_lowercase()
            } else {
              n.to_uppercase()
            }
          }
          1 => g.specs.iter().flat_map(|s| s.attrs.iter()).nth(choose(S_FAULT, 40) as usize).map_or("Num".to_string(), |a| a.name.to_string()),
          2 => "xml:lang".to_string(),
          3 => "id".to_string(),
          _ => ["class", "style", "note", "ID", "num", "Xnum"][choose(S_FAULT, 6) as usize].to_string(),
        };
        if e.attrs.iter().all(|a| a.0 != name) {
          e.attrs.push((name, ["1", "2", "x", "true", "vertical"][choose(S_FAULT, 5) as usize].into()));
        }
      }
    }
    _ => {
      // a child replaced by an arbitrary element
      count(C::ElemMove);
      let name = g.specs[choose(S_FAULT, g.specs.len() as u32) as usize].name.clone();
      let e = pick_elem(root);
      let j = choose(S_FAULT, e.kids.len() as u32 + 1) as usize;
      let mut n = Elem::new(&name);
      if choose(S_FAULT, 2) == 1 {
        n.attrs.push(("Num".into(), "1".into()));
      }
      if choose(S_FAULT, 3) == 2 {
        e.kids.clear();
        e.kids.push(Node::Elem(n));
      } else {
        e.kids.insert(j, Node::Elem(n));
      }
    }
  }
}
fn insert_markup(b: &mut Vec<u8>) {
  count(C::CommentIns);
  // right after a tag
  let k = choose(S_FAULT, b.len() as u32) as usize;
  if let Some(p) = b[..k].iter().rposition(|c| *c == b'>') {
    let s: &[u8] = [&b"<!-- x -->"[..], b"<?pi x?>", b"<?pi?>", b"<![CDATA[]]>", b"<![CDATA[x]]>", b"&#x20;", b"&#1;", b"&lt;", b"<!DOCTYPE x>", b"&unknown;"][choose(S_FAULT, 10) as usize];
    let tail = b.split_off(p + 1);
    b.extend_from_slice(s);
    b.extend_from_slice(&tail);
  }
}
fn damage_bytes(b: &mut Vec<u8>) {
  if b.is_empty() {
    return;
  }
  let n = b.len();
  let at = choose(S_FAULT, n as u32) as usize;
  let len = 1 + choose(S_FAULT, [4, 40, 600][choose(S_FAULT, 3) as usize]) as usize;
  let to = (at + len).min(n);
  match choose(S_FAULT, 7) {
    0 => {
      count(C::ByteFlip);
      b[at] ^= 1 << choose(S_FAULT, 8);
    }
    1 => {
      count(C::ByteCut);
      b.drain(at..to);
    }
    2 => {
      count(C::ByteDup);
      let c = b[at..to].to_vec();
      let tail = b.split_off(to);
      b.extend_from_slice(&c);
      b.extend_from_slice(&tail);
    }
    3 => {
      count(C::ByteIns);
      let c: Vec<u8> = (0..len.min(8)).map(|_| [b'<', b'>', b'&', b'"', 0, 0xff, b'/', b' ', 0xe3, b'1'][choose(S_FAULT, 10) as usize]).collect();
      let tail = b.split_off(at);
      b.extend_from_slice(&c);
      b.extend_from_slice(&tail);
    }
    4 => {
      count(C::ByteSwap);
      let k = choose(S_FAULT, n as u32) as usize;
      let l = len.min(n - k.max(at));
      for i in 0..l {
        b.swap(at + i, k + i);
      }
    }
    5 => {
      count(C::ByteZero);
      for x in &mut b[at..to] {
        *x = 0;
      }
    }
    _ => insert_markup(b),
  }
}
fn c05() {
  let cfg = if choose(S_CFG, 3) == 2 { gen_cfg() } else { small_cfg() };
  let layout = gen_layout(false);
  let times = 3 + choose(S_CFG, 8);
  let style = choose(S_CFG, 3); // 0 tree, 1 both, 2 bytes
  solo(move || {
    let d = new_doc(&cfg, &layout);
    sample_doc("damaged copies", &d);
    for _ in 0..times {
      let mut tree = d.tree.clone();
      let mut bytes;
      let k = 1 + choose(S_FAULT, 3);
      if style < 2 {
        for _ in 0..k {
          damage_tree(&mut tree);
        }
      }
      bytes = serialize(grammar(), &tree, &Layout { comments: false, vary: false, ..layout });
      if style > 0 {
        for _ in 0..k {
          damage_bytes(&mut bytes);
        }
      } else if choose(S_FAULT, 3) == 2 {
        insert_markup(&mut bytes);
      }
      count(C::Damaged);
      state(hash_bytes(&bytes));
      set_budget(20_000_000, live_bytes() + (1 << 30));
      let op = if choose(S_FAULT, 3) == 2 {
        put_file("/sim/damaged.xml", bytes.clone());
        Op::Load("/sim/damaged.xml".into(), benign_read())
      } else {
        Op::Parse(Arc::new(bytes.clone()))
      };
      let r = exec(&op, &[]);
      count(C::Compared);
      if let Some(m) = r.panicked {
        violate("panic", &format!("loading a damaged document panicked: {m}\n{}", show_bytes(&bytes)));
      }
      let Some(law) = r.law else { continue };
      let laws = [law];
      let u = exec(&Op::Util(0), &laws);
      if let Some(m) = u.panicked {
        violate("panic", &format!("text extraction from a law loaded from a damaged document panicked: {m}\n{}", show_bytes(&bytes)));
      }
      let s = exec(&Op::Save(0, SinkPlan::default()), &laws);
      if let Some(m) = s.panicked {
        violate("panic", &format!("saving a law loaded from a damaged document panicked: {m}\n{}", show_bytes(&bytes)));
      }
      if !s.digest.starts_with("Ok") {
        violate("unsavable", &format!("a law loaded from a damaged document cannot be saved: {}\n{}", s.digest, show_bytes(&bytes)));
      }
      let r2 = exec(&Op::Parse(Arc::new(s.out.clone())), &[]);
      if let Some(m) = r2.panicked {
        violate("panic", &format!("reloading panicked: {m}\n{}", show_bytes(&s.out)));
      }
      if r2.law.is_none() {
        violate("unreloadable", &format!("a law was loaded from a damaged document, but its saved copy does not load: {}\ndamaged:\n{}\nsaved:\n{}", r2.digest, show_bytes(&bytes), show_bytes(&s.out)));
      }
    }
  });
}

// ------------------------------------------------------------------------ C06
fn c06() {
  let cfg = small_cfg();
  let layout = gen_layout(false);
  let d = new_doc(&cfg, &layout);
  let other = new_doc(&cfg, &layout);
  let mut bytes = d.bytes.clone();
  if choose(S_CFG, 3) == 2 {
    damage_bytes(&mut bytes);
  }
  if choose(S_CFG, 16) == 15 {
    bytes.clear();
  }
  sample_doc("file load", &d);
  let loads = 1 + choose(S_CFG, 4);
  solo(move || {
    for k in 0..loads {
      let name = "/sim/law.xml";
      let fi = put_file(name, bytes.clone());
      let mut plan = match choose(S_FAULT, 5) {
        3 | 4 => failing_read(bytes.len()),
        _ => benign_read(),
      };
      if choose(S_FAULT, 4) == 3 {
        let at = pick_offset(bytes.len() + 1);
        let m = match choose(S_FAULT, 3) {
          0 => Mutation::Replace(other.bytes.clone()),
          1 => Mutation::Append(other.bytes.clone()),
          _ => Mutation::Truncate(pick_offset(bytes.len() + 1)),
        };
        plan.mutate_at = Some((at, m));
      }
      let missing = choose(S_FAULT, 24) == 23;
      let open_fails = plan.open_errno != 0 || missing;
      let path = if missing { "/sim/absent.xml" } else { name };
      world().effects.clear();
      let before = world().fds.len();
      let r = exec(&Op::Load(path.into(), plan.clone()), &[]);
      count(C::Compared);
      if let Some(m) = r.panicked {
        violate("panic", &format!("parse_xml_file panicked: {m} (reads {plan:?})"));
      }
      if open_vfds() > 0 {
        violate("handle-leak", "the file is still open after the call");
      }
      if let Some(e) = world().effects.iter().find(|e| e.contains("writing") || e.contains("write to file") || e.contains("unlink") || e.contains("rename") || e.contains("truncate")) {
        violate("file-modified", &format!("parse_xml_file did: {e}"));
      }
      // the descriptors this call read from
      let fds = &world().fds[before..];
      let failed = open_fails || fds.iter().any(|f| f.failed.is_some());
      if failed {
        if r.digest != "Err Io" {
          violate("io-error-hidden", &format!("opening or reading failed but the call returned {} (reads {plan:?})", r.digest));
        }
        continue;
      }
      let read: Vec<_> = fds.iter().filter(|f| !f.delivered.is_empty() || f.eof_seen).collect();
      if read.len() != 1 {
        if read.is_empty() {
          violate("not-read", &format!("the call returned {} without reading the file", r.digest));
        }
        // read more than once: the result must be that of one of the readings
      }
      let mut ok = false;
      let mut want = String::new();
      for f in &read {
        let bytes = f.delivered.clone();
        want = exec(&Op::Parse(Arc::new(bytes)), &[]).digest;
        ok |= want == r.digest;
      }
      if !ok {
        violate("load-differs", &format!("load {k}: the storage delivered {} bytes whose parse gives [{want}], the call returned [{}] (reads {plan:?})", read[0].delivered.len(), r.digest));
      }
      let f = read.iter().any(|f| !f.eof_seen && f.delivered.len() < world().files[fi].data.len());
      if f {
        violate("short-load", &format!("the call stopped reading before the end of the file (reads {plan:?})"));
      }
    }
  });
}

// ------------------------------------------------------------- mixed histories
struct Mix {
  laws: Arc<Vec<Law>>,
  files: Vec<String>,
  texts: Vec<Arc<TextArgs>>,
  bad: Vec<Arc<Vec<u8>>>,
  good: Vec<Arc<Vec<u8>>>,
  trees: Vec<Elem>,
  lens: Vec<usize>,
}
/// `mark`: the contents carry MARK, to be replaced by something else in every round.
fn mix(cfg: &DocCfg, texts: bool, mark: bool) -> Option<Mix> {
  let layout = gen_layout(false);
  let mut laws = Vec::new();
  let mut files = Vec::new();
  let mut good = Vec::new();
  let mut bad = Vec::new();
  let mut lens = Vec::new();
  let mut trees = Vec::new();
  let n = 1 + choose(S_CFG, 3) as usize;
  for i in 0..n {
    let mut d = new_doc(cfg, &layout);
    let mut dtree = d.tree.clone();
    if mark {
      mark_tree(&mut d.tree, false);
      d.bytes = serialize(grammar(), &d.tree, &layout);
      mark_tree(&mut dtree, choose(S_FAULT, 3) != 0);
    }
    if i == 0 {
      sample_doc("history over", &d);
    }
    let name = if mark { format!("/sim/f{i}.{MARK}.xml") } else { format!("/sim/f{i}.xml") };
    put_file(&name, d.bytes.clone());
    files.push(name);
    lens.push(d.bytes.len() * 2);
    let mut b = d.bytes.clone();
    if choose(S_FAULT, 2) == 1 {
      let mut t = dtree;
      for _ in 0..choose(S_FAULT, 4).max(!mark as u32) {
        damage_tree(&mut t);
      }
      b = serialize(grammar(), &t, &Layout { comments: false, vary: false, ..layout });
    } else {
      damage_bytes(&mut b);
    }
    bad.push(Arc::new(b));
    good.push(Arc::new(d.bytes.clone()));
    laws.push(setup_law(d.bytes)?);
    trees.push(d.tree);
  }
  let mut ts = Vec::new();
  if texts {
    let k = 1 + choose(S_CFG, 2);
    for i in 0..k {
      let damage = i == 1;
      let mut a = gen_text_args(false, damage);
      // keep these short: they are parsed many times
      let cut: Vec<String> = a.text.lines().take(8).map(|l| l.to_string()).collect();
      a.text = cut.join("\n");
      if mark {
        let mut v: Vec<String> = cut.iter().map(|l| if choose(S_FAULT, 2) == 0 { format!("{l}{MARK}") } else { l.to_string() }).collect();
        if choose(S_FAULT, 2) == 0 {
          let at = choose(S_FAULT, v.len() as u32 + 1) as usize;
          v.insert(at, [format!("第{MARK}条　文"), format!("別表第{MARK}"), format!("（{MARK}）"), format!("第{MARK}章　文")][choose(S_FAULT, 4) as usize].clone());
        }
        a.text = v.join("\n");
        a.title.push_str(MARK);
        a.law_num.push_str(MARK);
        a.num = [None, Some(MARK.to_string()), Some(format!("{MARK}x"))][choose(S_FAULT, 3) as usize].clone();
      }
      ts.push(Arc::new(a));
    }
  }
  Some(Mix { laws: Arc::new(laws), files, texts: ts, bad, good, trees, lens })
}
impl Mix {
  /// A random operation; `faults`: 0 none, 1 harmless ones, 2 failing ones too.
  fn op(&self, faults: u32) -> Op {
    let n = self.laws.len() as u32;
    self.op_on(choose(S_DOC, n) as usize, faults)
  }
  fn op_on(&self, i: usize, faults: u32) -> Op {
    match choose(S_DOC, 8) {
      0 => Op::Parse(self.good[i].clone()),
      1 | 2 => Op::Load(
        self.files[i].clone(),
        match faults {
          0 => ReadPlan::default(),
          2 if choose(S_FAULT, 2) == 1 => failing_read(self.lens[i] / 2),
          _ => benign_read(),
        },
      ),
      3 => Op::ToXml(i),
      4 if !self.texts.is_empty() => Op::Text(self.texts[choose(S_DOC, self.texts.len() as u32) as usize].clone()),
      5 => Op::Util(i),
      6 => Op::Parse(self.bad[i].clone()),
      _ => Op::Save(
        i,
        match faults {
          0 => SinkPlan::default(),
          2 if choose(S_FAULT, 2) == 1 => failing_sink(self.lens[i]),
          _ => benign_sink(),
        },
      ),
    }
  }
}
fn read_failed_since(before: usize, plan: &ReadPlan) -> bool {
  plan.open_errno != 0 || world().fds[before..].iter().any(|f| f.failed.is_some())
}
fn op_key(op: &Op) -> String {
  match op {
    Op::Parse(b) => format!("p{:x}", hash_bytes(b)),
    Op::Load(n, _) => format!("l{n}"),
    Op::ToXml(i) => format!("x{i}"),
    Op::Save(i, _) => format!("s{i}"),
    Op::Text(a) => format!("t{:x}", hash_bytes(format!("{a:?}").as_bytes())),
    Op::Util(i) => format!("u{i}"),
  }
}
/// Reference results of operations, each from a fresh process (memoised).
struct Refs(Vec<(String, String)>);
impl Refs {
  fn get(&mut self, op: &Op, laws: &Arc<Vec<Law>>) -> String {
    let k = op_key(op);
    if let Some(r) = self.0.iter().find(|r| r.0 == k) {
      return r.1.clone();
    }
    let v = alone(op, laws);
    self.0.push((k, v.clone()));
    v
  }
}

// ------------------------------------------------------------------------ C07
fn c07() {
  let cfg = small_cfg();
  let Some(m) = mix(&cfg, choose(S_CFG, 2) == 1, false) else {
    count(C::Skipped);
    return;
  };
  let nt = 2 + choose(S_CFG, 6) as usize;
  let mean = [20, 100, 500, 3000, 5][choose(S_CFG, 5) as usize];
  let faults = choose(S_CFG, 3);
  let echo = choose(S_CFG, 2) == 1; // all tasks are busy with the same document
  let blocked = choose(S_CFG, 3) == 2; // one task's sink waits for all the others
  let mut refs = Refs(Vec::new());
  let mut scripts: Vec<Vec<(Op, String)>> = Vec::new();
  for t in 0..nt {
    let mut v = Vec::new();
    for _ in 0..1 + choose(S_DOC, 4) {
      let mut op = if echo { m.op_on(0, faults) } else { m.op(faults) };
      if let Op::Save(_, p) = &mut op {
        if choose(S_FAULT, 8) == 7 {
          p.reenter_16 = 1;
        }
      }
      let r = refs.get(&op, &m.laws);
      v.push((op, r));
    }
    if blocked && t == 0 {
      let i = choose(S_DOC, m.laws.len() as u32) as usize;
      let op = Op::Save(i, SinkPlan { block_at: Some((choose(S_FAULT, m.lens[i] as u32 / 2) as usize, 1)), ..benign_sink() });
      let r = refs.get(&op, &m.laws);
      v.insert(choose(S_DOC, v.len() as u32 + 1) as usize, (op, r));
    }
    scripts.push(v);
  }
  sample(&format!("{nt} tasks, {} operations, mean {mean} allocation steps between preemptions{}", scripts.iter().map(|s| s.len()).sum::<usize>(), if blocked { ", one sink blocked until the others finish" } else { "" }));
  let left = Arc::new(AtomicU32::new(nt as u32 - 1));
  let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
  set_budget(200_000_000, i64::MAX);
  for (t, script) in scripts.into_iter().enumerate() {
    let laws = m.laws.clone();
    let left = left.clone();
    tasks.push(Box::new(move || {
      for (k, (op, want)) in script.iter().enumerate() {
        let me_before = world().fds.len();
        let r = exec(op, &laws);
        count(C::Compared);
        let expected_failure = match op {
          Op::Save(..) => r.sink_failed,
          Op::Load(_, p) => p.open_errno != 0 || world().fds[me_before..].iter().any(|f| f.failed.is_some() && f.opener == t as i32),
          _ => false,
        };
        if expected_failure {
          if r.digest != "Err Io" {
            violate("wrong-failure", &format!("task {t} operation {k} {}: its own I/O failed, it returned [{}]", op.label(), r.digest));
          }
        } else if r.full() != *want {
          violate("interference", &format!("task {t} operation {k} {}: alone it gives [{want}], here [{}]", op.label(), r.full()));
        }
      }
      if t > 0 && left.fetch_sub(1, SeqCst) == 1 {
        open_gate(1);
      }
    }));
  }
  run_tasks(mean, tasks);
}

// ------------------------------------------------------------------------ C08
fn c08() {
  let cfg = small_cfg();
  let Some(m) = mix(&cfg, choose(S_CFG, 2) == 1, false) else {
    count(C::Skipped);
    return;
  };
  let ops: Vec<Op> = (0..2 + choose(S_DOC, 4)).map(|_| m.op(0)).collect();
  let mut results: Vec<(String, String)> = Vec::new();
  let n = 3;
  for k in 0..n {
    // draw outside: the reference process itself takes no choices
    draw_ambient();
    let w = world();
    let what = format!("process {k}: hash seed {:x}, clock {}+{}, env {}/{}, pid {}, cwd {}", w.hash_seed, w.real, w.clock_step, w.env_mode, w.env_seed, w.pid, w.cwd_mode);
    log(format_args!("{what}"));
    let order = choose(S_AMB, 2);
    let (ops2, laws) = (ops.clone(), m.laws.clone());
    let r = isolated(
      || (),
      move || {
        if order == 1 {
          // the hash state this thread already consumed differs too
          for _ in 0..3 {
            let _ = lib_call("warm-up", || lib::parse_xml(TINY));
          }
        }
        ops2.iter().map(|o| exec(o, &laws).full()).collect::<Vec<_>>().join("\n")
      },
    );
    count_n(C::LibCalls, ops.len() as u64);
    count(C::HashSeed);
    results.push((what, r));
    count(C::Compared);
  }
  sample(&format!("{} operations in {n} processes with different ambients", ops.len()));
  for (w, r) in &results[1..] {
    if *r != results[0].1 {
      let (a, b): (Vec<&str>, Vec<&str>) = (results[0].1.lines().collect(), r.lines().collect());
      let i = (0..a.len()).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
      violate("ambient-dependence", &format!("{}: [{}] in {}, [{}] in {w}", ops[i].label(), a[i], results[0].0, b.get(i).unwrap_or(&"nothing")));
    }
  }
  for r in results[0].1.lines() {
    state(hash_bytes(r.as_bytes()));
  }
}

// ------------------------------------------------------------------------ C09
fn c09() {
  let cfg = small_cfg();
  let Some(m) = mix(&cfg, true, false) else {
    count(C::Skipped);
    return;
  };
  let mode = choose(S_FAULT, 4);
  let n = 2 + choose(S_CFG, 6);
  let threads = 1 + choose(S_CFG, 3) as usize;
  let ops: Vec<Op> = (0..n).map(|_| m.op(2)).collect();
  sample(&format!("{n} operations on {threads} threads, standard output mode {mode} (0 fine, 1 EPIPE, 2 ENOSPC, 3 EIO)"));
  let laws = m.laws.clone();
  let mut refs = Refs(Vec::new());
  let want: Vec<String> = ops.iter().map(|o| refs.get(o, &laws)).collect();
  world().stdout_mode = mode;
  world().effects.clear();
  let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
  let work: Vec<(usize, Op, String)> = ops.into_iter().zip(want).enumerate().map(|(i, (o, w))| (i, o, w)).collect();
  for t in 0..threads {
    let mine: Vec<_> = work.iter().filter(|w| w.0 % threads == t).cloned().collect();
    let laws = laws.clone();
    tasks.push(Box::new(move || {
      for (i, op, want) in mine {
        let before = world().fds.len();
        let r = exec(&op, &laws);
        flush_std();
        count(C::Compared);
        if let Some(p) = world().effects_by.iter().position(|b| *b == t as i32) {
          violate("side-effect", &format!("operation {i} {}: {}", op.label(), world().effects[p]));
        }
        let failed = match &op {
          Op::Save(..) => r.sink_failed,
          Op::Load(_, p) => p.open_errno != 0 || world().fds[before..].iter().any(|f| f.failed.is_some() && f.opener == t as i32),
          _ => false,
        };
        if !failed && r.full() != want {
          violate("stdout-dependence", &format!("operation {i} {} with standard output mode {mode}: [{}] instead of [{want}]", op.label(), r.full()));
        }
      }
    }));
  }
  // the paths asked for are the only ones opened
  run_tasks([0, 50, 500][choose(S_CFG, 3) as usize], tasks);
  if let Some(e) = world().effects.first() {
    violate("side-effect", &format!("left behind: {e}"));
  }
  for f in 0..m.files.len() {
    let i = find_file(&m.files[f]).unwrap();
    if world().files[i].data != *m.good[f] {
      violate("file-modified", &format!("{} changed", m.files[f]));
    }
  }
}

// ------------------------------------------------------------------------ C10
fn c10() {
  let damage = choose(S_CFG, 3);
  let times = 1 + choose(S_CFG, 3);
  let odd_args = choose(S_CFG, 4) == 3;
  solo(move || {
    for _ in 0..times {
      let mut a = gen_text_args(true, damage > 0);
      if odd_args {
        a.num = [Some("x".to_string()), Some("".to_string()), None, Some("1:2".into())][choose(S_FAULT, 4) as usize].clone();
        match choose(S_FAULT, 6) {
          0 => a.month = Some([0, 13, 2, 99, usize::MAX][choose(S_FAULT, 5) as usize]),
          1 => a.day = Some([0, 32, 31, 30, 4294967297][choose(S_FAULT, 5) as usize]),
          2 => a.year = [0, 1, 1600, 1867, 1868, 9999, 4294967296 + 2000, usize::MAX][choose(S_FAULT, 8) as usize],
          3 => a.title = gen_text(&CharMix { markup: true, space: true, astral: true, long: false, newline: true }),
          _ => {}
        }
      }
      count(C::Damaged);
      state(hash_bytes(a.text.as_bytes()));
      sample(&format!("{} lines: {}", a.text.lines().count(), clip(&a.text.replace('\n', "⏎"), 200)));
      let lines = a.text.lines().count() as u64 + 2;
      let longest = a.text.lines().map(|l| l.len()).max().unwrap_or(0) as u64;
      set_budget(400_000 + lines * 60_000 + longest * 2000, live_bytes() + (256 << 20));
      let s0 = sh().steps;
      let r = exec(&Op::Text(Arc::new(a.clone())), &[]);
      log(format_args!("{} steps for {lines} lines", sh().steps - s0));
      count(C::Compared);
      if let Some(m) = r.panicked {
        violate("panic", &format!("parse_text panicked: {m}\n{}", clip(&format!("{a:?}"), 3000)));
      }
      let Some(law) = r.law else { continue };
      set_budget(50_000_000, i64::MAX);
      let laws = [law];
      let u = exec(&Op::Util(0), &laws);
      if let Some(m) = u.panicked {
        violate("panic", &format!("text extraction from a law parsed from text panicked: {m}\n{}", clip(&a.text, 2000)));
      }
      let s = exec(&Op::Save(0, SinkPlan::default()), &laws);
      if let Some(m) = s.panicked {
        violate("panic", &format!("saving a law parsed from text panicked: {m}"));
      }
      // characters XML cannot carry are a separate, listed matter
      if a.text.contains('\0') {
        count(C::Skipped);
        continue;
      }
      if !s.digest.starts_with("Ok doc") {
        violate("unsavable", &format!("a law parsed from text is not saved as a document: {}\n{}", s.digest, clip(&a.text, 2000)));
      }
      let r2 = exec(&Op::Parse(Arc::new(s.out.clone())), &[]);
      if let Some(m) = r2.panicked {
        violate("panic", &format!("reloading a law parsed from text panicked: {m}"));
      }
      let Some(l2) = r2.law else {
        violate("unreloadable", &format!("a law parsed from text was saved but does not load: {}\n{}\n{}", r2.digest, clip(&a.text, 1500), show_bytes(&s.out)));
      };
      let s2 = exec(&Op::ToXml(0), &[l2]);
      if s2.digest != s.digest {
        let (x, y) = (readable(&s.out, "saved", "unsavable"), readable(&s2.out, "saved again", "unsavable"));
        violate("reload-differs", &format!("saving the reloaded law gives another document: {}", same_doc(&x, &y).unwrap_or_default()));
      }
    }
  });
}

// ------------------------------------------------------------------------ C11
fn c11() {
  let cfg = small_cfg();
  let Some(m) = mix(&cfg, choose(S_CFG, 3) == 2, true) else {
    count(C::Skipped);
    return;
  };
  let n = 1 + choose(S_CFG, 6);
  let mut ops: Vec<Op> = (0..n).map(|_| m.op(2)).collect();
  for o in &mut ops {
    if let Op::Save(i, p) = o {
      if choose(S_FAULT, 4) == 3 {
        p.panic_at = Some(choose(S_FAULT, m.lens[*i] as u32) as usize);
      }
    }
  }
  sample(&format!("{n} operations repeated in rounds: {}", ops.iter().map(|o| o.label()).collect::<Vec<_>>().join("; ")));
  solo(move || {
    let mut live: Vec<i64> = Vec::with_capacity(700);
    // everything loaded, saved or parsed differs from round to round (see `salt`), so
    // that whatever is remembered about one round is of no use in the next
    let mut rounds = 12;
    while live.len() < rounds {
      let round = live.len();
      count(C::Rounds);
      let base_fds = world().fds.len();
      let base_files = world().files.len();
      {
        let mut laws = Vec::new();
        for (i, g) in m.good.iter().enumerate() {
          let b = salt(g, round);
          let r = exec(&Op::Parse(Arc::new(b.clone())), &[]);
          let Some(l) = r.law else {
            violate("poisoned", &format!("round {round}: a document that loads in other rounds is refused: {}\n{}", r.digest, show_bytes(&b)));
          };
          laws.push(l);
          put_file(&salt_str(&m.files[i], round), b);
        }
        for (k, op) in ops.iter().enumerate() {
          let op = match op {
            Op::Parse(b) => Op::Parse(Arc::new(salt(b, round))),
            Op::Load(n, p) => Op::Load(salt_str(n, round), p.clone()),
            Op::Text(a) => {
              let mut a = (**a).clone();
              for s in [&mut a.text, &mut a.law_num, &mut a.title] {
                *s = salt_str(s, round);
              }
              a.num = a.num.map(|n| salt_str(&n, round));
              Op::Text(Arc::new(a))
            }
            o => o.clone(),
          };
          let _ = exec(&op, &laws);
          if open_vfds() > 0 {
            violate("handle-leak", &format!("round {round}, operation {k} {}: a file is still open afterwards", op.label()));
          }
        }
      }
      // the simulator's own records of this round
      let w = world();
      w.fds.truncate(base_fds);
      w.fds.shrink_to_fit();
      w.files.truncate(base_files);
      w.files.shrink_to_fit();
      w.effects = Vec::new();
      w.effects_by = Vec::new();
      count(C::Compared);
      live.push(live_bytes());
      // a bounded cache may fill up first; a leak goes on growing
      let n = live.len();
      if n == rounds && live[n - 1] > live[n / 2 - 1] {
        if n < 600 {
          arm_timers();
          rounds = if n == 12 { 150 } else { n * 2 };
        } else {
          violate("memory-leak", &format!("memory held after 12, 75, 150, 300 and {n} rounds: {:?}\n{}", [live[11], live[74], live[149], live[299], live[n - 1]], ops.iter().map(|o| o.label()).collect::<Vec<_>>().join("\n")));
        }
      }
    }
  });
}
/// Stands for "different in every round".
const MARK: &str = "770000";
fn salt_str(s: &str, round: usize) -> String {
  s.replace(MARK, &format!("77{round:04}"))
}
fn salt(b: &[u8], round: usize) -> Vec<u8> {
  let by = format!("77{round:04}");
  let mut v = b.to_vec();
  let mut i = 0;
  while i + MARK.len() <= v.len() {
    if v[i..].starts_with(MARK.as_bytes()) {
      v[i..i + MARK.len()].copy_from_slice(by.as_bytes());
      i += MARK.len();
    } else {
      i += 1;
    }
  }
  v
}
/// Puts the mark into some texts and attribute values. `wild`: also where it is wrong.
fn mark_tree(e: &mut Elem, wild: bool) {
  let g = grammar();
  for a in &mut e.attrs {
    if choose(S_FAULT, 3) != 0 {
      continue;
    }
    let ty = g.spec(&e.name).and_then(|s| s.attrs.iter().find(|x| x.name == a.0)).map(|x| &x.ty);
    match ty {
      Some(crate::grammar::Ty::Art) | Some(crate::grammar::Ty::Us) => a.1 = MARK.into(),
      Some(crate::grammar::Ty::Str) => a.1.push_str(MARK),
      _ => {}
    }
  }
  if wild && choose(S_FAULT, 6) == 0 && !e.attrs.is_empty() {
    let i = choose(S_FAULT, e.attrs.len() as u32) as usize;
    let v = &mut e.attrs[i].1;
    match choose(S_FAULT, 3) {
      0 => v.push_str(MARK),
      1 => v.insert_str(0, MARK),
      _ => *v = format!("x{MARK}"),
    }
  }
  if wild && choose(S_FAULT, 12) == 0 {
    e.name.push_str(MARK);
  }
  if wild && choose(S_FAULT, 12) == 0 {
    e.attrs.push((format!("A{MARK}"), MARK.into()));
  }
  for k in &mut e.kids {
    match k {
      Node::Text(t) if choose(S_FAULT, 2) == 0 => t.push_str(MARK),
      Node::Text(_) => {}
      Node::Elem(c) => mark_tree(c, wild),
    }
  }
}

// ------------------------------------------------------------------------ C12
fn c12() {
  let cfg = small_cfg();
  let Some(m) = mix(&cfg, choose(S_CFG, 2) == 1, false) else {
    count(C::Skipped);
    return;
  };
  let n = 2 + choose(S_CFG, 7);
  let mut script: Vec<(Op, String, usize, bool)> = Vec::new();
  let mut refs = Refs(Vec::new());
  let threads = 1 + (choose(S_CFG, 3) == 2) as usize;
  for _ in 0..n {
    let mut op = m.op(2);
    if let Op::Save(i, p) = &mut op {
      if choose(S_FAULT, 3) == 2 {
        *p = benign_sink();
        p.panic_at = Some(choose(S_FAULT, m.lens[*i] as u32) as usize);
      }
    }
    let w = refs.get(&op, &m.laws);
    script.push((op, w, 1, true));
  }
  // a storm: the same operations fail over and over, then everything must still work
  if choose(S_CFG, 3) == 2 {
    let layout = gen_layout(false);
    let mut storm = Vec::new();
    for _ in 0..1 + choose(S_CFG, 4) {
      let i = choose(S_DOC, m.laws.len() as u32) as usize;
      let op = match choose(S_FAULT, 6) {
        0 => Op::Load(m.files[i].clone(), failing_read(m.lens[i] / 2)),
        1 => {
          let mut p = failing_sink(m.lens[i]);
          if choose(S_FAULT, 3) == 2 {
            p = SinkPlan { panic_at: Some(choose(S_FAULT, m.lens[i] as u32) as usize), ..Default::default() };
          }
          Op::Save(i, p)
        }
        2 => {
          let cut = choose(S_FAULT, m.good[i].len() as u32) as usize;
          Op::Parse(Arc::new(m.good[i][..cut].to_vec()))
        }
        _ => {
          let mut t = m.trees[i].clone();
          for _ in 0..1 + choose(S_FAULT, 2) {
            damage_tree(&mut t);
          }
          Op::Parse(Arc::new(serialize(grammar(), &t, &Layout { comments: false, vary: false, ..layout })))
        }
      };
      let reps = [2, 20, 150, 300][choose(S_CFG, 4) as usize].min(400_000 / m.lens[i].max(1)).max(2);
      count_n(C::Storm, reps as u64);
      let w = refs.get(&op, &m.laws);
      // in some storms nothing is tried again before the storm is over
      storm.push((op, w, reps, choose(S_CFG, 2) == 1));
    }
    let k = choose(S_CFG, script.len() as u32 + 1) as usize;
    script.splice(k..k, storm);
    for i in 0..m.laws.len() {
      for op in [Op::Load(m.files[i].clone(), benign_read()), Op::Parse(m.good[i].clone()), Op::Save(i, benign_sink()), Op::Util(i)] {
        let w = refs.get(&op, &m.laws);
        script.push((op, w, 1, true));
      }
    }
    for t in &m.texts {
      let op = Op::Text(t.clone());
      let w = refs.get(&op, &m.laws);
      script.push((op, w, 1, true));
    }
  }
  sample(&format!("history of {n} operations: {}", script.iter().map(|o| if o.2 > 1 { format!("{} x {}", o.0.label(), o.2) } else { o.0.label() }).collect::<Vec<_>>().join("; ")));
  let law_before: Vec<String> = m.laws.iter().map(law_digest).collect();
  let laws = m.laws.clone();
  let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
  for t in 0..threads {
    let script = script.clone();
    let laws = laws.clone();
    let law_before = law_before.clone();
    tasks.push(Box::new(move || {
      for (k, (op, want, retry)) in script.iter().flat_map(|(op, want, reps, retry)| (0..*reps).map(move |_| (op, want, *retry))).enumerate() {
        if k % 50 == 49 {
          arm_timers();
        }
        let before = world().fds.len();
        let r = exec(op, &laws);
        count(C::Compared);
        let own_fail = match op {
          Op::Save(..) => r.sink_failed,
          Op::Load(_, p) => p.open_errno != 0 || world().fds[before..].iter().any(|f| f.failed.is_some() && f.opener == t as i32),
          _ => false,
        };
        if let (Some(m), false) = (&r.panicked, own_fail) {
          if !want.starts_with("panic") {
            violate("poisoned", &format!("operation {k} {} panicked after earlier failures: {m}", op.label()));
          }
        }
        if !own_fail && r.full() != *want {
          violate("poisoned", &format!("operation {k} {}: in a fresh process [{want}], after this history [{}]", op.label(), r.full()));
        }
        if own_fail && retry {
          // the same operation again, with nothing in its way
          count(C::Retry);
          let h = exec(&op.healthy(), &laws);
          if h.full() != *want {
            violate("retry-failed", &format!("operation {k} {}: retried on a healthy sink or disk after its failure: [{}] instead of [{want}]", op.label(), h.full()));
          }
        }
        if let Op::Save(i, _) | Op::ToXml(i) | Op::Util(i) = op {
          if law_digest(&laws[*i]) != law_before[*i] {
            violate("law-changed", &format!("operation {k} {} changed the law it was given", op.label()));
          }
        }
      }
    }));
  }
  run_tasks([0, 100][choose(S_CFG, 2) as usize], tasks);
}

// ------------------------------------------------------------------------ C13
fn c13() {
  let mut cfg = small_cfg();
  cfg.chars = CharMix { markup: true, space: true, astral: true, long: choose(S_CFG, 3) == 2, newline: choose(S_CFG, 2) == 1 };
  cfg.attrnum = 6;
  let layout = gen_layout(false);
  let text = choose(S_CFG, 4) == 3;
  solo(move || {
    if text {
      let mut a = gen_text_args(false, false);
      a.title = gen_text(&cfg.chars);
      a.law_num = gen_text(&cfg.chars);
      let mut sentences = Vec::new();
      let mut t = String::new();
      for i in 0..1 + choose(S_DOC, 3) {
        let s = gen_text(&cfg.chars).replace(['\n', '\t'], "");
        let s = s.trim().to_string();
        let s = format!("本{s}末");
        t.push_str(&format!("第{}条　{s}\n", textgen::kansuji(i + 1)));
        sentences.push(s);
      }
      a.text = t;
      sample(&format!("title {:?}, text {:?}", clip(&a.title, 60), clip(&a.text, 100)));
      let r = exec(&Op::Text(Arc::new(a.clone())), &[]);
      let Some(law) = r.law else {
        violate("text-refused", &format!("a law text with unusual characters was refused: {}", r.digest));
      };
      let s = exec(&Op::Save(0, benign_sink()), &[law]);
      if !s.digest.starts_with("Ok") {
        violate("save-refused", &format!("saving: {}", s.digest));
      }
      let e = readable(&s.out, "the saved document", "saved-unreadable");
      let mut got = Vec::new();
      collect(&e, &mut got);
      count(C::Compared);
      for (want, what) in sentences.iter().map(|s| (s, "Sentence")).chain([(&a.title, "LawTitle"), (&a.law_num, "LawNum")]) {
        if !got.iter().any(|(n, t)| n == what && t == want) {
          violate("characters-changed", &format!("{what} {:?} is not in the saved document:\n{}", clip(want, 200), show_bytes(&s.out)));
        }
      }
      return;
    }
    let d = new_doc(&cfg, &layout);
    sample_doc("unusual characters", &d);
    let r = exec(&Op::Parse(Arc::new(d.bytes.clone())), &[]);
    let Some(law) = r.law else {
      count(C::Skipped);
      return;
    };
    let laws = [law];
    for k in 0..2 {
      let s = if k == 0 { exec(&Op::Save(0, benign_sink()), &laws) } else { exec(&Op::ToXml(0), &laws) };
      if let Some(m) = s.panicked {
        violate("panic", &format!("saving panicked: {m}"));
      }
      if !s.digest.starts_with("Ok") {
        violate("save-refused", &format!("saving: {}", s.digest));
      }
      let e = readable(&s.out, "the saved document", "saved-unreadable");
      count(C::Compared);
      // exactly the characters that went in, text by text and attribute by attribute
      if let Some(x) = same_doc(&d.tree, &e) {
        violate("characters-changed", &format!("{x}\ninput:\n{}", show_bytes(&d.bytes)));
      }
      let r = exec(&Op::Parse(Arc::new(s.out)), &[]);
      if r.law.is_none() {
        violate("unreloadable", &format!("the saved document does not load: {}", r.digest));
      }
    }
  });
}
fn collect(e: &Elem, out: &mut Vec<(String, String)>) {
  let mut t = String::new();
  for k in &e.kids {
    match k {
      Node::Text(s) => t.push_str(s),
      Node::Elem(c) => collect(c, out),
    }
  }
  if !t.is_empty() {
    out.push((e.name.clone(), t));
  }
}

// ------------------------------------------------------------------------ C14
/// Writes a snapshot of anything into a sink.
fn snapshot<T: serde::Serialize>(v: &T, sink: &mut Sink, what: &str) -> Result<(), crate::json::Error> {
  must(lib_call(&format!("serialize {what}"), || v.serialize(&mut crate::json::Ser(&mut *sink))), &format!("serialising {what}"))
}
fn restored<T: serde::de::DeserializeOwned>(b: &[u8], what: &str) -> Result<T, String> {
  let mut v = crate::json::read(b).map_err(|e| format!("the stored snapshot is not readable: {e}"))?;
  if choose(S_FAULT, 2) == 1 {
    crate::json::shuffle_fields(&mut v);
  }
  let own = choose(S_FAULT, 2) == 1;
  must(lib_call(&format!("deserialize {what}"), || T::deserialize(crate::json::De { v, own })), &format!("deserialising {what}")).map_err(|e| e.to_string())
}
fn hash_of<T: std::hash::Hash>(v: &T) -> u64 {
  #[allow(deprecated)]
  let mut h = std::hash::SipHasher::new();
  v.hash(&mut h);
  std::hash::Hasher::finish(&h)
}
/// Snapshot and restore in one process: equal in every way.
fn there_and_back<T: serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::hash::Hash + std::fmt::Debug>(v: &T, what: &str) {
  let mut s = Sink::new(benign_sink());
  if let Err(e) = snapshot(v, &mut s, what) {
    violate("snapshot-refused", &format!("a snapshot of {what} was refused: {e}"));
  }
  count(C::Compared);
  match restored::<T>(&s.data, what) {
    Err(e) => violate("snapshot-lost", &format!("a snapshot of {what} is not restored: {e}\n{}", show_bytes(&s.data))),
    Ok(r) => {
      if r != *v || format!("{r:?}") != format!("{v:?}") || hash_of(&r) != hash_of(v) {
        violate("restored-differs", &format!("the restored {what} differs\n{}\n{}", clip(&format!("{v:?}"), 1500), clip(&format!("{r:?}"), 1500)));
      }
    }
  }
}
fn c14_check(slots: &[Slot], when: &str) {
  for s in slots {
    let (Some(d), Some(want)) = (&s.disk, &s.acked) else { continue };
    count(C::Compared);
    let law: Law = match restored(d, "a law") {
      Ok(l) => l,
      Err(e) => violate("snapshot-lost", &format!("{when}: an acknowledged and durable snapshot is not restored: {e}\n{}", show_bytes(d))),
    };
    if law_digest(&law) != *want {
      violate("restored-differs", &format!("{when}: the law restored from its snapshot differs\n{}", show_bytes(d)));
    }
    let x = exec(&Op::ToXml(0), &[law]);
    if !x.digest.starts_with("Ok doc") {
      violate("unsavable", &format!("{when}: a restored law cannot be saved: {}", x.digest));
    }
    let (a, b) = (readable(&s.doc, "the document saved before", "unsavable"), readable(&x.out, "the document saved from the snapshot", "unsavable"));
    if let Some(m) = same_doc(&a, &b) {
      violate("restored-differs", &format!("{when}: the restored law saves as another document: {m}"));
    }
  }
}
fn c14(epoch: u32) {
  let cfg = gen_cfg();
  let layout = gen_layout(false);
  let steps = 1 + choose(S_CFG, 4);
  solo(move || {
    let mut slots = if epoch == 0 { (0..2).map(|_| Slot::default()).collect::<Vec<_>>() } else { restore() };
    if epoch > 0 {
      log(format_args!("process lifetime {epoch}"));
      c14_check(&slots, "after restart");
      if epoch >= 4 {
        return;
      }
    }
    for _ in 0..steps {
      let i = choose(S_DOC, 2) as usize;
      let r = if choose(S_DOC, 5) == 4 {
        exec(&Op::Text(Arc::new(gen_text_args(false, false))), &[])
      } else {
        let d = new_doc(&cfg, &layout);
        sample_doc("snapshot/crash/restore", &d);
        exec(&Op::Parse(Arc::new(d.bytes)), &[])
      };
      let Some(law) = r.law else {
        count(C::Skipped);
        continue;
      };
      if choose(S_DOC, 3) == 2 {
        there_and_back(&law, "a law");
        let copy = law.clone();
        if copy != law || hash_of(&copy) != hash_of(&law) || law_digest(&copy) != law_digest(&law) {
          violate("restored-differs", "a cloned law differs from the original");
        }
        let (arts, _) = lib::utils::article_list_from_main_provision(&law.law_body.main_provision);
        for a in arts.iter().take(4) {
          there_and_back(&lib::utils::text_info_list_from_paragraph(&a.paragraph), "a list of texts with their positions");
        }
        continue;
      }
      let digest = law_digest(&law);
      let laws = [law];
      let x = exec(&Op::ToXml(0), &laws);
      if !x.digest.starts_with("Ok doc") {
        count(C::Skipped);
        continue;
      }
      let mut plan = benign_sink();
      let approx = 4000 + cfg.budget as usize * 300;
      match choose(S_FAULT, 5) {
        3 => plan.crash_at = Some(choose(S_FAULT, approx as u32) as usize),
        4 => plan = failing_sink(approx),
        _ => {}
      }
      let mut sink = Sink::new(plan);
      let cell = Arc::new(Mutex::new(slots));
      let c2 = cell.clone();
      sink.on_crash = Some(Box::new(move |w: &[u8]| {
        count(C::Crash);
        count(C::CrashMidSave);
        log(format_args!("crash inside the snapshot after {} bytes", w.len()));
        // written to a new file: the acknowledged one is still there
        store(&c2.lock().unwrap());
        exit_child(EXIT_NEXT_EPOCH);
      }));
      let r = snapshot(&laws[0], &mut sink, "a law");
      slots = std::mem::take(&mut *cell.lock().unwrap());
      match r {
        Ok(()) => {
          if sink.failed {
            violate("false-success", "a snapshot was reported complete although its sink failed");
          }
          count(C::Sync);
          count(C::Snapshots);
          slots[i] = Slot { disk: Some(std::mem::take(&mut sink.data)), acked: Some(digest), doc: x.out, text: false };
        }
        Err(e) if !sink.failed => violate("snapshot-refused", &format!("a snapshot into a healthy sink was refused: {e}")),
        Err(_) => {}
      }
      if choose(S_DOC, 4) == 3 {
        c14_check(&slots, "in the same process");
      }
    }
    c14_check(&slots, "at the end");
    if epoch < 4 && choose(S_DOC, 2) == 1 {
      count(C::Restart);
      store(&slots);
      exit_child(EXIT_NEXT_EPOCH);
    }
  });
}

// ------------------------------------------------------------------------ C15
/// Preamble, main and supplementary provisions, each as the flat list of the tags that
/// open in it and of its texts, in document order.
fn flat_parts(e: &Elem) -> [Vec<String>; 3] {
  fn walk(e: &Elem, out: &mut Vec<String>) {
    let mut a = e.attrs.clone();
    a.sort();
    out.push(format!("<{} {a:?}>", e.name));
    for k in &e.kids {
      match k {
        Node::Text(t) => out.push(t.clone()),
        Node::Elem(c) => walk(c, out),
      }
    }
  }
  fn find(e: &Elem, out: &mut [Vec<String>; 3]) {
    for k in &e.kids {
      if let Node::Elem(c) = k {
        match c.name.as_str() {
          "Preamble" => walk(c, &mut out[0]),
          "MainProvision" => walk(c, &mut out[1]),
          "SupplProvision" => walk(c, &mut out[2]),
          _ => find(c, out),
        }
      }
    }
  }
  let mut out = Default::default();
  find(&canon(grammar(), e), &mut out);
  out
}
/// The texts of a law with the article and the numbered units they are in.
fn placed_texts(e: &Elem) -> Vec<(String, String, String)> {
  fn walk(e: &Elem, art: &str, place: &str, out: &mut Vec<(String, String, String)>) {
    let num = || e.attrs.iter().find(|a| a.0 == "Num").map(|a| a.1.clone()).unwrap_or_default();
    let (mut a, mut p) = (art.to_string(), place.to_string());
    match e.name.as_str() {
      "SupplProvisionLabel" => return,
      "Article" => {
        a = num();
        p.push_str(&format!("/Article{}", num()));
      }
      "Preamble" => {
        a = "preamble".into();
        p.push_str("/Preamble");
      }
      "MainProvision" => p.push_str("/MainProvision"),
      // (blank lines count as paragraphs of a preamble)
      "Paragraph" if art == "preamble" => {}
      "Part" | "Chapter" | "Section" | "Subsection" | "Division" | "Paragraph" | "Item" => p.push_str(&format!("/{}{}", e.name, num())),
      n if n.starts_with("Subitem") && n[7..].parse::<u32>().is_ok() => p.push_str(&format!("/{n}_{}", num())),
      _ => {}
    }
    let mut t = String::new();
    for k in &e.kids {
      match k {
        Node::Text(s) => t.push_str(s),
        Node::Elem(c) => walk(c, &a, &p, out),
      }
    }
    if !t.is_empty() {
      out.push((a, p, t));
    }
  }
  let mut v = Vec::new();
  let mut suppl = 0;
  for k in &e.kids {
    if let Node::Elem(b) = k {
      if b.name == "LawBody" {
        for k in &b.kids {
          if let Node::Elem(c) = k {
            if c.name == "SupplProvision" {
              suppl += 1;
              let of = c.attrs.iter().find(|a| a.0 == "AmendLawNum").map(|a| a.1.as_str()).unwrap_or_default();
              walk(c, "", &format!("/SupplProvision{suppl}({of})"), &mut v);
            } else if c.name != "LawTitle" {
              walk(c, "", "", &mut v);
            }
          }
        }
      }
    }
  }
  v
}
fn c15() {
  let strict = choose(S_CFG, 2) == 1;
  let damage = choose(S_CFG, 3) == 2;
  let times = 2 + choose(S_CFG, 3);
  solo(move || {
    let mut a = gen_text_args(!strict, false);
    let (lines, pieces): (Vec<String>, Vec<textgen::Piece>) = if strict {
      let mut l = textgen::gen_strict();
      l.truncate([8, 14, 24, 48][choose(S_CFG, 4) as usize]);
      (l.iter().map(|x| x.0.clone()).collect(), l.into_iter().map(|x| x.1).collect())
    } else {
      let mut l: Vec<String> = a.text.lines().filter(|l| !l.is_empty()).take(14).map(|l| l.to_string()).collect();
      if damage {
        textgen::damage_text(&mut l, 2);
        l.iter_mut().for_each(|l| l.retain(|c| c != '\0'));
      }
      (l, vec![])
    };
    sample(&format!("{} lines{}: {}", lines.len(), if strict { " in the official layout" } else { "" }, clip(&lines.join("⏎"), 200)));
    let parse = |text: String, a: &TextArgs| -> (Elem, String) {
      let mut a = a.clone();
      a.text = text;
      let r = exec(&Op::Text(Arc::new(a.clone())), &[]);
      count(C::Compared);
      let Some(law) = r.law else {
        violate("text-refused", &format!("a text was refused: {}\n{}", r.digest, clip(&a.text, 2000)));
      };
      let s = exec(&Op::ToXml(0), &[law]);
      if !s.digest.starts_with("Ok doc") {
        violate("unsavable", &format!("a law parsed from text is not saved: {}", s.digest));
      }
      (readable(&s.out, "a law parsed from text", "unsavable"), r.digest)
    };
    a.text.clear();
    for _ in 0..times {
      let k = match choose(S_FAULT, 4) {
        3 => lines.len(),
        _ => choose(S_FAULT, lines.len() as u32 + 1) as usize,
      };
      count(C::TextCut);
      let ends = ["\n", "\r\n", "\n\n"];
      let nl = ends[choose(S_FAULT, if strict { 2 } else { 3 }) as usize];
      let mut kept = lines[..k].join(nl);
      state(hash_bytes(kept.as_bytes()));
      let whole_line = choose(S_FAULT, 2) == 1;
      let base = if whole_line && k > 0 { format!("{kept}\n") } else { kept.clone() };
      let (tree, digest) = parse(base, &a);
      if strict {
        // everything before the cut is there, in its place
        let mut want: Vec<(String, String, String)> = Vec::new();
        let mut pending: Option<&textgen::Piece> = None;
        for p in &pieces[..k] {
          if p.caption {
            pending = Some(p);
            continue;
          }
          if let Some(c) = pending.take() {
            want.push((c.article.clone(), c.place.clone(), c.text.clone()));
          }
          if !p.text.is_empty() {
            want.push((p.article.clone(), p.place.clone(), p.text.clone()));
          }
        }
        let got = placed_texts(&canon(grammar(), &tree));
        if got != want {
          let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
          violate("text-lost", &format!("after a cut at line {k}, text {i} should be {:?}, it is {:?} (article, place, text)\n{}", want.get(i), got.get(i), clip(&lines[..k].join("\n"), 2500)));
        }
        // blank lines between them say nothing
        if choose(S_FAULT, 2) == 1 {
          let mut t = String::new();
          for l in &lines[..k] {
            for _ in 0..[0, 0, 1, 2][choose(S_FAULT, 4) as usize] {
              t.push_str(["", "　", "  "][choose(S_FAULT, 3) as usize]);
              t.push_str(nl);
            }
            t.push_str(l);
            t.push_str(nl);
          }
          let (tree, _) = parse(t.clone(), &a);
          let got = placed_texts(&canon(grammar(), &tree));
          if got != want {
            let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
            violate("text-lost", &format!("with blank lines between the {k} lines, text {i} should be {:?}, it is {:?} (article, place, text)\n{}", want.get(i), got.get(i), clip(&t, 2500)));
          }
        }
        // the same lines with other line ends
        let other = ends[choose(S_FAULT, 2) as usize];
        let (_, d2) = parse(lines[..k].join(other), &a);
        if d2 != digest {
          violate("line-ends", &format!("the same {k} lines give another law with other line ends\n{}", clip(&lines[..k].join("\n"), 2500)));
        }
      }
      if strict && k > 0 && choose(S_FAULT, 2) == 1 {
        // one line damaged: the other articles keep all their texts
        let mut l = lines[..k].to_vec();
        let i = choose(S_FAULT, k as u32) as usize;
        let mut hit = vec![pieces[i].article.clone()];
        match choose(S_FAULT, 5) {
          0 => {
            count(C::LineLost);
            l.remove(i);
          }
          1 => {
            count(C::LineDup);
            let x = l[i].clone();
            l.insert(i, x);
          }
          2 => {
            count(C::LineSwap);
            let j = choose(S_FAULT, k as u32) as usize;
            hit.push(pieces[j].article.clone());
            l.swap(i, j);
          }
          _ => {
            let mut one = vec![l[i].clone()];
            textgen::damage_text(&mut one, 1);
            one.iter_mut().for_each(|l| l.retain(|c| c != '\0'));
            l.splice(i..=i, one);
          }
        }
        let (tree, _) = parse(l.join(nl), &a);
        let got = placed_texts(&canon(grammar(), &tree));
        for p in pieces[..k].iter() {
          let art = &p.article;
          if art.is_empty() || art == "preamble" || hit.contains(art) {
            continue;
          }
          hit.push(art.clone());
          let mut it = got.iter().filter(|g| g.0 == *art);
          // (a caption whose article line is cut off belongs to nothing yet)
          let opened = pieces[..k].iter().any(|q| q.article == *art && !q.caption);
          for q in pieces[..k].iter().filter(|q| q.article == *art && opened) {
            if !it.any(|g| g.2 == q.text) {
              violate("damage-spreads", &format!("line {i} is damaged, but article {art} loses {:?}\n{}", q.text, clip(&l.join("\n"), 2500)));
            }
          }
        }
      }
      // whatever follows the kept lines, what they say stays as it is
      let mut rest: Vec<String> = lines[k..].to_vec();
      match choose(S_FAULT, 4) {
        0 => {}
        1 => {
          if let Some(l) = rest.first_mut() {
            let n = choose(S_FAULT, l.chars().count() as u32 + 1) as usize;
            *l = l.chars().take(n).collect();
            rest.truncate(1);
          }
        }
        2 => {
          textgen::damage_text(&mut rest, 2);
          rest.iter_mut().for_each(|l| l.retain(|c| c != '\0'));
        }
        _ => {
          let j = choose(S_FAULT, lines.len() as u32 + 1) as usize;
          rest = lines[j..].to_vec();
        }
      }
      if k > 0 {
        kept.push_str("\n");
      }
      kept.push_str(&rest.join(nl));
      let (more, _) = parse(kept.clone(), &a);
      let (x, y) = (flat_parts(&tree), flat_parts(&more));
      for (part, (x, y)) in ["preamble", "main provision", "supplementary provisions"].iter().zip(x.iter().zip(y.iter())) {
        if let Some(i) = (0..x.len()).find(|i| y.get(*i) != x.get(*i)) {
          violate("cut-changes-more", &format!("the first {k} lines alone give {:?} at place {i} of the {part}; with something after them it is {:?}\n{}", x[i], y.get(i), clip(&kept, 2500)));
        }
      }
    }
  });
}

//! Operations on the real library, the sinks they write to, and how their results
//! are turned into values that can be compared across processes.
use crate::doc::*;
use crate::grammar::*;
use crate::shared::*;
use crate::sys::*;
use crate::tok::layout_hash;
use crate::xmlread;
pub use japanese_law_xml_schema as lib;
pub use lib::law::Law;
use std::io::{self, Write};
use std::sync::Arc;

pub fn grammar() -> &'static Grammar {
  unsafe { &*G }
}
static mut G: *const Grammar = core::ptr::null();
pub fn init_grammar() {
  unsafe { G = Box::into_raw(Box::new(Grammar::new())) };
}

// ------------------------------------------------------------------ sinks
#[derive(Clone, Debug, Default)]
pub struct SinkPlan {
  pub short: u32, // accept at most 1..=short bytes per call (0: all)
  pub eintr_16: u32,
  pub stall_16: u32,
  /// fail when this many bytes are accepted; kind index
  pub err_at: Option<(usize, u32)>,
  /// the failure goes away afterwards
  pub err_once: bool,
  pub zero_at: Option<usize>,
  pub full_at: Option<usize>,
  pub panic_at: Option<usize>,
  pub crash_at: Option<usize>,
  /// wait, in the first call at or after this many bytes, until the gate opens
  pub block_at: Option<(usize, usize)>,
  pub reenter_16: u32,
  pub flush_err: bool,
}
impl SinkPlan {
  pub fn can_fail(&self) -> bool {
    self.err_at.is_some() || self.zero_at.is_some() || self.full_at.is_some() || self.panic_at.is_some()
  }
}
pub const ERR_KINDS: u32 = 12;
pub fn err_of(kind: u32) -> io::Error {
  use io::ErrorKind::*;
  match kind {
    0 => io::Error::from_raw_os_error(EIO),
    1 => io::Error::from_raw_os_error(ENOSPC),
    2 => io::Error::from_raw_os_error(EPIPE),
    3 => io::Error::from(BrokenPipe),
    4 => io::Error::from(WouldBlock),
    5 => io::Error::from(TimedOut),
    6 => io::Error::new(Other, "sink failed"),
    7 => io::Error::from(PermissionDenied),
    8 => io::Error::from(UnexpectedEof),
    9 => io::Error::from(WriteZero),
    10 => io::Error::from(InvalidInput),
    _ => io::Error::from_raw_os_error(ESTALE),
  }
}
pub struct Sink {
  pub plan: SinkPlan,
  pub data: Vec<u8>,
  pub calls: u64,
  pub flushes: u64,
  pub failed: bool, // an error was returned to the writer
  pub after_failure: u64,
  pub on_crash: Option<Box<dyn Fn(&[u8]) + Send>>,
}
impl Sink {
  pub fn new(plan: SinkPlan) -> Sink {
    Sink { plan, data: Vec::new(), calls: 0, flushes: 0, failed: false, after_failure: 0, on_crash: None }
  }
  fn one(&mut self, buf: &[u8]) -> io::Result<usize> {
    self.calls += 1;
    count(C::SinkCalls);
    let have = self.data.len();
    if self.failed {
      self.after_failure += 1;
    }
    if buf.is_empty() {
      return Ok(0);
    }
    if let Some((at, gate)) = self.plan.block_at {
      if have >= at {
        self.plan.block_at = None;
        count(C::WriteStall);
        log(format_args!("sink waits for gate {gate} after {have} bytes"));
        wait_gate(gate);
      }
    }
    if self.plan.stall_16 > 0 && chance(S_FAULT, self.plan.stall_16, 16) {
      count(C::WriteStall);
      stall();
    } else {
      sink_yield();
    }
    if self.plan.eintr_16 > 0 && chance(S_FAULT, self.plan.eintr_16, 16) {
      count(C::WriteEintr);
      log(format_args!("sink EINTR at {have}"));
      return Err(io::Error::from_raw_os_error(EINTR));
    }
    let mut lim = buf.len();
    if let Some(at) = self.plan.crash_at {
      if have >= at {
        if let Some(f) = self.on_crash.take() {
          f(&self.data);
        }
      }
      lim = lim.min((at - have.min(at)).max(1));
    }
    if let Some(at) = self.plan.panic_at {
      if have >= at {
        count(C::WritePanic);
        self.failed = true;
        log(format_args!("sink panics at {have}"));
        std::panic::panic_any("sink panic");
      }
      lim = lim.min((at - have).max(1));
    }
    if let Some((at, k)) = self.plan.err_at {
      if have >= at {
        count(C::WriteErr);
        self.failed = true;
        if self.plan.err_once {
          self.plan.err_at = None;
        }
        log(format_args!("sink error kind {k} at {have}"));
        return Err(err_of(k));
      }
      lim = lim.min((at - have).max(1));
    }
    if let Some(at) = self.plan.zero_at {
      if have >= at {
        count(C::WriteZero);
        self.failed = true;
        if self.plan.err_once {
          self.plan.zero_at = None;
        }
        log(format_args!("sink accepts 0 at {have}"));
        return Ok(0);
      }
      lim = lim.min((at - have).max(1));
    }
    if let Some(at) = self.plan.full_at {
      if have >= at {
        count(C::DiskFull);
        self.failed = true;
        log(format_args!("sink full at {have}"));
        return Err(io::Error::from_raw_os_error(ENOSPC));
      }
      lim = lim.min((at - have).max(1));
    }
    if self.plan.short > 0 && lim > 1 {
      let m = 1 + choose(S_FAULT, self.plan.short.min(lim as u32)) as usize;
      lim = lim.min(m);
    }
    if lim < buf.len() {
      count(C::ShortWrite);
      if buf[lim] & 0xc0 == 0x80 {
        count(C::MultibyteSplit);
      }
    }
    self.data.extend_from_slice(&buf[..lim]);
    Ok(lim)
  }
}
impl Write for Sink {
  fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
    let reenter = out_of_lib(|| self.plan.reenter_16 > 0 && chance(S_FAULT, self.plan.reenter_16, 16));
    if reenter {
      out_of_lib(|| {
        count(C::ReentrantCall);
        let r = lib_call("parse_xml (inside the sink)", || lib::parse_xml(TINY));
        match r {
          Called::Returned(Ok(l)) => {
            let r = lib_call("to_xml (inside the sink)", || lib::to_xml(&l));
            if !matches!(r, Called::Returned(Ok(_))) {
              violate("reentrant", "saving inside a sink failed");
            }
          }
          Called::Returned(Err(e)) => violate("reentrant", &format!("loading inside a sink failed: {e:?}")),
          Called::Panicked(m) => violate("panic", &format!("loading inside a sink panicked: {m}")),
        }
      });
    }
    out_of_lib(|| self.one(buf))
  }
  fn flush(&mut self) -> io::Result<()> {
    self.flushes += 1;
    Ok(())
  }
}
pub const TINY: &[u8] = "<Law Era=\"Heisei\" Year=\"1\" Num=\"1\" LawType=\"Act\" Lang=\"ja\"><LawNum>n</LawNum><LawBody><LawTitle>t</LawTitle><MainProvision><Paragraph Num=\"1\"><ParagraphNum/><ParagraphSentence><Sentence>s</Sentence></ParagraphSentence></Paragraph></MainProvision></LawBody></Law>".as_bytes();

// ---------------------------------------------------------------- operations
#[derive(Clone, Debug)]
pub struct TextArgs {
  pub text: String,
  pub year: usize,
  pub month: Option<usize>,
  pub day: Option<usize>,
  pub law_type: u32,
  pub lang: u32,
  pub num: Option<String>,
  pub law_num: String,
  pub title: String,
}
pub fn call_text(a: &TextArgs) -> lib::result::Result<Law> {
  use lib::law::*;
  let lt = match a.law_type {
    0 => LawType::Act,
    1 => LawType::Constitution,
    2 => LawType::CabinetOrder,
    3 => LawType::ImperialOrder,
    4 => LawType::MinisterialOrdinance,
    5 => LawType::Rule,
    _ => LawType::Misc,
  };
  let lang = if a.lang == 0 { Lang::Ja } else { Lang::En };
  let num = match &a.num {
    None => None,
    Some(n) => Some(lib::article_number::ArticleNumber::from_num_str(n)?),
  };
  lib::parse_text(&a.text, a.year, a.month, a.day, lt, lang, num, a.law_num.clone(), &a.title)
}
#[derive(Clone)]
pub enum Op {
  Parse(Arc<Vec<u8>>),
  Load(String, ReadPlan),
  ToXml(usize),
  Save(usize, SinkPlan),
  Text(Arc<TextArgs>),
  Util(usize),
}
impl Op {
  pub fn label(&self) -> String {
    match self {
      Op::Parse(b) => format!("parse_xml({} bytes)", b.len()),
      Op::Load(n, _) => format!("parse_xml_file({n})"),
      Op::ToXml(i) => format!("to_xml(law {i})"),
      Op::Save(i, p) => format!("write_file(law {i}{})", if p.can_fail() { ", failing sink" } else { "" }),
      Op::Text(a) => format!("parse_text({} bytes, {}-{:?}-{:?})", a.text.len(), a.year, a.month, a.day),
      Op::Util(i) => format!("utils(law {i})"),
    }
  }
  /// The same operation with nothing in its way.
  pub fn healthy(&self) -> Op {
    match self {
      Op::Load(n, _) => Op::Load(n.clone(), ReadPlan::default()),
      Op::Save(i, _) => Op::Save(*i, SinkPlan::default()),
      o => o.clone(),
    }
  }
}
pub fn law_digest(l: &Law) -> String {
  format!("law {:016x}", hash_bytes(format!("{l:?}").as_bytes()))
}
pub fn doc_digest(b: &[u8]) -> String {
  match xmlread::read(b) {
    Ok(e) => format!("doc {:016x}", canon_hash(&canon(grammar(), &e))),
    Err(m) => format!("not a document: {m}"),
  }
}
pub struct Done {
  pub digest: String,
  pub law: Option<Law>,
  pub out: Vec<u8>,
  pub sink_failed: bool,
  pub panicked: Option<String>,
  /// for saves: the bytes written, up to attribute order
  pub layout: u64,
}
impl Done {
  /// Everything two runs of the same operation must agree on.
  pub fn full(&self) -> String {
    format!("{} {:x}", self.digest, self.layout)
  }
}
fn law_done(r: Called<lib::result::Result<Law>>, ok: C, er: C) -> Done {
  let mut d = Done { digest: String::new(), law: None, out: vec![], sink_failed: false, panicked: None, layout: 0 };
  match r {
    Called::Returned(Ok(l)) => {
      count(ok);
      d.digest = format!("Ok {}", law_digest(&l));
      d.law = Some(l);
    }
    Called::Returned(Err(e)) => {
      count(er);
      d.digest = format!("Err {e:?}");
    }
    Called::Panicked(m) => {
      d.digest = format!("panic {m}");
      d.panicked = Some(m);
    }
  }
  d
}
pub fn exec(op: &Op, laws: &[Law]) -> Done {
  let label = op.label();
  let d = match op {
    Op::Parse(b) => law_done(lib_call(&label, || lib::parse_xml(b)), C::OpParseOk, C::OpParseErr),
    Op::Load(n, p) => {
      plan_next_open(p.clone());
      law_done(lib_call(&label, || lib::parse_xml_file(n)), C::OpFileOk, C::OpFileErr)
    }
    Op::Text(a) => law_done(lib_call(&label, || call_text(a)), C::OpTextOk, C::OpTextErr),
    Op::ToXml(i) => {
      let r = lib_call(&label, || lib::to_xml(&laws[*i]));
      let mut d = Done { digest: String::new(), law: None, out: vec![], sink_failed: false, panicked: None, layout: 0 };
      match r {
        Called::Returned(Ok(s)) => {
          count(C::OpStr);
          d.digest = format!("Ok {}", doc_digest(s.as_bytes()));
          d.out = s.into_bytes();
          d.layout = layout_hash(&d.out);
        }
        Called::Returned(Err(e)) => d.digest = format!("Err {e:?}"),
        Called::Panicked(m) => {
          d.digest = format!("panic {m}");
          d.panicked = Some(m);
        }
      }
      d
    }
    Op::Save(i, p) => {
      let mut s = Sink::new(p.clone());
      let r = lib_call(&label, || lib::write_file(&laws[*i], &mut s));
      let mut d = Done { digest: String::new(), law: None, out: vec![], sink_failed: s.failed, panicked: None, layout: 0 };
      match r {
        Called::Returned(Ok(())) => {
          count(C::OpSaveOk);
          d.digest = format!("Ok {}", doc_digest(&s.data));
          d.layout = layout_hash(&s.data);
        }
        Called::Returned(Err(e)) => {
          count(C::OpSaveErr);
          d.digest = format!("Err {e:?}");
        }
        Called::Panicked(m) => {
          count(C::OpPanic);
          d.digest = format!("panic {m}");
          d.panicked = Some(m);
        }
      }
      d.out = std::mem::take(&mut s.data);
      d
    }
    Op::Util(i) => {
      let l = &laws[*i];
      let r = lib_call(&label, || {
        helpers(l)
      });
      count(C::OpUtil);
      match r {
        Called::Returned(s) => Done { digest: format!("util {:016x}", hash_bytes(s.as_bytes())), law: None, out: vec![], sink_failed: false, panicked: None, layout: 0 },
        Called::Panicked(m) => Done { digest: format!("panic {m}"), law: None, out: vec![], sink_failed: false, panicked: Some(m), layout: 0 },
      }
    }
  };
  log(format_args!("= {}", d.digest));
  state(hash_bytes(d.digest.as_bytes()));
  d
}

/// Everything the public helpers say about a law.
pub fn helpers(l: &Law) -> String {
  use lib::law::MainProvisionContents as M;
  use lib::utils::*;
  use std::fmt::Write;
  let mut s = String::new();
  let main = &l.law_body.main_provision;
  let arts = |s: &mut String, v: &[lib::article::Article], p: &[Vec<lib::paragraph::Paragraph>]| {
    for a in v {
      let _ = write!(s, "{}|{}|{:?}\n", a.number_text(), text_from_article(a), text_info_list_from_paragraph(&a.paragraph));
      for p in &a.paragraph {
        let _ = write!(s, "{}|", p.num.paragraph_text());
        for i in &p.children {
          if let Some(n) = &i.num {
            s.push_str(&n.num_str());
          }
        }
      }
    }
    for p in p {
      s.push_str(&text_from_paragraph_list(p));
    }
  };
  let (v, p) = article_list_from_main_provision(main);
  arts(&mut s, &v, &p);
  let _ = write!(s, "{:?}", with_number_article_list_from_main_provision(main));
  let _ = write!(s, "{:?}", toc_list_from_main_provision(main));
  for c in &main.children {
    match c {
      M::Part(p) => s.push_str(&p.number_text()),
      M::Chapter(c) => s.push_str(&c.number_text()),
      M::Section(c) => s.push_str(&c.number_text()),
      _ => (),
    }
  }
  for sp in &l.law_body.suppl_provision {
    let (v, p) = article_list_from_suppl_provision(sp);
    arts(&mut s, &v, &p);
    let _ = write!(s, "{:?}", with_number_article_list_from_suppl_provision(sp));
    let _ = write!(s, "{:?}", toc_list_from_suppl_provision(sp));
  }
  s.push_str(&l.law_body.law_title.as_ref().map(|t| t.text.to_string()).unwrap_or_default());
  s
}

// ------------------------------------------------------------ running things
/// Runs `f` as the only simulated task and returns its value.
pub fn solo<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
  let slot = Arc::new(std::sync::Mutex::new(None));
  let s2 = slot.clone();
  run_tasks(
    0,
    vec![Box::new(move || {
      let r = f();
      *s2.lock().unwrap() = Some(r);
    })],
  );
  let r = slot.lock().unwrap().take();
  r.unwrap_or_else(|| harness_error("a task produced nothing"))
}

extern "C" {
  fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
}
/// Runs `f` as the only task of a fresh process and returns the text it produced.
/// It leaves no trace in this run's choices, log or counters.
pub fn isolated(prep: impl FnOnce(), f: impl FnOnce() -> String + Send + 'static) -> String {
  let saved = save_run_state();
  let pid = unsafe { raw_fork() };
  if pid < 0 {
    harness_error("cannot start a reference process");
  }
  if pid == 0 {
    sh().iso = 1;
    arm_timers();
    prep();
    let t = solo(f);
    let s = sh();
    let n = t.len().min(ISOCAP);
    s.iso_buf[..n].copy_from_slice(&t.as_bytes()[..n]);
    s.iso_len = n;
    exit_child(EXIT_DONE);
  }
  let mut st = 0;
  loop {
    let r = unsafe { waitpid(pid, &mut st, 0) };
    if r == pid {
      break;
    }
    if r < 0 && unsafe { errno() } != EINTR {
      harness_error("lost a reference process");
    }
  }
  sh().iso = 0;
  let code = if st & 0x7f == 0 { st >> 8 & 0xff } else { -(st & 0x7f) };
  if code != EXIT_DONE {
    // what happened is already recorded by the process itself, except death by signal
    if code < 0 {
      let l = get_str(&sh().oplabel, sh().oplabel_len);
      violate(if -code == 26 { "runaway" } else { "abort" }, &format!("{l}, run alone in a fresh process, died by signal {}", -code));
    }
    exit_child(code);
  }
  restore_run_state(&saved);
  get_str(&sh().iso_buf, sh().iso_len)
}
/// Result of one healthy operation in a fresh process.
pub fn alone(op: &Op, laws: &Arc<Vec<Law>>) -> String {
  let (o, l) = (op.healthy(), laws.clone());
  isolated(|| (), move || exec(&o, &l).full())
}

// ------------------------------------------------- drawing workloads and faults
pub fn benign_read() -> ReadPlan {
  ReadPlan {
    short: [0, 1, 3, 64, 4096][choose(S_FAULT, 5) as usize],
    eintr_16: [0, 0, 1, 4][choose(S_FAULT, 4) as usize],
    stall_16: [0, 0, 1, 4][choose(S_FAULT, 4) as usize],
    open_eintr: [0, 0, 0, 1, 3][choose(S_FAULT, 5) as usize],
    size_lie: [0, 0, 0, 1, 2, 3, 4, 5, 6][choose(S_FAULT, 9) as usize],
    ..Default::default()
  }
}
pub fn failing_read(len: usize) -> ReadPlan {
  let mut p = benign_read();
  if choose(S_FAULT, 4) == 3 {
    p.open_errno = [EACCES, ENOENT, EMFILE, EIO, ESTALE][choose(S_FAULT, 5) as usize];
  } else {
    let at = pick_offset(len + 1);
    p.err_at = Some((at, [EIO, ESTALE, EISDIR, EACCES, EAGAIN][choose(S_FAULT, 5) as usize]));
    p.err_once = choose(S_FAULT, 3) == 2;
  }
  p
}
/// An offset in 0..n, biased to both ends.
pub fn pick_offset(n: usize) -> usize {
  if n <= 1 {
    return 0;
  }
  match choose(S_FAULT, 8) {
    6 => choose(S_FAULT, n.min(8) as u32) as usize,
    7 => n - 1 - choose(S_FAULT, n.min(40) as u32) as usize,
    _ => choose(S_FAULT, n as u32) as usize,
  }
}
pub fn benign_sink() -> SinkPlan {
  SinkPlan {
    short: [0, 1, 2, 5, 100][choose(S_FAULT, 5) as usize],
    eintr_16: [0, 0, 1, 4][choose(S_FAULT, 4) as usize],
    stall_16: [0, 0, 0, 1][choose(S_FAULT, 4) as usize],
    ..Default::default()
  }
}
pub fn failing_sink(len: usize) -> SinkPlan {
  let mut p = benign_sink();
  let at = pick_offset(len.max(1));
  match choose(S_FAULT, 5) {
    0 | 1 => p.err_at = Some((at, choose(S_FAULT, ERR_KINDS))),
    2 => p.zero_at = Some(at),
    3 => p.full_at = Some(at),
    _ => {
      p.err_at = Some((at, choose(S_FAULT, ERR_KINDS)));
      p.err_once = true;
    }
  }
  p
}
pub fn gen_text_args(odd: bool, damage: bool) -> TextArgs {
  use crate::textgen::*;
  let c = gen_text_cfg(odd);
  let mut lines = gen_law_text(&c);
  if damage {
    let n = 1 + choose(S_FAULT, 4);
    damage_text(&mut lines, n);
  }
  let nl = ["\n", "\r\n", "\n\n"][choose(S_DOC, 3) as usize];
  let mut text = lines.join(nl);
  if choose(S_DOC, 2) == 1 {
    text.push('\n');
  }
  let year = match choose(S_DOC, 8) {
    7 => 1869 + choose(S_DOC, 160) as usize,
    6 => [1912, 1926, 1989, 2019][choose(S_DOC, 4) as usize],
    _ => 1950 + choose(S_DOC, 70) as usize,
  };
  let has_md = choose(S_DOC, 3);
  TextArgs {
    text,
    year,
    month: if has_md > 0 { Some(1 + choose(S_DOC, 12) as usize) } else { None },
    day: if has_md > 1 { Some(1 + choose(S_DOC, 28) as usize) } else { None },
    law_type: choose(S_DOC, 7),
    lang: choose(S_DOC, 2),
    num: match choose(S_DOC, 3) {
      0 => None,
      1 => Some("63".into()),
      _ => Some("1_2".into()),
    },
    law_num: "昭和三十一年法律第六十三号".into(),
    title: "ある法律".into(),
  }
}
/// The ambient of this process: entropy, clocks, environment.
pub fn draw_ambient() {
  let w = world();
  w.hash_seed = (choose(S_AMB, u32::MAX) as u64) << 32 | choose(S_AMB, u32::MAX) as u64;
  w.clock_step = [1000, 1, 1_000_000_000, 3_600_000_000_000][choose(S_AMB, 4) as usize];
  w.real = 1_000_000_000_000_000_000 + choose(S_AMB, 1 << 30) as u64 * 1_000_000_000;
  w.mono = 1_000_000_000 + choose(S_AMB, 1 << 20) as u64 * 1_000_000_000;
  w.env_mode = choose(S_AMB, 4);
  w.env_seed = choose(S_AMB, 1 << 16) as u64;
  w.pid = 2 + choose(S_AMB, 1 << 20) as i32;
  w.cwd_mode = choose(S_AMB, 3);
  w.thread_skip = [0, 0, 1, 3][choose(S_AMB, 4) as usize];
  w.thread_name = choose(S_AMB, 4);
  w.cpus = [8, 1, 2, 64][choose(S_AMB, 4) as usize];
  w.heap_shift = [0, 1, 7, 40][choose(S_AMB, 4) as usize];
  set_process_image(w.env_mode, w.env_seed, w.heap_shift);
}
/// Loads a document that is expected to load; None (and counted) if it does not.
pub fn setup_law(bytes: Vec<u8>) -> Option<Law> {
  let b = Arc::new(bytes);
  solo(move || exec(&Op::Parse(b), &[]).law)
}

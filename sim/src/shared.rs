//! Memory shared between the worker and the forked simulation child: the choice
//! streams (the seed's decisions), the event log, counters and the result. It
//! survives any death of the child, so a crash still leaves its full trace.
use std::fmt::Write;

pub const NSTREAM: usize = 5;
pub const S_DOC: usize = 0; // documents, texts, operations
pub const S_FAULT: usize = 1; // injected faults
pub const S_SCHED: usize = 2; // interleaving
pub const S_AMB: usize = 3; // hash seeds, clocks, environment
pub const S_CFG: usize = 4; // per-run configuration (swarm)
pub const STREAM_NAMES: [&str; NSTREAM] = ["doc", "fault", "sched", "amb", "cfg"];
pub const CAP: usize = 1 << 19;
pub const LOGCAP: usize = 1 << 20;
pub const BLOBCAP: usize = 24 << 20;
pub const ISOCAP: usize = 1 << 20;
pub const NCOUNT: usize = 256;
pub const NPROBE: usize = 4096;

pub const NSITE: usize = 8192;
#[repr(C)]
pub struct Shared {
  pub seed: u64,
  pub replay: u32, // 1: forced values decide everything, exhausted streams read 0
  pub verbose: u32,
  pub rng: [[u64; 4]; NSTREAM],
  pub pos: [u32; NSTREAM],
  pub forced_len: [u32; NSTREAM],
  pub rec: [[u32; CAP]; NSTREAM],
  pub forced: [[u32; CAP]; NSTREAM],
  pub log_len: usize,
  pub log_hash: u64,
  pub log_events: u64,
  pub log: [u8; LOGCAP],
  pub sched_hash: u64,
  pub state_hash: u64,
  pub sim_ns: u64,
  pub steps: u64,
  pub counters: [u64; NCOUNT],
  pub probes: [u8; NPROBE],
  pub class_len: usize,
  pub class: [u8; 256],
  pub detail_len: usize,
  pub detail: [u8; 16384],
  pub oplabel_len: usize,
  pub oplabel: [u8; 256],
  pub in_lib_now: u32,
  pub iso: u32, // 1: inside an isolated reference run, every choice is the simplest
  pub iso_len: usize,
  pub iso_buf: [u8; ISOCAP],
  /// how often each call site of the library was passed by the reference runs
  pub sites: [u16; NSITE],
  pub sample_len: usize,
  pub sample: [u8; 1024],
  pub blob_len: usize,
  pub blob: [u8; BLOBCAP],
}

pub static mut SH: *mut Shared = core::ptr::null_mut();

#[inline]
pub fn sh() -> &'static mut Shared {
  unsafe { &mut *SH }
}

extern "C" {
  fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}

pub fn init() {
  unsafe {
    let p = mmap(core::ptr::null_mut(), core::mem::size_of::<Shared>(), 3, 0x21, -1, 0);
    assert!(p as isize != -1, "mmap failed");
    SH = p as *mut Shared;
  }
}

pub fn splitmix(x: &mut u64) -> u64 {
  *x = x.wrapping_add(0x9E3779B97F4A7C15);
  let mut z = *x;
  z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
  z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
  z ^ (z >> 31)
}

/// Prepares the region for one run.
pub fn reset(seed: u64, replay: bool, forced: Option<&[Vec<u32>]>, verbose: bool) {
  let s = sh();
  s.seed = seed;
  s.replay = replay as u32;
  s.verbose = verbose as u32;
  for i in 0..NSTREAM {
    let mut x = seed ^ ((i as u64 + 1).wrapping_mul(0xD1342543DE82EF95));
    for k in 0..4 {
      s.rng[i][k] = splitmix(&mut x);
    }
    s.pos[i] = 0;
    s.forced_len[i] = 0;
    if let Some(f) = forced {
      let n = f[i].len().min(CAP);
      s.forced[i][..n].copy_from_slice(&f[i][..n]);
      s.forced_len[i] = n as u32;
    }
  }
  s.log_len = 0;
  s.log_hash = 0xcbf29ce484222325;
  s.log_events = 0;
  s.sched_hash = 0xcbf29ce484222325;
  s.state_hash = 0xcbf29ce484222325;
  s.sim_ns = 0;
  s.steps = 0;
  s.counters = [0; NCOUNT];
  s.class_len = 0;
  s.detail_len = 0;
  s.oplabel_len = 0;
  s.in_lib_now = 0;
  s.blob_len = 0;
  s.iso = 0;
  s.iso_len = 0;
  s.sample_len = 0;
  s.sites = [0; NSITE];
}

fn next_rand(r: &mut [u64; 4]) -> u64 {
  // xoshiro256**
  let res = r[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
  let t = r[1] << 17;
  r[2] ^= r[0];
  r[3] ^= r[1];
  r[1] ^= r[2];
  r[0] ^= r[3];
  r[2] ^= t;
  r[3] = r[3].rotate_left(45);
  res
}

/// One decision of the simulator: a value below `n`; 0 is always the simplest.
pub fn choose(stream: usize, n: u32) -> u32 {
  let s = sh();
  if n <= 1 || s.iso != 0 {
    return 0;
  }
  let p = s.pos[stream] as usize;
  let v = if p < s.forced_len[stream] as usize {
    s.forced[stream][p].min(n - 1)
  } else if s.replay != 0 {
    0
  } else {
    ((next_rand(&mut s.rng[stream]) >> 32) * n as u64 >> 32) as u32
  };
  if p >= CAP {
    return 0;
  }
  s.rec[stream][p] = v;
  s.pos[stream] += 1;
  v
}

/// True with probability num/den; false is the simple value.
pub fn chance(stream: usize, num: u32, den: u32) -> bool {
  choose(stream, den) >= den - num
}

#[inline]
pub fn fnv(h: u64, v: u64) -> u64 {
  let mut h = h;
  let mut v = v;
  for _ in 0..8 {
    h = (h ^ (v & 0xff)).wrapping_mul(0x100000001b3);
    v >>= 8;
  }
  h
}

pub fn hash_bytes(b: &[u8]) -> u64 {
  let mut h = 0xcbf29ce484222325u64;
  for c in b {
    h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
  }
  h ^ (b.len() as u64).rotate_left(32)
}

struct W;
impl Write for W {
  fn write_str(&mut self, t: &str) -> std::fmt::Result {
    let s = sh();
    let n = t.len().min(LOGCAP - s.log_len);
    s.log[s.log_len..s.log_len + n].copy_from_slice(&t.as_bytes()[..n]);
    s.log_len += n;
    Ok(())
  }
}

/// Event log: hashed always, kept as text while there is room. Never draws a choice.
pub fn log(args: std::fmt::Arguments) {
  let s = sh();
  let before = s.log_len;
  let _ = W.write_fmt(args);
  let _ = W.write_str("\n");
  let mut h = s.log_hash;
  for c in &s.log[before..s.log_len] {
    h = (h ^ *c as u64).wrapping_mul(0x100000001b3);
  }
  s.log_hash = h;
  s.log_events += 1;
  if s.log_len >= LOGCAP - 4096 {
    s.log_len = LOGCAP / 2; // keep hashing; older half stays readable
  }
}

/// One line saying what this run did, for the evidence file.
pub fn sample(t: &str) {
  let s = sh();
  let mut n = t.len().min(1024);
  while !t.is_char_boundary(n) {
    n -= 1;
  }
  s.sample[..n].copy_from_slice(&t.as_bytes()[..n]);
  s.sample_len = n;
}

/// Everything an isolated reference run must not disturb.
pub struct Saved {
  pos: [u32; NSTREAM],
  log_len: usize,
  log_hash: u64,
  log_events: u64,
  sched_hash: u64,
  state_hash: u64,
  sim_ns: u64,
  steps: u64,
  counters: [u64; NCOUNT],
}
pub fn save_run_state() -> Saved {
  let s = sh();
  Saved {
    pos: s.pos,
    log_len: s.log_len,
    log_hash: s.log_hash,
    log_events: s.log_events,
    sched_hash: s.sched_hash,
    state_hash: s.state_hash,
    sim_ns: s.sim_ns,
    steps: s.steps,
    counters: s.counters,
  }
}
pub fn restore_run_state(v: &Saved) {
  let s = sh();
  s.pos = v.pos;
  s.log_len = v.log_len;
  s.log_hash = v.log_hash;
  s.log_events = v.log_events;
  s.sched_hash = v.sched_hash;
  s.state_hash = v.state_hash;
  s.sim_ns = v.sim_ns;
  s.steps = v.steps;
  s.counters = v.counters;
}

pub fn state(v: u64) {
  sh().state_hash = fnv(sh().state_hash, v);
}

pub fn set_str(dst: &mut [u8], len: &mut usize, t: &str) {
  let n = t.len().min(dst.len());
  dst[..n].copy_from_slice(&t.as_bytes()[..n]);
  *len = n;
}

pub fn get_str(src: &[u8], len: usize) -> String {
  String::from_utf8_lossy(&src[..len]).into_owned()
}

pub fn blob_put(b: &[u8]) {
  let s = sh();
  if b.len() > BLOBCAP {
    crate::sys::harness_error("blob too large");
  }
  s.blob[..b.len()].copy_from_slice(b);
  s.blob_len = b.len();
}

pub fn blob_get() -> Vec<u8> {
  sh().blob[..sh().blob_len].to_vec()
}

macro_rules! counters {
  ($($id:ident = $name:expr),* $(,)?) => {
    #[allow(non_camel_case_types, dead_code, clippy::upper_case_acronyms)]
    #[derive(Clone, Copy)]
    #[repr(usize)]
    pub enum C { $($id),*, LAST }
    pub const COUNTER_NAMES: &[&str] = &[$($name),*];
  };
}
counters! {
  ShortRead = "fault.short_read", ReadEintr = "fault.read_eintr", ReadErr = "fault.read_error",
  OpenErr = "fault.open_error", OpenEintr = "fault.open_eintr", SizeLie = "fault.reported_size_wrong",
  ReadStall = "fault.read_stall", FileReplaced = "fault.file_replaced_during_read", FileGrown = "fault.file_grown_during_read",
  FileTruncated = "fault.file_truncated_during_read",
  ShortWrite = "fault.short_write", WriteEintr = "fault.write_eintr", WriteErr = "fault.write_error",
  WriteZero = "fault.write_accepts_zero", WritePanic = "fault.sink_panic", WriteStall = "fault.sink_stall",
  DiskFull = "fault.disk_full", LostTail = "fault.unsynced_tail_lost", TornBlocks = "fault.torn_blocks",
  Crash = "fault.crash", Restart = "fault.restart", CrashMidSave = "fault.crash_inside_save",
  ByteFlip = "damage.byte_flip", ByteCut = "damage.bytes_lost", ByteDup = "damage.bytes_duplicated",
  ByteIns = "damage.bytes_inserted", ByteSwap = "damage.blocks_swapped", ByteZero = "damage.zeroed",
  ElemDrop = "damage.element_lost", ElemDup = "damage.element_duplicated", ElemMove = "damage.element_misplaced",
  ElemRename = "damage.element_renamed", AttrAdd = "damage.attribute_added", AttrDrop = "damage.attribute_lost", AttrGarble = "damage.attribute_garbled",
  CommentIns = "damage.comment_inserted", TextGarble = "damage.text_garbled", TruncPrefix = "damage.truncated",
  NulTail = "damage.nul_tail", StaleTail = "damage.stale_tail", ZeroBlock = "damage.zero_block",
  LineLost = "damage.line_lost", LineDup = "damage.line_duplicated", LineSwap = "damage.lines_swapped",
  CharGarble = "damage.char_garbled", NumGarble = "damage.numeral_garbled", TextCut = "damage.text_cut",
  HashSeed = "ambient.hash_seed_drawn", ClockRead = "ambient.clock_read", ClockJump = "ambient.clock_jump",
  EnvRead = "ambient.env_read", PidRead = "ambient.pid_read", CwdRead = "ambient.cwd_read", CpuRead = "ambient.cpu_count_read",
  StdoutBroken = "fault.stdout_broken", StdWrite = "effect.std_stream_write",
  Effects = "effect.total", Preempt = "sched.preemptions", FutexBlock = "sched.lock_blocks", YieldPoints = "sched.yield_points", SiteHeld = "sched.task_held_at_a_call_site",
  TasksRun = "sched.tasks", LibCalls = "op.library_calls", OpParseOk = "op.parse_ok", OpParseErr = "op.parse_err",
  OpFileOk = "op.load_file_ok", OpFileErr = "op.load_file_err", OpSaveOk = "op.save_ok", OpSaveErr = "op.save_err",
  OpStr = "op.to_string_ok", OpTextOk = "op.text_ok", OpTextErr = "op.text_err", OpUtil = "op.util_calls", OpPanic = "op.panicked_by_sink",
  DocBytes = "doc.bytes", DocElems = "doc.elements", Epochs = "run.process_lifetimes", Sync = "op.fsync",
  Damaged = "doc.damaged_inputs", TornInputs = "doc.torn_inputs", Compared = "oracle.comparisons", Retry = "op.retry_after_failure", Storm = "op.repeated_in_failure_storm",
  ReentrantCall = "op.reentrant_call_in_sink", Rounds = "op.rounds", Snapshots = "op.snapshots", NoEffectFault = "fault.fired_without_effect",
  SinkCalls = "op.sink_write_calls", ReadCalls = "op.read_calls", Skipped = "run.skipped",
  Generations = "op.save_load_generations", MultibyteSplit = "fault.split_inside_multibyte_char",
}

#[inline]
pub fn count(c: C) {
  sh().counters[c as usize] += 1;
}
pub fn count_n(c: C, n: u64) {
  sh().counters[c as usize] += n;
}

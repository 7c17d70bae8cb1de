//! The simulated operating system. libc symbols that the library (through std)
//! can reach are defined here and take the place of libc's for the whole
//! executable. On a simulated task inside a library call they go to the simulated
//! disk, clock, entropy and lock manager; everywhere else they are passed through
//! as raw system calls.
use crate::shared::*;
use core::sync::atomic::{AtomicU32, Ordering::*};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::CStr;

// ------------------------------------------------------------------ raw calls
#[inline]
pub unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  let r: i64;
  core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
    in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
  r
}
extern "C" {
  fn __errno_location() -> *mut i32;
  fn _exit(c: i32) -> !;
  fn dlsym(h: *mut u8, n: *const i8) -> *mut u8;
}
unsafe fn ret(r: i64) -> i64 {
  if (-4095..0).contains(&r) {
    *__errno_location() = (-r) as i32;
    -1
  } else {
    r
  }
}
unsafe fn fail(e: i32) -> i64 {
  *__errno_location() = e;
  -1
}
pub const EPERM: i32 = 1;
pub const ENOENT: i32 = 2;
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EAGAIN: i32 = 11;
pub const EACCES: i32 = 13;
pub const EISDIR: i32 = 21;
pub const EMFILE: i32 = 24;
pub const ENOSPC: i32 = 28;
pub const EPIPE: i32 = 32;
pub const ESTALE: i32 = 116;

// --------------------------------------------------------------- thread state
thread_local! {
  static TID: Cell<i32> = const { Cell::new(-1) };
  static IN_LIB: Cell<u32> = const { Cell::new(0) };
  static IN_HOOK: Cell<u32> = const { Cell::new(0) };
}
fn tid() -> i32 {
  TID.try_with(|t| t.get()).unwrap_or(-1)
}
fn hooked() -> bool {
  tid() >= 0 && IN_HOOK.try_with(|h| h.get()).unwrap_or(1) == 0
}
/// On a simulated task, inside a library call, not inside the simulator itself.
fn simulated() -> bool {
  hooked() && IN_LIB.try_with(|h| h.get()).unwrap_or(0) > 0
}
struct Hook;
impl Hook {
  fn enter() -> Hook {
    IN_HOOK.with(|h| h.set(h.get() + 1));
    Hook
  }
}
impl Drop for Hook {
  fn drop(&mut self) {
    IN_HOOK.with(|h| h.set(h.get() - 1));
  }
}
/// Runs harness code from a callback of the library (a sink) as non-library code.
pub fn out_of_lib<R>(f: impl FnOnce() -> R) -> R {
  struct G(u32, u32);
  impl Drop for G {
    fn drop(&mut self) {
      IN_LIB.with(|l| l.set(self.0));
      sh().in_lib_now = self.1;
    }
  }
  let g = G(IN_LIB.with(|l| l.replace(0)), sh().in_lib_now);
  sh().in_lib_now = 0;
  let r = f();
  drop(g);
  r
}

// ---------------------------------------------------------------- the world
#[derive(Clone, Default)]
pub struct SimFile {
  pub name: String,
  pub data: Vec<u8>,
  /// what survives a crash
  pub durable: Option<Vec<u8>>,
}
/// How reads of a file misbehave; decided by the scenario before the call.
#[derive(Clone, Default, Debug)]
pub struct ReadPlan {
  pub open_errno: i32,
  pub open_eintr: u32,
  /// 0: reads fill the buffer; else reads return at most 1..=short bytes
  pub short: u32,
  pub eintr_16: u32,
  /// fail the read that reaches this offset (errno)
  pub err_at: Option<(usize, i32)>,
  /// the failing read is transient: a repeated read would succeed
  pub err_once: bool,
  pub size_lie: u32,
  pub stall_16: u32,
  /// at this offset apply a mutation to the open file
  pub mutate_at: Option<(usize, Mutation)>,
}
#[derive(Clone, Debug)]
pub enum Mutation {
  Replace(Vec<u8>),
  Append(Vec<u8>),
  Truncate(usize),
}
pub struct VFd {
  pub file: usize,
  pub pos: usize,
  pub open: bool,
  pub plan: ReadPlan,
  pub delivered: Vec<u8>,
  pub eof_seen: bool,
  pub failed: Option<i32>,
  pub mutated: bool,
  pub sink: bool,
  pub opener: i32,
}
#[derive(Default)]
pub struct World {
  pub active: bool,
  pub files: Vec<SimFile>,
  pub fds: Vec<Box<VFd>>,
  pub plan: Option<ReadPlan>, // for the next open, per task
  pub plans: Vec<Option<ReadPlan>>,
  pub effects: Vec<String>,
  pub effects_by: Vec<i32>,
  pub stdout_mode: u32, // 0 ok 1 EPIPE 2 ENOSPC 3 EBADF
  pub std_written: u64,
  pub hash_seed: u64,
  pub mono: u64,
  pub real: u64,
  pub clock_step: u64,
  pub env_mode: u32,
  pub env_seed: u64,
  pub pid: i32,
  pub cwd_mode: u32,
  pub thread_skip: u32,
  pub thread_name: u32,
  pub cpus: u32,
  pub heap_shift: u32,
  pub step_budget: u64,
  pub mem_budget: i64,
  pub allow_effects: bool,
}
static mut WORLD: *mut World = core::ptr::null_mut();
pub fn world() -> &'static mut World {
  unsafe { &mut *WORLD }
}
const VFD0: i32 = 1_000_000;

pub fn init_world() {
  let w = World {
    active: true,
    step_budget: u64::MAX,
    mem_budget: i64::MAX,
    pid: 4242,
    mono: 1_000_000_000,
    real: 1_700_000_000_000_000_000,
    clock_step: 1000,
    plans: vec![None; MAXT],
    ..Default::default()
  };
  unsafe { WORLD = Box::into_raw(Box::new(w)) };
}

// ---------------------------------------------------------------- verdicts
pub const EXIT_DONE: i32 = 0;
pub const EXIT_VIOLATION: i32 = 1;
pub const EXIT_HARNESS: i32 = 2;
pub const EXIT_NEXT_EPOCH: i32 = 3;

/// Records a violation and ends this simulated execution at once.
pub fn violate(class: &str, detail: &str) -> ! {
  let s = sh();
  set_str(&mut s.class, &mut s.class_len, class);
  set_str(&mut s.detail, &mut s.detail_len, detail);
  unsafe { _exit(EXIT_VIOLATION) }
}
pub fn harness_error(detail: &str) -> ! {
  let s = sh();
  set_str(&mut s.class, &mut s.class_len, "harness");
  set_str(&mut s.detail, &mut s.detail_len, detail);
  unsafe { _exit(EXIT_HARNESS) }
}
pub fn exit_child(code: i32) -> ! {
  unsafe { _exit(code) }
}

// ---------------------------------------------------------------- scheduler
pub const MAXT: usize = 8;
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
  Free,
  Ready,
  Blocked(usize),
  Sleep(u64),
  Done,
}
struct Sched {
  st: [St; MAXT],
  n: usize,
  timeout: [Option<u64>; MAXT],
  timed_out: [bool; MAXT],
  countdown: u64,
  mean: u32,
  running: bool,
  /// the call site at which tasks are held back, if any, and at which passing of it
  site: Option<(usize, u32)>,
  passed: [u32; MAXT],
  holds: u32,
  held: [bool; MAXT],
}
static mut SCHED: Sched = Sched {
  st: [St::Free; MAXT],
  n: 0,
  timeout: [None; MAXT],
  timed_out: [false; MAXT],
  countdown: u64::MAX,
  mean: 0,
  running: false,
  site: None,
  passed: [0; MAXT],
  holds: 0,
  held: [false; MAXT],
};
static BATON: [AtomicU32; MAXT + 1] = [const { AtomicU32::new(0) }; MAXT + 1];
const CTRL: usize = MAXT;

#[allow(static_mut_refs)]
fn sc() -> &'static mut Sched {
  unsafe { &mut SCHED }
}
fn give(to: usize) {
  BATON[to].store(1, Release);
  unsafe { raw6(202, BATON[to].as_ptr() as i64, 1, 1, 0, 0, 0) };
}
fn await_baton(me: usize) {
  while BATON[me].swap(0, Acquire) == 0 {
    unsafe { raw6(202, BATON[me].as_ptr() as i64, 0, 0, 0, 0, 0) };
  }
}
fn draw_gap() {
  let s = sc();
  if s.mean == 0 || s.n < 2 {
    s.countdown = u64::MAX;
    return;
  }
  let v = choose(S_SCHED, 2 * s.mean + 1);
  s.countdown = if v == 0 { u64::MAX } else { v as u64 };
}
fn ready_list() -> ([usize; MAXT], usize) {
  let s = sc();
  let mut a = [0; MAXT];
  let mut k = 0;
  for i in 0..s.n {
    if s.st[i] == St::Ready && !s.held[i] {
      a[k] = i;
      k += 1;
    }
  }
  if k == 0 {
    // only those held back are left
    for i in 0..s.n {
      s.held[i] = false;
      if s.st[i] == St::Ready {
        a[k] = i;
        k += 1;
      }
    }
  }
  (a, k)
}
fn note_switch(to: usize) {
  sh().sched_hash = fnv(sh().sched_hash, (to as u64) << 48 ^ sh().steps);
}
/// The running task cannot continue: hand the baton to somebody who can.
fn dispatch_from(me: Option<usize>) {
  let s = sc();
  loop {
    let (a, k) = ready_list();
    if k > 0 {
      let to = a[choose(S_SCHED, k as u32) as usize];
      note_switch(to);
      log(format_args!("sched -> t{to}"));
      draw_gap();
      give(to);
      if let Some(m) = me {
        await_baton(m);
      }
      return;
    }
    // advance simulated time to the next sleeper or timed wait
    let mut best: Option<(u64, usize)> = None;
    for i in 0..s.n {
      let t = match s.st[i] {
        St::Sleep(t) => Some(t),
        St::Blocked(_) => s.timeout[i],
        _ => None,
      };
      if let Some(t) = t {
        if best.map_or(true, |b| (t, i) < b) {
          best = Some((t, i));
        }
      }
    }
    if let Some((t, i)) = best {
      let w = world();
      if t > w.mono {
        sh().sim_ns += t - w.mono;
        w.mono = t;
      }
      if matches!(s.st[i], St::Blocked(_)) {
        s.timed_out[i] = true;
      }
      s.st[i] = St::Ready;
      continue;
    }
    if (0..s.n).any(|i| matches!(s.st[i], St::Blocked(_))) {
      let mut d = String::new();
      for i in 0..s.n {
        d.push_str(&format!("t{}={:?} ", i, s.st[i]));
      }
      violate("deadlock", &format!("every task is blocked on a lock: {d}"));
    }
    give(CTRL);
    return;
  }
}
/// A point where another task may run. `io`: a seam, not an allocation.
fn yield_point(io: bool) {
  let s = sc();
  if !s.running || s.n < 2 {
    return;
  }
  sh().counters[C::YieldPoints as usize] += 1;
  let go = if io && s.mean != 0 {
    choose(S_SCHED, 4) == 3
  } else {
    if s.countdown != u64::MAX {
      s.countdown = s.countdown.saturating_sub(1);
    }
    s.countdown == 0
  };
  if !go {
    return;
  }
  draw_gap();
  switch_away();
}
fn switch_away() {
  let me = tid() as usize;
  let (a, k) = ready_list();
  if k < 2 {
    return;
  }
  let pick = a[choose(S_SCHED, k as u32) as usize];
  if pick == me {
    return;
  }
  count(C::Preempt);
  note_switch(pick);
  log(format_args!("preempt t{me} -> t{pick} step {}", sh().steps));
  give(pick);
  await_baton(me);
}
// ------------------------------------------------------------- calls as seams
// The library is compiled with a call of `mcount` at the entry of every function
// (rustc-seams.sh), so a task can also be preempted between two calls.
#[no_mangle]
static mut SEAMS_ON: u8 = 0;
const SEAMS_OFF: u8 = 0;
const SEAMS_RECORD: u8 = 1; // a reference run: note which sites are passed how often
const SEAMS_COUNT: u8 = 2; // every call counts towards the next preemption
const SEAMS_HOLD: u8 = 3; // hold tasks back at one chosen site
core::arch::global_asm!(
  ".globl mcount",
  ".type mcount, @function",
  "mcount:",
  "cmp byte ptr [rip + {on}], 0",
  "jne 1f",
  "ret",
  "1: mov rdi, [rsp]",
  "jmp {seam}",
  on = sym SEAMS_ON,
  seam = sym call_seam,
);
extern "C" {
  static __executable_start: u8;
}
/// Where the functions that synchronise tasks (locks, atomics, once cells, thread locals) are
/// in this program: the seams at which being held back matters most.
static mut SYNC: Vec<(usize, usize)> = Vec::new();
pub fn find_sync_functions() {
  let Ok(f) = std::fs::read("/proc/self/exe") else { return };
  let u = |o: usize, n: usize| -> usize { (0..n).rev().fold(0, |a, i| a << 8 | *f.get(o + i).unwrap_or(&0) as usize) };
  let base = core::ptr::addr_of!(__executable_start) as usize;
  let mut v = Vec::new();
  let (shoff, shnum) = (u(0x28, 8), u(0x3c, 2));
  for i in 0..shnum {
    let h = shoff + i * 64;
    if u(h + 4, 4) != 2 {
      continue; // not a symbol table
    }
    let (off, size) = (u(h + 24, 8), u(h + 32, 8));
    let strs = u(shoff + u(h + 40, 4) * 64 + 24, 8);
    for e in (off..off + size).step_by(24) {
      if u(e + 4, 1) & 15 != 2 {
        continue; // not a function
      }
      let n = strs + u(e, 4);
      let name = f[n.min(f.len())..].split(|b| *b == 0).next().unwrap_or(&[]);
      let name = String::from_utf8_lossy(name);
      if ["4sync6atomic", "6poison", "9once_lock", "9lazy_lock", "4once4Once", "6thread5local"].iter().any(|k| name.contains(k)) {
        v.push((base + u(e + 8, 8), base + u(e + 8, 8) + u(e + 16, 8)));
      }
    }
  }
  v.sort();
  unsafe { SYNC = v };
}
#[allow(static_mut_refs)]
fn synchronises(at: usize) -> bool {
  let v = unsafe { &SYNC };
  let i = v.partition_point(|r| r.0 <= at);
  i > 0 && at < v[i - 1].1
}
const SYNC_SITE: u16 = 0x8000;
unsafe extern "C" fn call_seam(ret: usize) {
  if !simulated() {
    return;
  }
  let _h = Hook::enter();
  let site = (ret - core::ptr::addr_of!(__executable_start) as usize).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 51;
  let s = sc();
  match SEAMS_ON {
    SEAMS_RECORD => {
      let c = &mut sh().sites[site];
      if *c == 0 && synchronises(ret) {
        *c = SYNC_SITE;
      }
      if *c & !SYNC_SITE < 0x7000 {
        *c += 1;
      }
    }
    SEAMS_COUNT => yield_point(false),
    SEAMS_HOLD => {
      let Some((at, nth)) = s.site else { return };
      if at != site || !s.running {
        return;
      }
      let me = tid() as usize;
      s.passed[me] += 1;
      if s.passed[me] % nth != 0 || s.holds == 0 {
        return;
      }
      s.holds -= 1;
      count(C::SiteHeld);
      s.held[me] = true;
      draw_gap();
      switch_away();
      s.held[me] = false;
    }
    _ => {}
  }
}
/// Decides for a run of several tasks how calls inside the library are used.
fn draw_seams(mean: u32) {
  let s = sc();
  s.site = None;
  s.passed = [0; MAXT];
  s.held = [false; MAXT];
  s.holds = 0;
  let mut mode = SEAMS_OFF;
  if sh().iso != 0 {
    mode = SEAMS_RECORD;
  } else if s.n > 1 && mean != 0 {
    match choose(S_SCHED, 6) {
      0 | 1 => {}
      2 => {
        mode = SEAMS_COUNT;
        s.mean = mean.saturating_mul([1, 10, 60][choose(S_SCHED, 3) as usize]);
      }
      _ => {
        // every site alike, however rarely it is passed; those that synchronise are preferred
        let sync = sh().sites.iter().any(|c| *c & SYNC_SITE != 0) && choose(S_SCHED, 4) != 0;
        let wanted = |c: &u16| if sync { *c & SYNC_SITE != 0 } else { *c > 0 };
        let known = sh().sites.iter().filter(|c| wanted(c)).count();
        if known > 0 {
          let k = choose(S_SCHED, known as u32) as usize;
          let site = (0..NSITE).filter(|i| wanted(&sh().sites[*i])).nth(k).unwrap();
          let often = (sh().sites[site] & !SYNC_SITE) as u32;
          let nth = 1 + choose(S_SCHED, if choose(S_SCHED, 3) == 2 { often } else { often.min(4) });
          s.site = Some((site, nth));
          s.holds = [1, 2, 4, 12][choose(S_SCHED, 4) as usize];
          // between the holds: run on, or be preempted as well
          s.mean = [0, 0, mean, 3000][choose(S_SCHED, 4) as usize];
          mode = SEAMS_HOLD;
          log(format_args!("hold at {}site {site} of {known} (passed {often} times in the reference runs), passing {nth}, {} holds", if sync { "synchronising " } else { "" }, s.holds));
        }
      }
    }
  }
  unsafe { SEAMS_ON = mode };
}

/// A slow participant: let others run for a while.
pub fn stall() {
  let _h = Hook::enter();
  if sc().running && tid() >= 0 {
    let me = tid() as usize;
    let (a, k) = ready_list();
    if k >= 2 {
      let others: Vec<usize> = a[..k].iter().copied().filter(|x| *x != me).collect();
      let to = others[choose(S_SCHED, others.len() as u32) as usize];
      note_switch(to);
      log(format_args!("stall t{me} -> t{to}"));
      draw_gap();
      give(to);
      await_baton(me);
    }
  }
  world().mono += 5_000_000;
  sh().sim_ns += 5_000_000;
}

/// Runs the tasks to completion under the seeded scheduler. `mean`: mean number of
/// allocation steps between preemptions (0: none).
pub fn run_tasks(mean: u32, tasks: Vec<Box<dyn FnOnce() + Send>>) {
  let n = tasks.len();
  assert!(n <= MAXT);
  {
    let s = sc();
    s.n = n;
    s.mean = mean;
    s.countdown = u64::MAX;
    for i in 0..n {
      s.st[i] = St::Ready;
      s.timeout[i] = None;
      s.timed_out[i] = false;
      BATON[i].store(0, SeqCst);
    }
    BATON[CTRL].store(0, SeqCst);
    unsafe {
      OWN_STEPS = [0; MAXT + 1];
      GATES = 0;
    }
    draw_seams(mean);
    s.running = true;
  }
  // other threads came and went before: thread identities differ
  for _ in 0..world().thread_skip {
    let _ = std::thread::Builder::new().stack_size(64 << 10).spawn(|| ()).map(|h| h.join());
  }
  let mut hs = Vec::new();
  for (i, t) in tasks.into_iter().enumerate() {
    count(C::TasksRun);
    let mut b = std::thread::Builder::new().stack_size(8 << 20);
    match world().thread_name {
      0 => {}
      1 => b = b.name("main".into()),
      k => b = b.name(format!("worker-{}", k as usize + i)),
    }
    let h = b.spawn(move || {
      // tell the controller this thread is up, then wait for the first baton
      give(CTRL);
      await_baton(i);
      TID.with(|x| x.set(i as i32));
      let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(t));
      TID.with(|x| x.set(-1));
      if r.is_err() {
        harness_error(&format!("task {i} panicked outside a library call: {}", last_panic()));
      }
      let s = sc();
      s.st[i] = St::Done;
      dispatch_from(None);
    });
    match h {
      Ok(h) => hs.push(h),
      Err(e) => harness_error(&format!("cannot start a task thread: {e}")),
    }
    await_baton(CTRL);
  }
  draw_gap();
  dispatch_from(None);
  await_baton(CTRL);
  sc().running = false;
  unsafe { SEAMS_ON = SEAMS_OFF };
  for h in hs {
    let _ = h.join();
  }
}

/// A sink that waits for something outside the library.
pub fn wait_gate(g: usize) {
  let _h = Hook::enter();
  let s = sc();
  if !s.running || tid() < 0 || sh().iso != 0 {
    return;
  }
  let bit = 1u64 << g;
  while unsafe { GATES } & bit == 0 {
    let me = tid() as usize;
    s.timeout[me] = None;
    s.st[me] = St::Blocked(usize::MAX - g);
    dispatch_from(Some(me));
  }
}
pub fn open_gate(g: usize) {
  let s = sc();
  unsafe { GATES |= 1u64 << g };
  for i in 0..s.n {
    if s.st[i] == St::Blocked(usize::MAX - g) {
      s.st[i] = St::Ready;
    }
  }
}
static mut GATES: u64 = 0;
pub fn sink_yield() {
  let _h = Hook::enter();
  yield_point(true);
}
pub unsafe fn errno() -> i32 {
  *__errno_location()
}
/// fork through libc, as the simulator itself.
pub unsafe fn raw_fork() -> i32 {
  let f: extern "C" fn() -> i32 = core::mem::transmute(next(c"fork"));
  f()
}
pub const WALL_LIMIT: i64 = 120;
/// CPU-time limit for code that spins without allocating; wall limit as a backstop.
pub fn arm_timers() {
  unsafe {
    let v: [i64; 4] = [0, 0, 10, 0];
    raw6(38, 1, v.as_ptr() as i64, 0, 0, 0, 0);
    let r: [i64; 4] = [0, 0, WALL_LIMIT, 0];
    raw6(38, 0, r.as_ptr() as i64, 0, 0, 0, 0);
  }
}
/// Crashes end the process at once instead of running Rust's handlers.
pub fn default_signals() {
  unsafe {
    let sa: [u64; 4] = [0; 4];
    for sig in [11, 7, 4, 8] {
      raw6(13, sig, sa.as_ptr() as i64, 0, 8, 0, 0);
    }
  }
}

static mut PANIC_MSG: [u8; 512] = [0; 512];
static mut PANIC_LEN: usize = 0;
pub fn last_panic() -> String {
  unsafe { String::from_utf8_lossy(&(&(*&raw const PANIC_MSG))[..PANIC_LEN]).into_owned() }
}
pub fn install_panic_hook() {
  std::panic::set_hook(Box::new(|info| {
    let _h = Hook::enter();
    let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
      s.to_string()
    } else if let Some(s) = info.payload().downcast_ref::<String>() {
      s.clone()
    } else {
      "?".to_string()
    };
    let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()));
    let t = format!("{} at {}", msg, loc.unwrap_or_default());
    unsafe {
      let b = &mut *&raw mut PANIC_MSG;
      set_str(b, &mut *&raw mut PANIC_LEN, &t);
    }
    log(format_args!("panic: {t}"));
  }));
}

// -------------------------------------------------------------- library calls
#[derive(Debug, Clone)]
pub enum Called<R> {
  Returned(R),
  Panicked(String),
}
/// Calls the library on the current task. Everything the callee does on this
/// thread until it returns goes through the simulator.
pub fn lib_call<R>(label: &str, f: impl FnOnce() -> R) -> Called<R> {
  count(C::LibCalls);
  let s = sh();
  let steps0 = s.steps;
  {
    let _h = Hook::enter();
    set_str(&mut s.oplabel, &mut s.oplabel_len, label);
    log(format_args!("t{} call {label}", tid()));
  }
  CALL_START.with(|c| c.set(steps0));
  s.in_lib_now = 1;
  IN_LIB.with(|l| l.set(l.get() + 1));
  let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
  IN_LIB.with(|l| l.set(l.get() - 1));
  s.in_lib_now = 0;
  let _h = Hook::enter();
  log(format_args!("t{} done {label} {}", tid(), if r.is_ok() { "returned" } else { "panicked" }));
  match r {
    Ok(v) => Called::Returned(v),
    Err(_) => Called::Panicked(last_panic()),
  }
}
thread_local! { static CALL_START: Cell<u64> = const { Cell::new(0) }; }
static mut OWN_STEPS: [u64; MAXT + 1] = [0; MAXT + 1];
pub fn set_budget(steps: u64, mem: i64) {
  world().step_budget = steps;
  world().mem_budget = mem;
  unsafe { OWN_STEPS = [0; MAXT + 1] };
}
/// Steps this task spent in library code since the last set_budget.
pub fn own_steps() -> u64 {
  let t = tid();
  unsafe { OWN_STEPS[if t >= 0 { t as usize } else { MAXT }] }
}

fn step() {
  let s = sh();
  s.steps += 1;
  let w = world();
  let t = tid() as usize;
  unsafe {
    OWN_STEPS[t] += 1;
    if OWN_STEPS[t] > w.step_budget {
      let l = get_str(&s.oplabel, s.oplabel_len);
      let b = w.step_budget;
      violate("runaway", &format!("{l}: still running after {b} steps"));
    }
  }
}

// ------------------------------------------------------------------ allocator
pub struct SimAlloc;
use core::sync::atomic::AtomicI64;
static LIVE: AtomicI64 = AtomicI64::new(0);
pub fn live_bytes() -> i64 {
  LIVE.load(Relaxed)
}
#[inline]
fn alloc_hook(sz: usize) {
  let v = LIVE.fetch_add(sz as i64, Relaxed) + sz as i64;
  if simulated() {
    let _h = Hook::enter();
    if unsafe { WORLD.is_null() } {
      return;
    }
    step();
    if v > world().mem_budget {
      let l = get_str(&sh().oplabel, sh().oplabel_len);
      violate("runaway", &format!("{l}: holds more than {} bytes", world().mem_budget));
    }
    yield_point(false);
  }
}
unsafe impl GlobalAlloc for SimAlloc {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    alloc_hook(l.size());
    System.alloc(l)
  }
  unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
    alloc_hook(l.size());
    System.alloc_zeroed(l)
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
    LIVE.fetch_sub(l.size() as i64, Relaxed);
    System.dealloc(p, l)
  }
  unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
    LIVE.fetch_sub(l.size() as i64, Relaxed);
    alloc_hook(n);
    System.realloc(p, l, n)
  }
}

// ------------------------------------------------------------- interposed libc
fn effect(s: String) {
  count(C::Effects);
  log(format_args!("effect {s}"));
  world().effects.push(s);
  world().effects_by.push(tid());
}
unsafe fn pstr(p: *const i8) -> String {
  if p.is_null() {
    "(null)".into()
  } else {
    CStr::from_ptr(p).to_string_lossy().into_owned()
  }
}
pub fn find_file(name: &str) -> Option<usize> {
  world().files.iter().position(|f| f.name == name)
}
pub fn put_file(name: &str, data: Vec<u8>) -> usize {
  let w = world();
  match w.files.iter().position(|f| f.name == name) {
    Some(i) => {
      w.files[i].data = data;
      i
    }
    None => {
      w.files.push(SimFile { name: name.into(), data, durable: None });
      w.files.len() - 1
    }
  }
}
pub fn plan_next_open(p: ReadPlan) {
  let t = tid();
  if t < 0 {
    harness_error("plan_next_open outside a task");
  }
  world().plans[t as usize] = Some(p);
}
fn new_vfd(file: usize, plan: ReadPlan, sink: bool) -> i32 {
  let w = world();
  w.fds.push(Box::new(VFd {
    file,
    pos: 0,
    open: true,
    plan,
    delivered: Vec::new(),
    eof_seen: false,
    failed: None,
    mutated: false,
    sink,
    opener: tid(),
  }));
  VFD0 + w.fds.len() as i32 - 1
}
unsafe fn sim_open(path: *const i8, flags: i32) -> i64 {
  let _h = Hook::enter();
  step();
  let p = pstr(path);
  let w = world();
  let acc = flags & 3;
  if acc != 0 || flags & (0o100 | 0o1000 | 0o2000) != 0 {
    effect(format!("open for writing {p} flags {flags:#o}"));
    return (new_vfd(usize::MAX, ReadPlan::default(), true)) as i64;
  }
  if !p.starts_with("/sim/") {
    effect(format!("open {p}"));
    return fail(ENOENT);
  }
  let t = tid() as usize;
  let expected = w.plans[t].is_some();
  let mut plan = match &mut w.plans[t] {
    Some(p) => {
      if p.open_eintr > 0 {
        p.open_eintr -= 1;
        count(C::OpenEintr);
        log(format_args!("open {} -> EINTR", pstr(path)));
        yield_point(true);
        return fail(EINTR);
      }
      p.clone()
    }
    None => ReadPlan::default(),
  };
  if !expected {
    // a second open in one call, or an open nobody asked for
    effect(format!("unexpected open {p}"));
  }
  yield_point(true);
  w.plans[t] = None;
  if plan.open_errno != 0 {
    count(C::OpenErr);
    log(format_args!("open {p} -> errno {}", plan.open_errno));
    return fail(plan.open_errno);
  }
  match find_file(&p) {
    None => {
      log(format_args!("open {p} -> ENOENT"));
      fail(ENOENT)
    }
    Some(i) => {
      if plan.err_at.is_none() {
        plan.err_once = false;
      }
      let fd = new_vfd(i, plan, false);
      log(format_args!("open {p} -> {fd}"));
      fd as i64
    }
  }
}
fn vfd(fd: i32) -> Option<&'static mut VFd> {
  if fd < VFD0 {
    return None;
  }
  world().fds.get_mut((fd - VFD0) as usize).map(|b| &mut **b)
}
unsafe fn sim_read(fd: i32, buf: *mut u8, n: usize, at: Option<usize>) -> i64 {
  let _h = Hook::enter();
  step();
  count(C::ReadCalls);
  let v = match vfd(fd) {
    Some(v) if v.open && !v.sink => v,
    _ => return fail(EBADF),
  };
  if v.plan.stall_16 > 0 && choose(S_FAULT, 16) >= 16 - v.plan.stall_16 {
    count(C::ReadStall);
    stall();
  } else {
    yield_point(true);
  }
  if v.plan.eintr_16 > 0 && n > 0 && choose(S_FAULT, 16) >= 16 - v.plan.eintr_16 {
    count(C::ReadEintr);
    log(format_args!("read {fd} -> EINTR"));
    return fail(EINTR);
  }
  let pos = at.unwrap_or(v.pos);
  if let Some((o, m)) = v.plan.mutate_at.clone() {
    if pos >= o && !v.mutated {
      v.mutated = true;
      let f = &mut world().files[v.file];
      log(format_args!("file {} changes while being read", f.name));
      match m {
        Mutation::Replace(d) => {
          count(C::FileReplaced);
          f.data = d;
        }
        Mutation::Append(d) => {
          count(C::FileGrown);
          f.data.extend_from_slice(&d);
        }
        Mutation::Truncate(k) => {
          count(C::FileTruncated);
          f.data.truncate(k);
        }
      }
    }
  }
  if let Some((o, e)) = v.plan.err_at {
    if pos >= o && n > 0 {
      count(C::ReadErr);
      v.failed = Some(e);
      if v.plan.err_once {
        v.plan.err_at = None;
      }
      log(format_args!("read {fd} at {pos} -> errno {e}"));
      return fail(e);
    }
  }
  let data = &world().files[v.file].data;
  let mut k = data.len().saturating_sub(pos).min(n);
  if let Some((o, _)) = v.plan.err_at {
    k = k.min(o.saturating_sub(pos).max(1));
  }
  if let Some((o, _)) = &v.plan.mutate_at {
    if !v.mutated && *o > pos {
      k = k.min(*o - pos);
    }
  }
  if v.plan.short > 0 && k > 1 {
    let m = 1 + choose(S_FAULT, v.plan.short.min(k as u32)) as usize;
    if m < k {
      count(C::ShortRead);
      k = m;
    }
  }
  if k > 0 {
    core::ptr::copy_nonoverlapping(data.as_ptr().add(pos), buf, k);
    if v.delivered.len() < pos {
      v.delivered.resize(pos, 0);
    }
    v.delivered.truncate(pos);
    v.delivered.extend_from_slice(&data[pos..pos + k]);
  } else if n > 0 {
    v.eof_seen = true;
  }
  if at.is_none() {
    v.pos += k;
  }
  log(format_args!("read {fd} at {pos} want {n} -> {k}"));
  k as i64
}
fn stdout_result(n: usize) -> i64 {
  unsafe {
    match world().stdout_mode {
      1 => fail(EPIPE),
      2 => fail(ENOSPC),
      3 => fail(EIO),
      _ => n as i64,
    }
  }
}
unsafe fn sim_write(fd: i32, buf: *const u8, n: usize) -> i64 {
  let _h = Hook::enter();
  step();
  let s = String::from_utf8_lossy(core::slice::from_raw_parts(buf, n.min(60))).into_owned();
  if fd == 1 || fd == 2 {
    count(C::StdWrite);
    world().std_written += n as u64;
    effect(format!("write to fd {fd}: {s:?}"));
    yield_point(true);
    if world().stdout_mode != 0 {
      count(C::StdoutBroken);
    }
    return stdout_result(n);
  }
  if let Some(v) = vfd(fd) {
    effect(format!("write to file: {s:?}"));
    return if v.sink { n as i64 } else { fail(EBADF) };
  }
  effect(format!("write to descriptor {fd}"));
  fail(EBADF)
}

unsafe fn next(name: &CStr) -> *mut u8 {
  let _h = IN_HOOK.try_with(|h| h.set(h.get() + 1));
  let p = dlsym(-1isize as *mut u8, name.as_ptr());
  let _ = IN_HOOK.try_with(|h| h.set(h.get() - 1));
  p
}
macro_rules! deny {
  ($($name:ident ( $($a:ident : $t:ty),* ) -> $r:ty, $e:expr, $path:expr;)*) => {$(
    #[no_mangle]
    pub unsafe extern "C" fn $name($($a: $t),*) -> $r {
      if simulated() {
        let _h = Hook::enter();
        let what: String = { let f: &dyn Fn() -> String = &|| $path; f() };
        effect(format!("{} {}", stringify!($name), what));
        fail(EPERM);
        return $e;
      }
      let f: extern "C" fn($($t),*) -> $r = core::mem::transmute(next(CStr::from_bytes_with_nul_unchecked(concat!(stringify!($name), "\0").as_bytes())));
      f($($a),*)
    }
  )*};
}
deny! {
  unlink(p: *const i8) -> i32, -1, pstr(p);
  unlinkat(d: i32, p: *const i8, f: i32) -> i32, -1, { let _ = (d, f); pstr(p) };
  rename(a: *const i8, b: *const i8) -> i32, -1, format!("{} {}", pstr(a), pstr(b));
  mkdir(p: *const i8, m: u32) -> i32, -1, { let _ = m; pstr(p) };
  rmdir(p: *const i8) -> i32, -1, pstr(p);
  chmod(p: *const i8, m: u32) -> i32, -1, { let _ = m; pstr(p) };
  symlink(a: *const i8, b: *const i8) -> i32, -1, format!("{} {}", pstr(a), pstr(b));
  link(a: *const i8, b: *const i8) -> i32, -1, format!("{} {}", pstr(a), pstr(b));
  chdir(p: *const i8) -> i32, -1, pstr(p);
  ftruncate64(fd: i32, n: i64) -> i32, -1, format!("{fd} {n}");
  fchmod(fd: i32, n: u32) -> i32, -1, format!("{fd} {n}");
  socket(a: i32, b: i32, c: i32) -> i32, -1, format!("{a} {b} {c}");
  connect(a: i32, b: *const u8, c: u32) -> i32, -1, format!("{a} {b:?} {c}");
  fork() -> i32, -1, String::new();
  execvp(p: *const i8, a: *const *const i8) -> i32, -1, { let _ = a; pstr(p) };
  posix_spawnp(a: *mut i32, p: *const i8, c: *const u8, d: *const u8, e: *const u8, f: *const u8) -> i32, EPERM, { let _ = (a, c, d, e, f); pstr(p) };
  kill(a: i32, b: i32) -> i32, -1, format!("{a} {b}");
  setenv(a: *const i8, b: *const i8, c: i32) -> i32, -1, { let _ = (b, c); pstr(a) };
  unsetenv(a: *const i8) -> i32, -1, pstr(a);
  opendir(p: *const i8) -> *mut u8, core::ptr::null_mut(), pstr(p);
  pthread_create(a: *mut u64, b: *const u8, c: extern "C" fn(*mut u8) -> *mut u8, d: *mut u8) -> i32, EAGAIN, { let _ = (a, b, c, d); String::new() };
  flock(a: i32, b: i32) -> i32, -1, format!("{a} {b}");
  signal(a: i32, b: usize) -> usize, usize::MAX, format!("{a} {b}");
}

unsafe fn raw_open(dir: i32, p: *const i8, f: i32, m: u32) -> i64 {
  ret(raw6(257, dir as i64, p as i64, f as i64, m as i64, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const i8, f: i32, m: u32) -> i32 {
  if simulated() {
    return sim_open(p, f) as i32;
  }
  raw_open(-100, p, f, m) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const i8, f: i32, m: u32) -> i32 {
  open64(p, f, m)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const i8, f: i32, m: u32) -> i32 {
  if simulated() {
    return sim_open(p, f) as i32;
  }
  raw_open(d, p, f, m) as i32
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: i32, p: *const i8, f: i32, m: u32) -> i32 {
  openat64(d, p, f, m)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
  if fd >= VFD0 {
    return sim_read(fd, b, n, None) as isize;
  }
  if simulated() {
    let _h = Hook::enter();
    effect(format!("read from descriptor {fd}"));
    return fail(EBADF) as isize;
  }
  ret(raw6(0, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, b: *mut u8, n: usize, o: i64) -> isize {
  if fd >= VFD0 {
    return sim_read(fd, b, n, Some(o as usize)) as isize;
  }
  ret(raw6(17, fd as i64, b as i64, n as i64, o, 0, 0)) as isize
}
#[repr(C)]
pub struct IoVec {
  p: *mut u8,
  n: usize,
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const IoVec, n: i32) -> isize {
  if fd >= VFD0 {
    for i in 0..n as usize {
      if (*v.add(i)).n > 0 {
        return sim_read(fd, (*v.add(i)).p, (*v.add(i)).n, None) as isize;
      }
    }
    return 0;
  }
  ret(raw6(19, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
  if simulated() || fd >= VFD0 {
    return sim_write(fd, b, n) as isize;
  }
  ret(raw6(1, fd as i64, b as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
  if simulated() || fd >= VFD0 {
    let mut t = 0;
    for i in 0..n as usize {
      let r = sim_write(fd, (*v.add(i)).p, (*v.add(i)).n);
      if r < 0 {
        return if t > 0 { t } else { -1 };
      }
      t += r as isize;
    }
    return t;
  }
  ret(raw6(20, fd as i64, v as i64, n as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
  if fd >= VFD0 {
    let _h = Hook::enter();
    log(format_args!("close {fd}"));
    return match vfd(fd) {
      Some(v) if v.open => {
        v.open = false;
        0
      }
      _ => fail(EBADF) as i32,
    };
  }
  ret(raw6(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, c: i32, a: i64) -> i32 {
  if fd >= VFD0 {
    return match vfd(fd) {
      Some(v) if v.open => 0,
      _ => fail(EBADF) as i32,
    };
  }
  ret(raw6(72, fd as i64, c as i64, a, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, c: i32, a: i64) -> i32 {
  fcntl(fd, c, a)
}
unsafe fn reported_size(fd: i32) -> i64 {
  let v = vfd(fd).unwrap();
  if v.sink {
    return 0;
  }
  let n = world().files[v.file].data.len() as i64;
  match v.plan.size_lie {
    0 => n,
    k => {
      count(C::SizeLie);
      match k {
        1 => 0,
        2 => n / 2,
        3 => n + 1,
        4 => n * 3 + 4096,
        5 => (n - 1).max(0),
        _ => 1,
      }
    }
  }
}
unsafe fn fill_statx(fd: i32, b: *mut u8) -> i32 {
  let _h = Hook::enter();
  step();
  core::ptr::write_bytes(b, 0, 256);
  let size = reported_size(fd);
  (b as *mut u32).write(0x7ff);
  (b.add(4) as *mut u32).write(4096);
  (b.add(16) as *mut u32).write(1);
  (b.add(28) as *mut u16).write(0o100644);
  (b.add(32) as *mut u64).write(fd as u64);
  (b.add(40) as *mut i64).write(size);
  (b.add(48) as *mut i64).write((size + 511) / 512);
  log(format_args!("stat {fd} -> size {size}"));
  0
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: i32, p: *const i8, fl: i32, m: u32, b: *mut u8) -> i32 {
  if d >= VFD0 {
    return fill_statx(d, b);
  }
  if simulated() {
    let _h = Hook::enter();
    let n = pstr(p);
    step();
    if let Some(i) = find_file(&n) {
      // size of a path: through a temporary descriptor with the pending plan
      let plan = world().plans[tid() as usize].clone().unwrap_or_default();
      let fd = new_vfd(i, plan, false);
      let r = fill_statx(fd, b);
      vfd(fd).unwrap().open = false;
      return r;
    }
    if n.starts_with("/sim/") {
      return fail(ENOENT) as i32;
    }
    effect(format!("stat {n}"));
    return fail(ENOENT) as i32;
  }
  ret(raw6(332, d as i64, p as i64, fl as i64, m as i64, b as i64, 0)) as i32
}
unsafe fn fill_stat(fd: i32, b: *mut u8) -> i32 {
  let _h = Hook::enter();
  step();
  core::ptr::write_bytes(b, 0, 144);
  let size = reported_size(fd);
  (b.add(8) as *mut u64).write(fd as u64);
  (b.add(16) as *mut u64).write(1);
  (b.add(24) as *mut u32).write(0o100644);
  (b.add(48) as *mut i64).write(size);
  (b.add(56) as *mut i64).write(4096);
  (b.add(64) as *mut i64).write((size + 511) / 512);
  0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 {
  if fd >= VFD0 {
    return fill_stat(fd, b);
  }
  ret(raw6(5, fd as i64, b as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: i32, b: *mut u8) -> i32 {
  fstat64(fd, b)
}
unsafe fn path_stat(nr: i64, p: *const i8, b: *mut u8) -> i32 {
  if simulated() {
    let _h = Hook::enter();
    let n = pstr(p);
    if let Some(i) = find_file(&n) {
      let plan = world().plans[tid() as usize].clone().unwrap_or_default();
      let fd = new_vfd(i, plan, false);
      let r = fill_stat(fd, b);
      vfd(fd).unwrap().open = false;
      return r;
    }
    if !n.starts_with("/sim/") {
      effect(format!("stat {n}"));
    }
    return fail(ENOENT) as i32;
  }
  ret(raw6(nr, p as i64, b as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const i8, b: *mut u8) -> i32 {
  path_stat(4, p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const i8, b: *mut u8) -> i32 {
  path_stat(6, p, b)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, o: i64, w: i32) -> i64 {
  if fd >= VFD0 {
    let _h = Hook::enter();
    return match vfd(fd) {
      Some(v) if v.open && !v.sink => {
        let n = world().files[v.file].data.len() as i64;
        let b = match w {
          0 => 0,
          1 => v.pos as i64,
          _ => n,
        };
        if b + o < 0 {
          return fail(22);
        }
        v.pos = (b + o) as usize;
        v.pos as i64
      }
      _ => fail(EBADF),
    };
  }
  ret(raw6(8, fd as i64, o, w as i64, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: i32, o: i64, w: i32) -> i64 {
  lseek64(fd, o, w)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
  if simulated() {
    let _h = Hook::enter();
    effect(format!("fsync {fd}"));
    return fail(EBADF) as i32;
  }
  ret(raw6(74, fd as i64, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: i32, t: *mut i64) -> i32 {
  if simulated() {
    let _h = Hook::enter();
    step();
    count(C::ClockRead);
    let w = world();
    w.mono += w.clock_step;
    sh().sim_ns += w.clock_step;
    if w.clock_step > 1_000_000 {
      count(C::ClockJump);
      // wall clock may also jump backwards
      let d = choose(S_AMB, 1 << 16) as u64 * 1_000_000_000;
      w.real = w.real.wrapping_add(d).wrapping_sub((1u64 << 15) * 1_000_000_000);
    }
    let v = if c == 0 || c == 5 { w.real } else { w.mono };
    *t = (v / 1_000_000_000) as i64;
    *t.add(1) = (v % 1_000_000_000) as i64;
    return 0;
  }
  ret(raw6(228, c as i64, t as i64, 0, 0, 0, 0)) as i32
}
unsafe fn sim_sleep(ns: u64) {
  let _h = Hook::enter();
  step();
  log(format_args!("sleep {ns} ns"));
  let w = world();
  let s = sc();
  let me = tid() as usize;
  s.st[me] = St::Sleep(w.mono + ns);
  dispatch_from(Some(me));
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const i64, b: *mut i64) -> i32 {
  if simulated() {
    sim_sleep((*a as u64) * 1_000_000_000 + *a.add(1) as u64);
    return 0;
  }
  ret(raw6(35, a as i64, b as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: i32, f: i32, a: *const i64, b: *mut i64) -> i32 {
  if simulated() {
    let t = (*a as u64) * 1_000_000_000 + *a.add(1) as u64;
    sim_sleep(if f & 1 != 0 { t.saturating_sub(world().mono) } else { t });
    return 0;
  }
  (-raw6(230, c as i64, f as i64, a as i64, b as i64, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
  if simulated() {
    let _h = Hook::enter();
    step();
    if sc().n >= 2 {
      switch_away();
    }
    return 0;
  }
  raw6(24, 0, 0, 0, 0, 0, 0) as i32
}
unsafe fn sim_random(b: *mut u8, n: usize) -> isize {
  let _h = Hook::enter();
  count(C::HashSeed);
  let w = world();
  for i in 0..n {
    w.hash_seed = w.hash_seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
    *b.add(i) = (w.hash_seed >> 33) as u8;
  }
  n as isize
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut u8, n: usize, f: u32) -> isize {
  if hooked() {
    return sim_random(b, n);
  }
  ret(raw6(318, b as i64, n as i64, f as i64, 0, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
  if simulated() {
    count(C::PidRead);
    return world().pid;
  }
  raw6(39, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> i32 {
  if simulated() {
    count(C::PidRead);
    return world().pid / 2 + 1;
  }
  raw6(110, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> u32 {
  if simulated() {
    count(C::PidRead);
    return world().pid as u32 % 3 * 1000;
  }
  raw6(102, 0, 0, 0, 0, 0, 0) as u32
}
#[no_mangle]
pub unsafe extern "C" fn gettid() -> i32 {
  if simulated() {
    count(C::PidRead);
    return world().pid + 1 + tid();
  }
  raw6(186, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(p: i32, n: usize, m: *mut u8) -> i32 {
  if simulated() && n >= 8 {
    count(C::CpuRead);
    core::ptr::write_bytes(m, 0, n);
    for i in 0..world().cpus.clamp(1, 64) as usize {
      *m.add(i / 8) |= 1 << (i % 8);
    }
    return 0;
  }
  let r = ret(raw6(204, p as i64, n as i64, m as i64, 0, 0, 0));
  if r < 0 {
    -1
  } else {
    core::ptr::write_bytes(m.add(r as usize), 0, n - r as usize);
    0
  }
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(b: *mut u8, n: usize) -> i32 {
  if simulated() {
    let _h = Hook::enter();
    count(C::EnvRead);
    let h = format!("host{}\0", world().env_seed);
    core::ptr::copy_nonoverlapping(h.as_ptr(), b, h.len().min(n));
    return 0;
  }
  let f: extern "C" fn(*mut u8, usize) -> i32 = core::mem::transmute(next(c"gethostname"));
  f(b, n)
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: i32) -> i32 {
  if simulated() {
    count(C::EnvRead);
    return (world().env_mode & 1) as i32;
  }
  let f: extern "C" fn(i32) -> i32 = core::mem::transmute(next(c"isatty"));
  f(fd)
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut i64, z: *mut u8) -> i32 {
  if simulated() {
    clock_gettime(0, t);
    *t.add(1) /= 1000;
    return 0;
  }
  ret(raw6(96, t as i64, z as i64, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut i64) -> i64 {
  let mut v = [0i64; 2];
  clock_gettime(0, v.as_mut_ptr());
  if !t.is_null() {
    *t = v[0];
  }
  v[0]
}
extern "C" {
  static mut environ: *const *const i8;
}
/// The environment array itself (std::env::vars reads it without getenv) and the
/// places later allocations get, both from the seed.
pub fn set_process_image(env_mode: u32, env_seed: u64, shift: u32) {
  if env_mode > 0 {
    let mut v: Vec<*const i8> = Vec::new();
    let names = ["LANG", "LC_ALL", "TZ", "HOME", "DEBUG", "RUST_LOG", "RUST_BACKTRACE", "TMPDIR", "JLAW_DEBUG", "NO_COLOR"];
    for (i, n) in names.iter().enumerate() {
      if env_seed >> i & 1 == 1 {
        let val = ["1", "0", "", "en_US.UTF-8", "ja_JP.SJIS"][(env_seed as usize + i * env_mode as usize) % 5];
        v.push(Box::leak(format!("{n}={val}\0").into_boxed_str()).as_ptr() as *const i8);
      }
    }
    v.push(core::ptr::null());
    unsafe { environ = v.leak().as_ptr() };
  }
  for i in 0..shift {
    let n = 16 + (i as usize * 7919 + shift as usize * 131) % 3000;
    std::hint::black_box(Vec::<u8>::with_capacity(n).leak());
  }
}
static mut ENVBUF: [u8; 64] = [0; 64];
#[no_mangle]
pub unsafe extern "C" fn getenv(n: *const i8) -> *mut i8 {
  if simulated() {
    let _h = Hook::enter();
    let name = pstr(n);
    count(C::EnvRead);
    let w = world();
    log(format_args!("getenv {name}"));
    let opts: [&str; 8] = ["1", "0", "", "en_US.UTF-8", "ja_JP.SJIS", "true", "debug", "/nonexistent"];
    return match w.env_mode {
      0 => core::ptr::null_mut(),
      m => {
        let v = opts[((hash_bytes(name.as_bytes()) ^ w.env_seed.wrapping_mul(m as u64)) % 8) as usize];
        let b = &mut *&raw mut ENVBUF;
        b[..v.len()].copy_from_slice(v.as_bytes());
        b[v.len()] = 0;
        b.as_mut_ptr() as *mut i8
      }
    };
  }
  let f: extern "C" fn(*const i8) -> *mut i8 = core::mem::transmute(next(c"getenv"));
  f(n)
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut u8, n: usize) -> *mut u8 {
  if simulated() {
    count(C::CwdRead);
    let s: &[u8] = match world().cwd_mode {
      0 => b"/\0",
      1 => b"/sim\0",
      _ => {
        fail(ENOENT);
        return core::ptr::null_mut();
      }
    };
    if n < s.len() || b.is_null() {
      fail(34);
      return core::ptr::null_mut();
    }
    core::ptr::copy_nonoverlapping(s.as_ptr(), b, s.len());
    return b;
  }
  if raw6(79, b as i64, n as i64, 0, 0, 0, 0) < 0 {
    return core::ptr::null_mut();
  }
  b
}
unsafe fn sim_futex(addr: usize, op: i64, val: u32, timeout: *const i64) -> i64 {
  let _h = Hook::enter();
  let s = sc();
  let me = tid() as usize;
  match op & 0x7f {
    0 | 9 => {
      if (*(addr as *const AtomicU32)).load(SeqCst) != val {
        return fail(EAGAIN);
      }
      step();
      count(C::FutexBlock);
      log(format_args!("t{me} blocks on a lock"));
      s.timed_out[me] = false;
      s.timeout[me] = if timeout.is_null() {
        None
      } else {
        let t = (*timeout as u64).saturating_mul(1_000_000_000).saturating_add(*timeout.add(1) as u64);
        Some(if op & 0x7f == 9 { t } else { world().mono + t })
      };
      s.st[me] = St::Blocked(addr);
      dispatch_from(Some(me));
      if s.timed_out[me] {
        return fail(110);
      }
      0
    }
    1 | 10 => {
      let mut k = 0;
      for i in 0..s.n {
        if k < val as i64 && s.st[i] == St::Blocked(addr) {
          s.st[i] = St::Ready;
          k += 1;
        }
      }
      yield_point(true);
      k
    }
    _ => fail(38),
  }
}
/// std's locks and parking come through here (variadic in C: same registers).
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
  if n == 202 && hooked() && sc().running {
    return sim_futex(a as usize, b, c as u32, d as *const i64);
  }
  if n == 318 && hooked() {
    return sim_random(a as *mut u8, b as usize) as i64;
  }
  if simulated() && n != 186 {
    let _h = Hook::enter();
    effect(format!("syscall {n}"));
  }
  ret(raw6(n, a, b, c, d, e, f))
}

/// Everything std still buffers for standard output counts as library output.
pub fn flush_std() {
  use std::io::Write;
  let prev = IN_LIB.with(|l| l.replace(1));
  let _ = std::io::stdout().flush();
  IN_LIB.with(|l| l.set(prev));
}
pub fn open_vfds() -> usize {
  world().fds.iter().filter(|f| f.open).count()
}

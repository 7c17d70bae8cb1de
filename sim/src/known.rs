//! Genuine defects that are listed instead of repaired (/verif/known-findings.txt).
//! Each has a witness: one specific input on which the real code still fails.
use crate::ops::*;
use crate::shared::*;
use crate::sys::*;
use crate::xmlread;
use std::sync::Arc;

extern "C" {
  fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
}

/// Runs the witness as a simulated process of its own; true: it still fails.
fn fails(id: &str) -> Option<bool> {
  reset(0, true, None, false);
  let f: fn() -> bool = match id {
    "deep-nesting" => deep_nesting,
    "control-character" => control_character,
    "attribute-whitespace" => attribute_whitespace,
    "carriage-return" => carriage_return,
    "markup-in-attribute" => markup_in_attribute,
    "nameless-pi" => nameless_pi,
    "amend-sentences" => amend_sentences,
    "item-number" => item_number,
    "interleaved-order" => interleaved_order,
    _ => return None,
  };
  let pid = unsafe { raw_fork() };
  if pid < 0 {
    return None;
  }
  if pid == 0 {
    default_signals();
    arm_timers();
    init_world();
    exit_child(if solo(f) { 1 } else { 0 });
  }
  let mut st = 0;
  while unsafe { waitpid(pid, &mut st, 0) } != pid {}
  Some(if st & 0x7f != 0 { id == "deep-nesting" && sh().in_lib_now != 0 } else { st >> 8 & 0xff == 1 })
}
/// 100 000 nested elements: loading ends the process.
fn deep_nesting() -> bool {
  let b = "<a>".repeat(100_000) + &"</a>".repeat(100_000);
  exec(&Op::Parse(Arc::new(b.into_bytes())), &[]).panicked.is_some()
}
fn titled(title: &str, attr: &str) -> (Option<String>, Option<String>) {
  let doc = String::from_utf8_lossy(TINY).replace("<LawTitle>t</LawTitle>", &format!("<LawTitle Kana=\"{attr}\">{title}</LawTitle>"));
  let Some(law) = exec(&Op::Parse(Arc::new(doc.into_bytes())), &[]).law else { return (None, None) };
  let s = exec(&Op::ToXml(0), &[law]);
  let Ok(e) = xmlread::read(&s.out) else { return (None, None) };
  let mut t = None;
  let mut a = None;
  fn walk(e: &crate::doc::Elem, t: &mut Option<String>, a: &mut Option<String>) {
    for k in &e.kids {
      match k {
        crate::doc::Node::Elem(c) => walk(c, t, a),
        crate::doc::Node::Text(s) if e.name == "LawTitle" => *t = Some(s.clone()),
        _ => {}
      }
    }
    if e.name == "LawTitle" {
      *a = e.attrs.iter().find(|x| x.0 == "Kana").map(|x| x.1.clone());
    }
  }
  walk(&e, &mut t, &mut a);
  (t, a)
}
/// A title given to parse_text that holds U+0001 is saved as a document no reader accepts.
fn control_character() -> bool {
  let a = TextArgs { text: "第一条　本文。".into(), year: 2000, month: None, day: None, law_type: 0, lang: 0, num: None, law_num: "n".into(), title: "a\u{1}b".into() };
  let Some(law) = exec(&Op::Text(Arc::new(a)), &[]).law else { return false };
  let s = exec(&Op::ToXml(0), &[law]);
  s.digest.starts_with("Ok") && xmlread::read(&s.out).is_err()
}
fn carriage_return() -> bool {
  titled("a&#13;b", "k").0 != Some("a\rb".into())
}
fn attribute_whitespace() -> bool {
  titled("t", "a&#9;b").1 != Some("a\tb".into())
}

/// A stale block that put the start of a tag into an attribute value: not a document, but loaded.
fn markup_in_attribute() -> bool {
  let doc = String::from_utf8_lossy(TINY).replace("<LawTitle>", "<LawTitle Kana=\"a</b\">").into_bytes();
  xmlread::read(&doc).is_err() && exec(&Op::Parse(Arc::new(doc)), &[]).law.is_some()
}
/// A processing instruction (or XML declaration) whose name was overwritten by a space: loaded as well.
fn nameless_pi() -> bool {
  let doc = [b"<? version=\"1.0\"?>", TINY].concat();
  xmlread::read(&doc).is_err() && exec(&Op::Parse(Arc::new(doc)), &[]).law.is_some()
}

/// TINY with one place changed, loaded and saved again.
fn resaved(replace: &str, by: &str) -> Option<String> {
  let doc = String::from_utf8_lossy(TINY).replace(replace, by);
  let law = exec(&Op::Parse(Arc::new(doc.into_bytes())), &[]).law?;
  let s = exec(&Op::ToXml(0), &[law]);
  s.digest.starts_with("Ok").then(|| String::from_utf8_lossy(&s.out).into_owned())
}
/// Of several sentences that introduce an amendment only one is kept.
fn amend_sentences() -> bool {
  let p = "<AmendProvision><AmendProvisionSentence><Sentence>first</Sentence><Sentence>second</Sentence></AmendProvisionSentence></AmendProvision></Paragraph>";
  resaved("</Paragraph>", p).is_some_and(|s| !s.contains("first") || !s.contains("second"))
}
/// The number of an item that is not made of digits is dropped.
fn item_number() -> bool {
  let p = "<Item Num=\"イ\"><ItemSentence><Sentence>i</Sentence></ItemSentence></Item></Paragraph>";
  resaved("</Paragraph>", p).is_some_and(|s| s.contains("<Item") && !s.contains("イ"))
}
/// Children of different kinds that alternate are written kind by kind.
fn interleaved_order() -> bool {
  let t = |x: &str| format!("<TableStruct><Table><TableRow><TableColumn><Sentence>{x}</Sentence></TableColumn></TableRow></Table></TableStruct>");
  let p = t("one") + "<Item Num=\"1\"><ItemSentence><Sentence>two</Sentence></ItemSentence></Item>" + &t("three") + "</Paragraph>";
  resaved("</Paragraph>", &p).is_some_and(|s| {
    let (a, b, c) = (s.find("one"), s.find("two"), s.find("three"));
    a.is_some() && b.is_some() && c.is_some() && !(a < b && b < c)
  })
}

/// The lines to print and record for the listed findings that still fail.
pub fn check_listed(prop: &str) -> Vec<String> {
  let path = format!("{}/known-findings.txt", crate::verif_dir());
  let mut out = Vec::new();
  for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
    let Some(rest) = l.strip_prefix(&format!("known: property={prop} witness=")) else { continue };
    let (id, what) = rest.split_once(' ').unwrap_or((rest, ""));
    match fails(id) {
      Some(true) => {
        println!("KNOWN-FINDING: property={prop} {what}");
        out.push(format!("{id}: {what}"));
      }
      Some(false) => println!("(listed finding {id} no longer fails)"),
      None => println!("(unknown witness {id})"),
    }
  }
  out
}
pub fn run_one(id: &str) -> i32 {
  println!("{id}: {:?}", fails(id));
  0
}

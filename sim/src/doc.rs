//! Document trees, their generator, their serialiser with layout variation, and
//! the canonical form two documents are compared in.
use crate::grammar::*;
use crate::shared::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Node {
  Text(String),
  Elem(Elem),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Elem {
  pub name: String,
  pub attrs: Vec<(String, String)>,
  pub kids: Vec<Node>,
}
impl Elem {
  pub fn new(n: &str) -> Elem {
    Elem { name: n.to_string(), attrs: vec![], kids: vec![] }
  }
  pub fn count(&self) -> usize {
    1 + self.kids.iter().map(|k| if let Node::Elem(e) = k { e.count() } else { 0 }).sum::<usize>()
  }
  pub fn depth(&self) -> usize {
    1 + self.kids.iter().map(|k| if let Node::Elem(e) = k { e.depth() } else { 0 }).max().unwrap_or(0)
  }
}

/// What kind of characters a run puts into texts and attribute values.
#[derive(Clone, Copy, Debug)]
pub struct CharMix {
  pub markup: bool,
  pub space: bool,
  pub astral: bool,
  pub long: bool,
  pub newline: bool,
}

pub struct Gen<'a> {
  pub g: &'a Grammar,
  pub budget: i32,
  pub maxdepth: usize,
  pub optnum: u32, // optional particles present with probability optnum/8
  pub attrnum: u32,
  pub repmax: u32,
  pub chars: CharMix,
  pub nest: u32,
  pub extra: usize, // levels used up by nesting
  pub focus: Option<(usize, usize)>, // (parent, child) edge still to be visited
}

const WORDS: [&str; 20] = [
  "法", "この法律は、", "第一条", "条約", "次の各号に掲げる", "及び", "内閣総理大臣", "の規定により", "別表第一",
  "昭和二十二年法律第六十七号", "ただし、", "公布の日", "施行する。", "ア", "（イ）", "１２", "〇", "削除", "附則", "附　則",
];
const MARKUP: [&str; 16] = [
  "<", ">", "&", "\"", "'", "&amp;", "&lt;", "]]>", "<Law>", "-->", "&#65;", "</Sentence>", "<!--", "<?x?>", "%", ";",
];
const SPACES: [&str; 6] = ["　", " ", "\u{a0}", "\u{2003}", "　　", "\u{feff}"];
const ASTRAL: [&str; 8] = ["𠮷", "𩸽", "😀", "\u{e0101}", "葛\u{e0100}", "\u{10fffd}", "é", "\u{200d}"];
/// Characters that conversions, normalisations and clean-ups are fond of.
const TRICKY: &str = "～〜－−‐―—ー‖∥￥¥￣‾｛｝（）［］【】〔〕〈〉《》「」『』・･…‥、､。｡，．：；？！／＼＾＿｀´¨゛゜ヽヾゝゞ々〆〇○◯●◎△□①②⑳ⅠⅡⅣⅴⅹ㈠㈱㊤㎡㎝㌔㍻㍾髙﨑神塚隆ｱｶﾞﾊﾟがか\u{3099}は\u{309a}ゔヰヱゐゑヶヵ〻〱０９ＡＺａｚ%＆＃＠√∴∵≦≧≠±×÷°℃′″§¶†‡↑→♪©®™ß\u{fb01}İıςΑЯ가각ก\u{ad}\u{200b}\u{200e}\u{202a}\u{2060}\u{2028}\u{85}\u{7f}\u{9f}\u{e000}\u{f8ff}\u{fffd}\u{f900}\u{fe0f}\u{1f1ef}\u{2f800}\u{1b000}\u{3400}\u{2ffb}\u{337f}";
const RANGES: [(u32, u32); 14] = [
  (0x20, 0x7e), (0xa0, 0xff), (0x2000, 0x206f), (0x2100, 0x23ff), (0x2460, 0x24ff), (0x3000, 0x303f), (0x3041, 0x30ff), (0x3200, 0x33ff),
  (0x4e00, 0x9fff), (0xf900, 0xfaff), (0xff01, 0xffef), (0xe000, 0xf8ff), (0x20000, 0x2a6df), (0x100, 0xd7ff),
];
fn tricky() -> String {
  match choose(S_DOC, 3) {
    0 => {
      let t: Vec<char> = TRICKY.chars().collect();
      t[choose(S_DOC, t.len() as u32) as usize].to_string()
    }
    1 => {
      let (a, b) = RANGES[choose(S_DOC, 14) as usize];
      char::from_u32(a + choose(S_DOC, b - a + 1)).map_or(String::new(), |c| c.to_string())
    }
    _ => ASTRAL[choose(S_DOC, 8) as usize].to_string(),
  }
}

pub fn gen_text(c: &CharMix) -> String {
  let n = 1 + choose(S_DOC, 4);
  let mut s = String::new();
  for _ in 0..n {
    match choose(S_DOC, 12) {
      7 | 8 if c.markup => s.push_str(MARKUP[choose(S_DOC, 16) as usize]),
      9 if c.space => s.push_str(SPACES[choose(S_DOC, 6) as usize]),
      10 | 5 if c.astral => s.push_str(&tricky()),
      11 if c.newline => s.push_str(if choose(S_DOC, 2) == 0 { "\n" } else { "\t" }),
      6 => s.push_str(&choose(S_DOC, 10000).to_string()),
      _ => s.push_str(WORDS[choose(S_DOC, 20) as usize]),
    }
  }
  if c.long && choose(S_DOC, 24) == 23 {
    let w = WORDS[choose(S_DOC, 20) as usize].to_string() + if c.markup { MARKUP[choose(S_DOC, 16) as usize] } else { "" };
    let k = 200 + choose(S_DOC, 3000) as usize;
    for _ in 0..k {
      s.push_str(&w);
    }
  }
  // never only layout whitespace: XML readers may drop that
  if s.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r')) {
    s.push('文');
  }
  s
}
fn gen_num(max: u32) -> String {
  match choose(S_DOC, 8) {
    7 => (choose(S_DOC, 2_000_000)).to_string(),
    6 => "0".to_string(),
    _ => (1 + choose(S_DOC, max)).to_string(),
  }
}
pub fn gen_art() -> String {
  let one = || {
    let mut s = gen_num(120);
    for _ in 0..[0, 0, 0, 0, 1, 1, 2, 3][choose(S_DOC, 8) as usize] {
      s.push('_');
      s.push_str(&gen_num(9));
    }
    s
  };
  let mut s = one();
  if choose(S_DOC, 8) == 7 {
    s.push(':');
    s.push_str(&one());
  }
  s
}

impl Gen<'_> {
  pub fn attr(&mut self, a: &Attr) -> String {
    match &a.ty {
      Ty::Art => gen_art(),
      Ty::Us => gen_num(40),
      Ty::Str => {
        if choose(S_DOC, 12) == 11 {
          return String::new();
        }
        // attribute values: a conforming reader normalises raw tabs, and the
        // emitter leaves them raw, so no tabs here (see known findings)
        gen_text(&self.chars).replace('\t', "")
      }
      Ty::Bool => (if choose(S_DOC, 2) == 0 { "true" } else { "false" }).to_string(),
      Ty::Enum(v) => v[choose(S_DOC, v.len() as u32) as usize].clone(),
    }
  }
  /// The focus edge's child; the edge stays the focus while nesting is wanted and possible.
  fn at_focus(&mut self) -> usize {
    let (p, c) = self.focus.unwrap();
    if self.nest > 0 && self.reaches(c, p) {
      self.nest -= 1;
      self.extra += self.g.dist[p][c] as usize + 3;
    } else {
      self.focus = None;
      self.nest = 0;
    }
    c
  }
  fn reaches(&self, e: usize, f: usize) -> bool {
    self.g.dist[f][e] != u8::MAX
  }
  /// Which child to take so as to come closer to the focus, if this element leads there.
  fn toward(&mut self, alts: &[usize], depth: usize) -> Option<usize> {
    let (fp, _) = self.focus?;
    let limit = self.maxdepth + 6 + self.extra;
    let room = limit - depth.min(limit);
    let ok: Vec<usize> = alts.iter().copied().filter(|a| self.reaches(*a, fp) && (self.g.dist[fp][*a] as usize) < room.max(1)).collect();
    if ok.is_empty() {
      return None;
    }
    if choose(S_DOC, 4) == 3 {
      return Some(ok[choose(S_DOC, ok.len() as u32) as usize]);
    }
    let m = ok.iter().map(|a| self.g.dist[fp][*a]).min().unwrap();
    let best: Vec<usize> = ok.into_iter().filter(|a| self.g.dist[fp][*a] == m).collect();
    Some(best[choose(S_DOC, best.len() as u32) as usize])
  }
  pub fn elem(&mut self, id: usize, depth: usize) -> Elem {
    self.budget -= 1;
    let g = self.g;
    let sp = &g.specs[id];
    let mut e = Elem::new(&sp.name);
    let at_focus = self.focus.is_some_and(|f| f.0 == id);
    let rich = at_focus;
    for a in &sp.attrs {
      let p = if rich { 4 } else { self.attrnum };
      if a.required || chance(S_DOC, p, 8) {
        let v = self.attr(a);
        e.attrs.push((a.name.clone(), v));
      }
    }
    let tight = self.budget <= 0 || depth >= self.maxdepth;
    match &sp.content {
      Content::Empty => {}
      Content::PlainText => {
        if choose(S_DOC, 16) != 15 {
          e.kids.push(Node::Text(gen_text(&self.chars)));
        }
      }
      Content::Mixed(alts) => {
        if sp.name == "Ruby" {
          if choose(S_DOC, 8) != 7 {
            e.kids.push(Node::Text(gen_text(&self.chars)));
          }
          let rt = self.elem(alts[0], depth + 1);
          e.kids.push(Node::Elem(rt));
          return e;
        }
        let target = if at_focus { Some(self.at_focus()) } else { self.toward(alts, depth) };
        let n = if tight { choose(S_DOC, 2) } else { choose(S_DOC, 2 + self.repmax) };
        let mut want = target;
        let slot = if n > 0 { choose(S_DOC, n + 1) } else { 0 };
        let mut last_text = false;
        for i in 0..=n {
          if i == slot {
            if let Some(t) = want.take() {
              let c = self.elem(t, depth + 1);
              e.kids.push(Node::Elem(c));
              last_text = false;
            }
          }
          if i == n {
            break;
          }
          // mostly text, sometimes an inline element
          if tight || last_text || choose(S_DOC, 4) < 3 {
            if !last_text {
              e.kids.push(Node::Text(gen_text(&self.chars)));
              last_text = true;
            } else if !tight {
              let k = alts[choose(S_DOC, alts.len() as u32) as usize];
              let c = self.elem(k, depth + 1);
              e.kids.push(Node::Elem(c));
              last_text = false;
            }
          } else {
            let k = alts[choose(S_DOC, alts.len() as u32) as usize];
            let c = self.elem(k, depth + 1);
            e.kids.push(Node::Elem(c));
            last_text = false;
          }
        }
      }
      Content::Seq(seqs) => {
        // the sequence: the one leading to the focus, else any
        let focus_child = if at_focus { Some(self.at_focus()) } else { None };
        let all: Vec<usize> = seqs.iter().flatten().flat_map(|p| p.alts.clone()).collect();
        let mut target = match focus_child {
          Some(c) => Some(c),
          None => self.toward(&all, depth),
        };
        let si = match target {
          Some(t) => {
            let ok: Vec<usize> = (0..seqs.len()).filter(|i| seqs[*i].iter().any(|p| p.alts.contains(&t))).collect();
            ok[choose(S_DOC, ok.len() as u32) as usize]
          }
          None if seqs.len() > 1 && tight => 0,
          None => {
            if choose(S_DOC, 4) == 3 {
              choose(S_DOC, seqs.len() as u32) as usize
            } else {
              0
            }
          }
        };
        let seq = &seqs[si];
        // the same child may appear in two particles (Remarks before and after)
        let slots: Vec<usize> = match target {
          Some(t) => (0..seq.len()).filter(|i| seq[*i].alts.contains(&t)).collect(),
          None => vec![],
        };
        let slot = if slots.is_empty() { usize::MAX } else { slots[choose(S_DOC, slots.len() as u32) as usize] };
        for (pi, p) in seq.iter().enumerate() {
          let op = if rich { 4 } else { self.optnum };
          let mut n = match p.rep {
            Rep::One => 1,
            Rep::Opt => (!tight && chance(S_DOC, op, 8)) as u32,
            Rep::Star | Rep::Plus => {
              let lo = (p.rep == Rep::Plus) as u32;
              if tight {
                lo
              } else if !chance(S_DOC, (op + 2).min(7), 8) {
                lo
              } else {
                lo + choose(S_DOC, self.repmax + 1)
              }
            }
          };
          let must = if pi == slot { target.take() } else { None };
          if must.is_some() && n == 0 {
            n = 1;
          }
          let at = if must.is_some() { choose(S_DOC, n) } else { u32::MAX };
          for k in 0..n {
            let c = if k == at {
              must.unwrap()
            } else if p.alts.len() == 1 {
              p.alts[0]
            } else if choose(S_DOC, 3) == 0 {
              p.alts[0]
            } else {
              p.alts[choose(S_DOC, p.alts.len() as u32) as usize]
            };
            if self.budget < -200 && p.rep != Rep::One && k != at && (p.rep != Rep::Plus || k > 0) {
              continue;
            }
            let c = self.elem(c, depth + 1);
            e.kids.push(Node::Elem(c));
          }
        }
        // schema detail: a supplementary provision label must not be empty
        if sp.name == "SupplProvision" {
          if let Some(Node::Elem(l)) = e.kids.first_mut() {
            if l.kids.is_empty() {
              l.kids.push(Node::Text("附則".into()));
            }
          }
        }
      }
    }
    e
  }
}

#[derive(Clone, Debug)]
pub struct DocCfg {
  pub budget: i32,
  pub maxdepth: usize,
  pub optnum: u32,
  pub attrnum: u32,
  pub repmax: u32,
  pub chars: CharMix,
  pub focus: bool,
  /// how often the focus edge is taken again inside itself
  pub nest: u32,
}
/// Draws this run's document shape (swarm style).
pub fn gen_cfg() -> DocCfg {
  DocCfg {
    budget: [12, 30, 60, 120, 250][choose(S_CFG, 5) as usize],
    maxdepth: 6 + choose(S_CFG, 9) as usize,
    optnum: 1 + choose(S_CFG, 6),
    attrnum: 1 + choose(S_CFG, 6),
    repmax: 1 + choose(S_CFG, 4),
    chars: CharMix {
      markup: choose(S_CFG, 3) == 2,
      space: choose(S_CFG, 2) == 1,
      astral: choose(S_CFG, 3) == 2,
      long: choose(S_CFG, 6) == 5,
      newline: choose(S_CFG, 4) == 3,
    },
    focus: choose(S_CFG, 8) != 0,
    nest: [0, 0, 0, 0, 0, 1, 3, 12][choose(S_CFG, 8) as usize],
  }
}
pub fn gen_doc(g: &Grammar, c: &DocCfg) -> Elem {
  let focus = if c.focus { Some(g.edges[choose(S_DOC, g.edges.len() as u32) as usize]) } else { None };
  let mut gen = Gen {
    g,
    budget: c.budget,
    maxdepth: c.maxdepth,
    optnum: c.optnum,
    attrnum: c.attrnum,
    repmax: c.repmax,
    chars: c.chars,
    focus,
    nest: c.nest,
    extra: 0,
  };
  let e = gen.elem(g.id("Law"), 0);
  count_n(C::DocElems, e.count() as u64);
  e
}

// ------------------------------------------------------------- serialisation
pub fn escape_text(s: &str, vary: bool, out: &mut String) {
  // CDATA sections for a whole text
  if vary && choose(S_DOC, 40) == 39 && !s.contains("]]>") && !s.contains('\r') {
    out.push_str("<![CDATA[");
    out.push_str(s);
    out.push_str("]]>");
    return;
  }
  for c in s.chars() {
    match c {
      '<' => out.push_str("&lt;"),
      '>' => out.push_str("&gt;"),
      '&' => out.push_str("&amp;"),
      '\r' => out.push_str("&#13;"),
      _ => {
        if vary && choose(S_DOC, 200) == 199 {
          if choose(S_DOC, 2) == 0 {
            out.push_str(&format!("&#{};", c as u32));
          } else {
            out.push_str(&format!("&#x{:X};", c as u32));
          }
        } else {
          out.push(c);
        }
      }
    }
  }
}
pub fn escape_attr(s: &str, q: char, out: &mut String) {
  for c in s.chars() {
    match c {
      '<' => out.push_str("&lt;"),
      '>' => out.push_str("&gt;"),
      '&' => out.push_str("&amp;"),
      '\n' => out.push_str("&#10;"),
      '\t' => out.push_str("&#9;"),
      '\r' => out.push_str("&#13;"),
      '"' if q == '"' => out.push_str("&quot;"),
      '\'' if q == '\'' => out.push_str("&apos;"),
      _ => out.push(c),
    }
  }
}
pub fn is_element_only(g: &Grammar, name: &str) -> bool {
  matches!(g.spec(name).map(|s| &s.content), Some(Content::Seq(_)) | Some(Content::Empty))
}
#[derive(Clone, Copy, Debug)]
pub struct Layout {
  pub decl: u32,
  pub indent: u32, // 0 none, 1 newline+spaces, 2 newline+tab, 3 CRLF
  pub vary: bool,
  pub quote: u32, // 0 double, 1 single, 2 mixed
  pub shuffle: bool,
  pub comments: bool,
  pub lead: u32,
}
pub fn gen_layout(comments: bool) -> Layout {
  Layout {
    decl: choose(S_CFG, 4),
    indent: choose(S_CFG, 4),
    vary: choose(S_CFG, 2) == 1,
    quote: choose(S_CFG, 3),
    shuffle: choose(S_CFG, 2) == 1,
    comments: comments && choose(S_CFG, 4) == 3,
    lead: choose(S_CFG, 4),
  }
}
pub fn plain_layout() -> Layout {
  Layout { decl: 1, indent: 1, vary: false, quote: 0, shuffle: false, comments: false, lead: 0 }
}
fn nl(l: &Layout, depth: usize, out: &mut String) {
  match l.indent {
    0 => {}
    1 => {
      out.push('\n');
      for _ in 0..depth {
        out.push_str("  ");
      }
    }
    2 => {
      out.push('\n');
      for _ in 0..depth {
        out.push('\t');
      }
    }
    _ => {
      out.push_str("\r\n");
      for _ in 0..depth {
        out.push(' ');
      }
    }
  }
}
fn comment(out: &mut String) {
  count(C::CommentIns);
  out.push_str(["<!-- 注 -->", "<!---->", "<!--<Law>&-->", "<!-- - -->"][choose(S_DOC, 4) as usize]);
}
fn ser(g: &Grammar, e: &Elem, l: &Layout, depth: usize, out: &mut String) {
  out.push('<');
  out.push_str(&e.name);
  let mut order: Vec<usize> = (0..e.attrs.len()).collect();
  if l.shuffle {
    for i in (1..order.len()).rev() {
      let j = i - choose(S_DOC, i as u32 + 1) as usize;
      order.swap(i, j);
    }
  }
  for i in order {
    let (n, v) = &e.attrs[i];
    let q = match l.quote {
      0 => '"',
      1 => '\'',
      _ => {
        if choose(S_DOC, 2) == 0 {
          '"'
        } else {
          '\''
        }
      }
    };
    if l.vary && choose(S_DOC, 50) == 49 {
      out.push_str("\n  ");
    } else {
      out.push(' ');
    }
    out.push_str(n);
    if l.vary && choose(S_DOC, 50) == 49 {
      out.push_str(" = ");
    } else {
      out.push('=');
    }
    out.push(q);
    escape_attr(v, q, out);
    out.push(q);
  }
  if e.kids.is_empty() && !(l.comments && chance(S_DOC, 1, 16)) {
    if l.vary && choose(S_DOC, 3) == 2 {
      out.push_str("></");
      out.push_str(&e.name);
      out.push('>');
    } else {
      out.push_str(if l.vary && choose(S_DOC, 3) == 2 { " />" } else { "/>" });
    }
    return;
  }
  out.push('>');
  let only = is_element_only(g, &e.name) && !e.kids.iter().any(|k| matches!(k, Node::Text(_)));
  if e.kids.is_empty() {
    comment(out);
  }
  for k in &e.kids {
    if only {
      nl(l, depth + 1, out);
    }
    if l.comments && choose(S_DOC, 24) == 23 {
      comment(out);
      if only {
        nl(l, depth + 1, out);
      }
    }
    match k {
      Node::Text(t) => {
        if l.comments && choose(S_DOC, 24) == 23 && t.chars().count() >= 2 {
          // a comment in the middle of a text, both halves non-blank
          let m = t.char_indices().nth(t.chars().count() / 2).unwrap().0;
          if !blank(&t[..m]) && !blank(&t[m..]) {
            escape_text(&t[..m], l.vary, out);
            comment(out);
            escape_text(&t[m..], l.vary, out);
            continue;
          }
        }
        escape_text(t, l.vary, out)
      }
      Node::Elem(c) => ser(g, c, l, depth + 1, out),
    }
  }
  if l.comments && choose(S_DOC, 24) == 23 {
    comment(out);
  }
  if only {
    nl(l, depth, out);
  }
  out.push_str("</");
  out.push_str(&e.name);
  out.push_str(if l.vary && choose(S_DOC, 50) == 49 { " >" } else { ">" });
}
pub fn blank(s: &str) -> bool {
  s.bytes().all(|c| matches!(c, b' ' | b'\t' | b'\n' | b'\r'))
}
pub fn serialize(g: &Grammar, e: &Elem, l: &Layout) -> Vec<u8> {
  let mut s = String::new();
  match l.decl {
    0 => {}
    1 => s.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"),
    2 => s.push_str("<?xml version='1.0' encoding='utf-8' standalone='yes' ?>\n"),
    _ => s.push_str("<?xml version=\"1.0\"?>\r\n"),
  }
  if l.comments && choose(S_DOC, 4) == 3 {
    comment(&mut s);
  }
  ser(g, e, l, 0, &mut s);
  match l.lead {
    1 => s.push('\n'),
    2 => s.push_str("\r\n \n"),
    3 if l.comments => comment(&mut s),
    _ => {}
  }
  count_n(C::DocBytes, s.len() as u64);
  s.into_bytes()
}

// ------------------------------------------------------------- canonical form
/// Drops layout whitespace, attributes equal to their schema default and empty
/// branch numbers; merges adjacent texts; groups neighbouring new provisions.
pub fn canon(g: &Grammar, e: &Elem) -> Elem {
  let sp = g.spec(&e.name);
  let mut attrs: Vec<(String, String)> = Vec::new();
  for (n, v) in &e.attrs {
    let a = sp.and_then(|s| s.attrs.iter().find(|a| a.name == *n));
    if let Some(a) = a {
      if a.default.as_deref() == Some(v) {
        continue;
      }
    }
    if e.name == "Law" && n == "Num" && v.is_empty() {
      continue;
    }
    attrs.push((n.clone(), v.clone()));
  }
  attrs.sort();
  let mut merged: Vec<Node> = Vec::new();
  for k in &e.kids {
    match k {
      Node::Text(t) => {
        if let Some(Node::Text(p)) = merged.last_mut() {
          p.push_str(t);
        } else {
          merged.push(Node::Text(t.clone()));
        }
      }
      Node::Elem(c) => merged.push(Node::Elem(canon(g, c))),
    }
  }
  let mut kids: Vec<Node> = Vec::new();
  for k in merged {
    match k {
      Node::Text(t) if blank(&t) => {}
      Node::Elem(c) if c.name == "NewProvision" => {
        if c.kids.is_empty() {
          continue;
        }
        match kids.last_mut() {
          Some(Node::Elem(p)) if p.name == "NewProvision" => p.kids.extend(c.kids),
          _ => kids.push(Node::Elem(c)),
        }
      }
      k => kids.push(k),
    }
  }
  Elem { name: e.name.clone(), attrs, kids }
}
pub fn canon_hash(e: &Elem) -> u64 {
  let mut s = String::new();
  show(e, &mut s);
  hash_bytes(s.as_bytes())
}
pub fn show(e: &Elem, out: &mut String) {
  out.push('<');
  out.push_str(&e.name);
  for (n, v) in &e.attrs {
    out.push_str(&format!(" {n}={v:?}"));
  }
  out.push('>');
  for k in &e.kids {
    match k {
      Node::Text(t) => out.push_str(&format!("{t:?}")),
      Node::Elem(c) => show(c, out),
    }
  }
  out.push_str("</>");
}
fn clip(s: &str) -> String {
  let mut t: String = s.chars().take(160).collect();
  if t.len() < s.len() {
    t.push('…');
  }
  t
}
fn brief(n: Option<&Node>) -> String {
  match n {
    None => "nothing".into(),
    Some(Node::Text(t)) => format!("text {:?}", clip(t)),
    Some(Node::Elem(e)) => {
      let mut s = String::new();
      show(e, &mut s);
      clip(&s)
    }
  }
}
/// First difference between two canonical trees.
pub fn diff(a: &Elem, b: &Elem, path: &str) -> Option<String> {
  let here = format!("{path}/{}", a.name);
  if a.name != b.name {
    return Some(format!("at {path}: element {} became {}", a.name, b.name));
  }
  if a.attrs != b.attrs {
    for (n, v) in &a.attrs {
      match b.attrs.iter().find(|x| x.0 == *n) {
        None => return Some(format!("at {here}: attribute {n}={v:?} lost")),
        Some(x) if x.1 != *v => return Some(format!("at {here}: attribute {n}={v:?} became {:?}", x.1)),
        _ => {}
      }
    }
    for (n, v) in &b.attrs {
      if !a.attrs.iter().any(|x| x.0 == *n) {
        return Some(format!("at {here}: attribute {n}={v:?} appeared"));
      }
    }
    return Some(format!("at {here}: duplicate attributes"));
  }
  for i in 0..a.kids.len().max(b.kids.len()) {
    let (x, y) = (a.kids.get(i), b.kids.get(i));
    match (x, y) {
      (Some(Node::Elem(p)), Some(Node::Elem(q))) if p.name == q.name => {
        if let Some(d) = diff(p, q, &here) {
          return Some(d);
        }
      }
      (Some(Node::Text(p)), Some(Node::Text(q))) => {
        if p != q {
          return Some(format!("at {here}: text {:?} became {:?}", clip(p), clip(q)));
        }
      }
      _ => return Some(format!("at {here} child {i}: {} became {}", brief(x), brief(y))),
    }
  }
  None
}

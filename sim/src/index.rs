//! C31: the lists, tables of contents and texts a user rebuilds from stored laws.
//! C33: the era of a law parsed from text.
//! The reference of both never asks the library: it walks the stored document, and
//! counts days by itself.
use crate::doc::*;
use crate::ops::*;
use crate::scen::*;
use crate::shared::*;
use crate::sys::*;
use lib::paragraph::Paragraph;
use lib::utils::*;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

// ------------------------------------------------- what a document's index must be
/// The text of one paragraph, item or subitem, and where it is.
#[derive(Clone, Debug, PartialEq)]
struct Place {
  para: String,
  items: Vec<Option<String>>,
  text: String,
  /// columns and tables: which characters lie between cells is not laid down
  loose: bool,
}
#[derive(Clone, Debug, PartialEq)]
struct Entry {
  /// part, chapter, section, subsection, division
  units: [Option<String>; 5],
  article: Option<String>,
  title: String,
  texts: Vec<Place>,
}
#[derive(Default, Debug)]
struct Index {
  articles: Vec<Entry>,
  toc: Vec<Entry>,
  groups: Vec<Vec<Place>>,
}
const UNITS: [&str; 5] = ["Part", "Chapter", "Section", "Subsection", "Division"];

fn num(e: &Elem) -> Option<String> {
  e.attrs.iter().find(|a| a.0 == "Num").map(|a| a.1.clone())
}
fn kids(e: &Elem) -> impl Iterator<Item = &Elem> {
  e.kids.iter().filter_map(|k| if let Node::Elem(c) = k { Some(c) } else { None })
}
fn kid<'a>(e: &'a Elem, name: &str) -> Option<&'a Elem> {
  kids(e).find(|c| c.name == name)
}
fn own_text(e: &Elem) -> String {
  e.kids.iter().map(|k| if let Node::Text(t) = k { t.as_str() } else { "" }).collect()
}
/// A title: its letters, of a ruby the base, nothing of a line.
fn plain(e: &Elem) -> String {
  e.kids
    .iter()
    .map(|k| match k {
      Node::Text(t) => t.clone(),
      Node::Elem(c) if matches!(c.name.as_str(), "Ruby" | "Sup" | "Sub") => own_text(c),
      _ => String::new(),
    })
    .collect()
}
/// A sentence: as a title, with raised and lowered letters marked, and what formulas
/// and quotations directly say.
fn marked(e: &Elem, formulas: bool) -> String {
  e.kids
    .iter()
    .map(|k| match k {
      Node::Text(t) => t.clone(),
      Node::Elem(c) => match c.name.as_str() {
        "Ruby" => own_text(c),
        "Sub" => format!("_{{{}}}", own_text(c)),
        "Sup" => format!("^{{{}}}", own_text(c)),
        "ArithFormula" | "QuoteStruct" if formulas => marked(c, false),
        _ => String::new(),
      },
    })
    .collect()
}
fn sentences(e: &Elem) -> String {
  kids(e).filter(|c| c.name == "Sentence").map(|c| marked(c, true)).collect()
}
fn table(t: &Elem) -> String {
  let mut s = String::new();
  for row in kids(t) {
    for c in kids(row) {
      if c.name == "TableHeaderColumn" {
        s.push_str(&plain(c));
        continue;
      }
      for k in &c.kids {
        match k {
          Node::Text(t) => s.push_str(t),
          Node::Elem(x) if x.name == "Sentence" => s.push_str(&marked(x, true)),
          Node::Elem(x) if x.name == "Column" => s.push_str(&sentences(x)),
          _ => {}
        }
      }
    }
  }
  s
}
fn item_places(e: &Elem, para: &str, above: &[Option<String>], out: &mut Vec<Place>) {
  for i in kids(e) {
    let (n, next) = (i.name.as_str(), i.name.starts_with("Subitem"));
    if n != "Item" && !(next && n[7..].parse::<u32>().is_ok()) {
      continue;
    }
    let mut items = above.to_vec();
    items.push(num(i));
    let s = kid(i, &format!("{n}Sentence"));
    let loose = s.is_some_and(|s| kids(s).any(|c| c.name != "Sentence"));
    let text = s
      .map(|s| kids(s).map(|c| match c.name.as_str() {
        "Sentence" => marked(c, true),
        "Column" => sentences(c),
        _ => table(c),
      }).collect::<String>())
      .unwrap_or_default();
    out.push(Place { para: para.to_string(), items: items.clone(), text, loose });
    item_places(i, para, &items, out);
  }
}
fn para_places(p: &Elem, out: &mut Vec<Place>) {
  let n = num(p).unwrap_or_default();
  let text = kid(p, "ParagraphSentence").map(sentences).unwrap_or_default();
  out.push(Place { para: n.clone(), items: vec![], text, loose: false });
  item_places(p, &n, &[], out);
}
fn walk(e: &Elem, units: &[Option<String>; 5], top: bool, ix: &mut Index, run: &mut Vec<Place>) {
  for c in kids(e) {
    let title = kid(c, &format!("{}Title", c.name)).map(plain).unwrap_or_default();
    if let Some(u) = UNITS.iter().position(|u| *u == c.name) {
      if !run.is_empty() {
        ix.groups.push(std::mem::take(run));
      }
      let mut units = units.clone();
      units[u] = num(c);
      ix.toc.push(Entry { units: units.clone(), article: None, title, texts: vec![] });
      walk(c, &units, false, ix, run);
    } else if c.name == "Article" {
      if !run.is_empty() {
        ix.groups.push(std::mem::take(run));
      }
      let mut texts = Vec::new();
      kids(c).filter(|k| k.name == "Paragraph").for_each(|p| para_places(p, &mut texts));
      let mut n = Entry { units: units.clone(), article: num(c), title, texts };
      ix.articles.push(n.clone());
      n.texts.clear();
      ix.toc.push(n);
    } else if top && c.name == "Paragraph" {
      para_places(c, run);
    }
  }
}
fn index_of(provision: &Elem) -> Index {
  let mut ix = Index::default();
  let mut run = Vec::new();
  walk(provision, &Default::default(), true, &mut ix, &mut run);
  if !run.is_empty() {
    ix.groups.push(run);
  }
  ix
}
fn parts_of(doc: &Elem) -> (Option<Elem>, Option<Elem>, Vec<Elem>) {
  let d = canon(grammar(), doc);
  let Some(b) = kid(&d, "LawBody") else { return Default::default() };
  (kid(b, "Preamble").cloned(), kid(b, "MainProvision").cloned(), kids(b).filter(|c| c.name == "SupplProvision").cloned().collect())
}

// --------------------------------------------------------- what the library reports
fn ns(n: &lib::article_number::ArticleNumber) -> String {
  n.num_str()
}
fn places(v: &[(TextIndex, String)], want: &[Place]) -> Vec<Place> {
  v.iter()
    .enumerate()
    .map(|(i, (x, t))| Place {
      para: ns(&x.paragraph),
      items: x.items.iter().map(|n| n.as_ref().map(ns)).collect(),
      text: t.clone(),
      loose: want.get(i).is_some_and(|p| p.loose),
    })
    .collect()
}
fn squeeze(s: &str) -> String {
  s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn firm(p: &Place) -> Place {
  let mut p = p.clone();
  if p.loose {
    p.text = squeeze(&p.text);
  }
  p
}
fn differ<T: std::fmt::Debug + PartialEq>(class: &str, when: &str, what: &str, got: &[T], want: &[T]) {
  count(C::Compared);
  let n = got.len().max(want.len());
  if let Some(i) = (0..n).find(|i| got.get(*i) != want.get(*i)) {
    violate(class, &format!("{when}: {what}, entry {i} of {}: {:?}, the document has {:?}", got.len(), got.get(i), want.get(i)));
  }
}
fn asked<R>(what: &str, when: &str, f: impl FnOnce() -> R) -> R {
  match lib_call(what, f) {
    Called::Returned(r) => r,
    Called::Panicked(m) => violate("panic", &format!("{when}: {what} panicked: {m}")),
  }
}
fn texts(when: &str, what: &str, list: &[Paragraph], want: &[Place]) {
  let got = asked("text_info_list_from_paragraph", when, || text_info_list_from_paragraph(list));
  let got = places(&got, want);
  state(hash_bytes(format!("{got:?}").as_bytes()));
  differ("texts", when, &format!("texts of {what}"), &got.iter().map(firm).collect::<Vec<_>>(), &want.iter().map(firm).collect::<Vec<_>>());
  let all = squeeze(&asked("text_from_paragraph_list", when, || text_from_paragraph_list(list)));
  let sum: String = want.iter().map(|p| squeeze(&p.text)).collect();
  count(C::Compared);
  if all != sum {
    violate("texts", &format!("{when}: the text of {what} as a whole is {all:?}, the document says {sum:?}"));
  }
}
type Listing = (Vec<WithNumberArticle>, Vec<Vec<Paragraph>>);
fn listed(when: &str, what: &str, (w, groups): &Listing, (a, groups2): (Vec<lib::article::Article>, Vec<Vec<Paragraph>>), toc: &[Toc], held: Vec<&lib::article::Article>, want: &Index) {
  let got: Vec<Entry> = w
    .iter()
    .zip(want.articles.iter().map(|e| e.texts.clone()).chain(std::iter::repeat(vec![])))
    .map(|(w, texts)| Entry {
      units: [w.get_part(), w.get_chapter(), w.get_section(), w.get_subsection(), w.get_division()].map(|n| n.as_ref().map(ns)),
      article: Some(ns(&w.get_article().num)),
      title: w.get_article().title.to_string(),
      texts,
    })
    .collect();
  state(hash_bytes(format!("{got:?}").as_bytes()));
  differ("articles", when, &format!("articles of {what}"), &got, &want.articles);
  // the listed articles are the law's own, whole
  for (i, x) in held.iter().enumerate() {
    if w[i].get_article() != **x || a.get(i) != Some(*x) {
      violate("articles", &format!("{when}: article {i} of {what} in the list is not the law's article: {:?}", clip(&format!("{:?} / {:?}", a.get(i), x), 1500)));
    }
  }
  if a.len() != held.len() || w.len() != held.len() || groups2 != *groups {
    violate("articles", &format!("{when}: {what}: the plain list has {} articles, the numbered one {}, the law {}", a.len(), w.len(), held.len()));
  }
  let got: Vec<Entry> = toc
    .iter()
    .map(|t| Entry {
      units: [t.get_part(), t.get_chapter(), t.get_section(), t.get_subsection(), t.get_division()].map(|n| n.as_ref().map(ns)),
      article: t.get_article().as_ref().map(ns),
      title: t.get_title().unwrap_or_default(),
      texts: vec![],
    })
    .collect();
  differ("contents", when, &format!("table of contents of {what}"), &got, &want.toc);
  for (i, w) in w.iter().enumerate() {
    let a = w.get_article();
    texts(when, &format!("article {i} of {what}"), &a.paragraph, &want.articles[i].texts);
    let whole = squeeze(&asked("text_from_article", when, || text_from_article(&a)));
    let sum: String = want.articles[i].texts.iter().map(|p| squeeze(&p.text)).collect();
    count(C::Compared);
    if whole != sum {
      violate("texts", &format!("{when}: the text of article {i} of {what} is {whole:?}, the document says {sum:?}"));
    }
  }
  let groups: Vec<&Vec<Paragraph>> = groups.iter().filter(|g| !g.is_empty()).collect();
  count(C::Compared);
  if groups.len() != want.groups.len() {
    violate("paragraphs", &format!("{when}: {what} has {} runs of paragraphs outside articles, listed are {}", want.groups.len(), groups.len()));
  }
  for (i, g) in groups.iter().enumerate() {
    texts(when, &format!("run {i} of paragraphs of {what}"), g, &want.groups[i]);
  }
}
/// The articles a law holds, by a walk of its own over the public structures.
fn held_chapter<'a>(c: &'a lib::article::Chapter, v: &mut Vec<&'a lib::article::Article>) {
  use lib::article::*;
  for k in &c.children {
    match k {
      ChapterContents::Article(a) => v.push(a),
      ChapterContents::Section(s) => held_section(s, v),
    }
  }
}
fn held_section<'a>(s: &'a lib::article::Section, v: &mut Vec<&'a lib::article::Article>) {
  use lib::article::*;
  for k in &s.children {
    match k {
      SectionContents::Article(a) => v.push(a),
      SectionContents::Division(d) => v.extend(&d.children),
      SectionContents::Subsection(s) => {
        for k in &s.children {
          match k {
            SubsectionContents::Article(a) => v.push(a),
            SubsectionContents::Division(d) => v.extend(&d.children),
          }
        }
      }
    }
  }
}
/// Everything the helpers say about `law` against the document `doc` it is stored as.
pub fn check_index(law: &Law, doc: &Elem, when: &str) {
  use lib::article::*;
  use lib::law::MainProvisionContents as M;
  use lib::suppl_provision::SupplProvisionChildrenElement as S;
  let (pre, main, suppl) = parts_of(doc);
  if let (Some(e), Some(p)) = (&pre, &law.law_body.preamble) {
    let mut want = Vec::new();
    kids(e).filter(|k| k.name == "Paragraph").for_each(|k| para_places(k, &mut want));
    texts(when, "the preamble", &p.children, &want);
  }
  if let Some(m) = &main {
    let p = &law.law_body.main_provision;
    let mut held = Vec::new();
    for c in &p.children {
      match c {
        M::Article(a) => held.push(a),
        M::Chapter(c) => held_chapter(c, &mut held),
        M::Section(s) => held_section(s, &mut held),
        M::Part(p) => {
          for k in &p.children {
            match k {
              PartContents::Article(a) => held.push(a),
              PartContents::Chapter(c) => held_chapter(c, &mut held),
            }
          }
        }
        M::Paragraph(_) => {}
      }
    }
    let w = asked("with_number_article_list_from_main_provision", when, || with_number_article_list_from_main_provision(p));
    let a = asked("article_list_from_main_provision", when, || article_list_from_main_provision(p));
    let t = asked("toc_list_from_main_provision", when, || toc_list_from_main_provision(p));
    listed(when, "the main provision", &w, a, &t, held, &index_of(m));
  }
  for (i, (e, p)) in suppl.iter().zip(&law.law_body.suppl_provision).enumerate() {
    let mut held = Vec::new();
    for c in &p.children {
      match c {
        S::Article(a) => held.push(a),
        S::Chapter(c) => held_chapter(c, &mut held),
        _ => {}
      }
    }
    let w = asked("with_number_article_list_from_suppl_provision", when, || with_number_article_list_from_suppl_provision(p));
    let a = asked("article_list_from_suppl_provision", when, || article_list_from_suppl_provision(p));
    let t = asked("toc_list_from_suppl_provision", when, || toc_list_from_suppl_provision(p));
    listed(when, &format!("supplementary provision {i}"), &w, a, &t, held, &index_of(e));
  }
}

// ----------------------------------------------------- documents with much structure
fn small(g: &'static crate::grammar::Grammar, cfg: &DocCfg, name: &str) -> Elem {
  let mut gen = Gen { g, budget: [4, 10, 24][choose(S_DOC, 3) as usize], maxdepth: 5, optnum: cfg.optnum, attrnum: cfg.attrnum, repmax: cfg.repmax, chars: cfg.chars, focus: None, nest: 0, extra: 0 };
  gen.elem(g.id(name), 0)
}
fn number(e: &mut Elem, always: bool) {
  e.attrs.retain(|a| a.0 != "Num");
  if always || choose(S_DOC, 6) != 5 {
    e.attrs.push(("Num".into(), gen_art()));
  }
}
fn gen_item(g: &'static crate::grammar::Grammar, cfg: &DocCfg, level: usize, left: &mut i32) -> Elem {
  let n = if level == 0 { "Item".to_string() } else { format!("Subitem{level}") };
  let mut e = Elem::new(&n);
  number(&mut e, false);
  if choose(S_DOC, 3) == 2 {
    e.kids.push(Node::Elem(small(g, cfg, &format!("{n}Title"))));
  }
  e.kids.push(Node::Elem(small(g, cfg, &format!("{n}Sentence"))));
  *left -= 1;
  if level < 10 {
    let k = if *left <= 0 { 0 } else { [0, 1, 1, 2, 3][choose(S_DOC, 5) as usize] };
    for _ in 0..k {
      e.kids.push(Node::Elem(gen_item(g, cfg, level + 1, left)));
    }
  }
  e
}
fn gen_para(g: &'static crate::grammar::Grammar, cfg: &DocCfg) -> Elem {
  let mut p = small(g, cfg, "Paragraph");
  number(&mut p, true);
  let mut left = [0, 2, 6, 14][choose(S_DOC, 4) as usize];
  while left > 0 {
    p.kids.push(Node::Elem(gen_item(g, cfg, 0, &mut left)));
  }
  p
}
fn gen_unit(g: &'static crate::grammar::Grammar, cfg: &DocCfg, name: &str, left: &mut i32) -> Elem {
  *left -= 1;
  if name == "Paragraph" {
    return gen_para(g, cfg);
  }
  let mut e = Elem::new(name);
  number(&mut e, true);
  if name == "Article" && choose(S_DOC, 3) == 2 {
    e.kids.push(Node::Elem(small(g, cfg, "ArticleCaption")));
  }
  e.kids.push(Node::Elem(small(g, cfg, &format!("{name}Title"))));
  let inside: &[&str] = match name {
    "Part" => &["Article", "Chapter"],
    "Chapter" => &["Article", "Section"],
    "Section" => &["Article", "Subsection", "Division"],
    "Subsection" => &["Article", "Division"],
    "Division" => &["Article"],
    _ => &["Paragraph"],
  };
  fill(g, cfg, &mut e, inside, left);
  e
}
fn fill(g: &'static crate::grammar::Grammar, cfg: &DocCfg, e: &mut Elem, inside: &[&str], left: &mut i32) {
  for _ in 0..[0, 1, 1, 2, 3, 4][choose(S_DOC, 6) as usize] {
    if *left <= 0 {
      break;
    }
    let n = inside[choose(S_DOC, inside.len() as u32) as usize];
    e.kids.push(Node::Elem(gen_unit(g, cfg, n, left)));
  }
}
/// A document like any other, its provisions replaced by deeply divided ones.
fn gen_indexed(cfg: &DocCfg) -> Elem {
  let g = grammar();
  let mut d = gen_doc(g, cfg);
  if choose(S_DOC, 5) == 4 {
    return d;
  }
  let mut left = [6, 14, 30][choose(S_DOC, 3) as usize];
  let Some(Node::Elem(body)) = d.kids.iter_mut().find(|k| matches!(k, Node::Elem(e) if e.name == "LawBody")) else { return d };
  for k in &mut body.kids {
    let Node::Elem(c) = k else { continue };
    match c.name.as_str() {
      "MainProvision" => {
        c.kids.clear();
        for _ in 0..1 + choose(S_DOC, 4) {
          fill(g, cfg, c, &["Article", "Part", "Chapter", "Section", "Paragraph"], &mut left);
          left += 2;
        }
      }
      "SupplProvision" => {
        let mut l = 6;
        c.kids.truncate(1);
        fill(g, cfg, c, &["Article", "Chapter", "Paragraph"], &mut l);
        if choose(S_DOC, 2) == 1 {
          fill(g, cfg, c, &["Article", "Chapter", "Paragraph"], &mut l);
        }
      }
      _ => {}
    }
  }
  d
}

// ------------------------------------------------------------------------ C31
struct Shelf {
  disk: Option<Vec<u8>>,
}
fn shelve(v: &[Shelf]) {
  let mut b = Vec::new();
  for s in v {
    put(&mut b, &[s.disk.is_some() as u8]);
    put(&mut b, s.disk.as_deref().unwrap_or(b""));
  }
  blob_put(&b);
}
fn unshelve() -> Vec<Shelf> {
  let v = blob_get();
  let (mut p, mut out) = (0, Vec::new());
  while p < v.len() {
    let f = take(&v, &mut p);
    let d = take(&v, &mut p);
    out.push(Shelf { disk: (f[0] != 0).then_some(d) });
  }
  out
}
/// Loads what is stored, through failing and then healthy reads, and rebuilds its index.
fn rebuild(shelves: &[Shelf], when: &str) {
  for (i, s) in shelves.iter().enumerate() {
    let Some(d) = &s.disk else { continue };
    let name = format!("/sim/shelf{i}.xml");
    put_file(&name, d.clone());
    if choose(S_FAULT, 3) == 2 {
      exec(&Op::Load(name.clone(), failing_read(d.len())), &[]);
    }
    let r = exec(&Op::Load(name, benign_read()), &[]);
    let Some(law) = r.law else {
      violate("unreadable", &format!("{when}: a stored document does not load: {}", r.digest));
    };
    check_index(&law, &readable(d, "a stored document", "unreadable"), when);
  }
}
pub fn c31(epoch: u32) {
  let mut cfg = small_cfg();
  cfg.budget = cfg.budget.min(30);
  cfg.chars.long = false;
  let layout = gen_layout(false);
  let crowd = epoch == 0 && choose(S_CFG, 3) == 2;
  if crowd {
    return c31_crowd(&cfg, &layout);
  }
  let steps = 1 + choose(S_CFG, 3);
  solo(move || {
    let mut shelves: Vec<Shelf> = if epoch == 0 { (0..2).map(|_| Shelf { disk: None }).collect() } else { unshelve() };
    if epoch > 0 {
      log(format_args!("process lifetime {epoch}"));
      rebuild(&shelves, "after restart");
      if epoch >= 3 {
        return;
      }
    }
    for _ in 0..steps {
      let i = choose(S_DOC, 2) as usize;
      let r = if choose(S_DOC, 5) == 4 {
        exec(&Op::Text(Arc::new(gen_text_args(false, false))), &[])
      } else {
        let d = gen_indexed(&cfg);
        let b = serialize(grammar(), &d, &layout);
        sample(&format!("{} elements: {}", d.count(), clip(&String::from_utf8_lossy(&b), 200)));
        let r = exec(&Op::Parse(Arc::new(b)), &[]);
        if let Some(l) = &r.law {
          check_index(l, &d, "as loaded");
        }
        r
      };
      let Some(law) = r.law else {
        count(C::Skipped);
        continue;
      };
      let mut plan = benign_sink();
      let approx = 4000 + cfg.budget as usize * 200;
      match choose(S_FAULT, 5) {
        3 => plan.crash_at = Some(choose(S_FAULT, approx as u32) as usize),
        4 => plan = failing_sink(approx),
        _ => {}
      }
      let mut sink = Sink::new(plan);
      let cell = Arc::new(Mutex::new(shelves));
      let c2 = cell.clone();
      sink.on_crash = Some(Box::new(move |w: &[u8]| {
        count(C::Crash);
        count(C::CrashMidSave);
        log(format_args!("crash inside the save after {} bytes", w.len()));
        shelve(&c2.lock().unwrap());
        exit_child(EXIT_NEXT_EPOCH);
      }));
      let r = asked("write_file", "saving", || lib::write_file(&law, &mut sink));
      shelves = std::mem::take(&mut *cell.lock().unwrap());
      match r {
        Ok(()) if !sink.failed => {
          count(C::Sync);
          let d = std::mem::take(&mut sink.data);
          // the law in memory and the document just stored have one index
          check_index(&law, &readable(&d, "a saved document", "unreadable"), "after the save");
          shelves[i] = Shelf { disk: Some(d) };
        }
        // a failed save leaves the law as it was
        _ => {
          let x = exec(&Op::ToXml(0), &[law.clone()]);
          if x.digest.starts_with("Ok doc") {
            check_index(&law, &readable(&x.out, "a saved document", "unreadable"), "after a failed save");
          }
        }
      }
    }
    rebuild(&shelves, "at the end");
    if epoch < 3 && choose(S_DOC, 2) == 1 {
      count(C::Restart);
      shelve(&shelves);
      exit_child(EXIT_NEXT_EPOCH);
    }
  });
}
/// Several tasks index the same and other laws while others load and save.
fn c31_crowd(cfg: &DocCfg, layout: &Layout) {
  let mut laws = Vec::new();
  let mut trees = Vec::new();
  let mut bytes = Vec::new();
  for _ in 0..1 + choose(S_CFG, 2) {
    let d = gen_indexed(cfg);
    let b = serialize(grammar(), &d, layout);
    let Some(l) = setup_law(b.clone()) else {
      count(C::Skipped);
      return;
    };
    laws.push(l);
    trees.push(d);
    bytes.push(b);
  }
  let n = laws.len() as u32;
  let mean = [20, 100, 500, 3000][choose(S_CFG, 4) as usize];
  let nt = 2 + choose(S_CFG, 3) as usize;
  sample(&format!("{nt} tasks indexing {n} laws, mean {mean} allocation steps between preemptions"));
  let (laws, trees) = (Arc::new(laws), Arc::new(trees));
  let done = Arc::new(AtomicU32::new(0));
  let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
  set_budget(200_000_000, i64::MAX);
  for t in 0..nt {
    let script: Vec<(u32, usize)> = (0..1 + choose(S_DOC, 3)).map(|_| (choose(S_DOC, 4), choose(S_DOC, n) as usize)).collect();
    let plans: Vec<(SinkPlan, ReadPlan)> = script.iter().map(|(_, i)| if choose(S_FAULT, 2) == 1 { (failing_sink(bytes[*i].len() * 2), failing_read(bytes[*i].len())) } else { (benign_sink(), benign_read()) }).collect();
    for (k, (_, i)) in script.iter().enumerate() {
      put_file(&format!("/sim/t{t}.{k}.xml"), bytes[*i].clone());
    }
    let (laws, trees, done) = (laws.clone(), trees.clone(), done.clone());
    tasks.push(Box::new(move || {
      for (k, ((what, i), (sp, rp))) in script.into_iter().zip(plans).enumerate() {
        match what {
          0 if t > 0 => {
            exec(&Op::Save(i, sp), &laws);
          }
          1 if t > 0 => {
            let r = exec(&Op::Load(format!("/sim/t{t}.{k}.xml"), rp), &[]);
            if let Some(l) = &r.law {
              check_index(l, &trees[i], &format!("task {t}, a law it loaded"));
            }
          }
          _ => check_index(&laws[i], &trees[i], &format!("task {t}, a shared law")),
        }
      }
      done.fetch_add(1, SeqCst);
    }));
  }
  run_tasks(mean, tasks);
}

// ------------------------------------------------------------------------ C33
const ERAS: [((i64, i64, i64), &str); 5] = [((1868, 1, 25), "Meiji"), ((1912, 7, 30), "Taisho"), ((1926, 12, 25), "Showa"), ((1989, 1, 8), "Heisei"), ((2019, 5, 1), "Reiwa")];
fn era_on(d: (i64, i64, i64)) -> Option<&'static str> {
  ERAS.iter().rev().find(|e| e.0 <= d).map(|e| e.1)
}
fn days_in(y: i64, m: i64) -> i64 {
  match m {
    2 if (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 => 29,
    2 => 28,
    4 | 6 | 9 | 11 => 30,
    _ => 31,
  }
}
fn gen_date(a: &mut TextArgs) {
  if choose(S_DOC, 2) == 1 {
    // around the days the eras change
    let (y, m, d) = ERAS[choose(S_DOC, 5) as usize].0;
    let (mut y, mut m, mut d) = (y, m, d + choose(S_DOC, 5) as i64 - 2);
    match choose(S_DOC, 6) {
      4 => y += choose(S_DOC, 3) as i64 - 1,
      5 => m = (m + choose(S_DOC, 3) as i64 - 2).rem_euclid(12) + 1,
      _ => {}
    }
    if d < 1 {
      m -= 1;
      if m < 1 {
        (y, m) = (y - 1, 12);
      }
      d = days_in(y, m);
    } else if d > days_in(y, m) {
      (m, d) = (m % 12 + 1, 1);
    }
    (a.year, a.month, a.day) = (y as usize, Some(m as usize), Some(d as usize));
  } else {
    let y = if choose(S_DOC, 8) == 7 { [1, 1600, 1867, 2100, 9999, 10_000, 32_768, 65_536 + 2000, 1 << 31, (1 << 32) + 2000, (1 << 32) + 1900, usize::MAX][choose(S_DOC, 12) as usize] as i64 } else { 1866 + choose(S_DOC, 180) as i64 };
    let m = 1 + choose(S_DOC, 12) as i64;
    let d = 1 + choose(S_DOC, days_in(y, m) as u32) as i64;
    (a.year, a.month, a.day) = (y as usize, Some(m as usize), Some(d as usize));
  }
  match choose(S_DOC, 6) {
    4 => a.day = None,
    5 => (a.month, a.day) = (None, None),
    _ => {}
  }
}
/// The eras the given date may lie in: several if it is not given whole.
fn possible(a: &TextArgs) -> Vec<&'static str> {
  let y = i64::try_from(a.year).unwrap_or(i64::MAX);
  let (m0, m1) = a.month.map_or((1, 12), |m| (m as i64, m as i64));
  let (d0, d1) = a.day.map_or((1, 31), |d| (d as i64, d as i64));
  let mut v: Vec<&str> = Vec::new();
  v.extend(era_on((y, m0, d0)));
  v.extend(era_on((y, m1, d1)));
  v.dedup();
  v
}
pub fn c33() {
  let nt = 1 + choose(S_CFG, 4) as usize;
  let mean = [20, 100, 500][choose(S_CFG, 3) as usize];
  let mut tasks: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
  set_budget(200_000_000, i64::MAX);
  for t in 0..nt {
    let mut script = Vec::new();
    for _ in 0..1 + choose(S_DOC, 4) {
      let mut a = gen_text_args(false, false);
      a.text = a.text.lines().take(1 + choose(S_DOC, 3) as usize).collect::<Vec<_>>().join("\n");
      gen_date(&mut a);
      script.push((Arc::new(a), if choose(S_FAULT, 2) == 1 { failing_sink(600) } else { benign_sink() }));
    }
    if t == 0 {
      sample(&format!("{nt} tasks; {:?}", script.iter().map(|(a, _)| (a.year, a.month, a.day)).collect::<Vec<_>>()));
    }
    tasks.push(Box::new(move || {
      for (a, plan) in script {
        let r = exec(&Op::Text(a.clone()), &[]);
        let want = possible(&a);
        let date = format!("{}-{:?}-{:?}", a.year, a.month, a.day);
        count(C::Compared);
        state(hash_bytes(date.as_bytes()));
        if let Some(m) = &r.panicked {
          violate("panic", &format!("a law text of {date} panicked: {m}"));
        }
        let Some(law) = r.law else {
          // outside the calendar there may be no answer, inside there is one
          if !want.is_empty() && a.year <= 2100 && era_on((a.year as i64, a.month.unwrap_or(1) as i64, a.day.unwrap_or(1) as i64)).is_some() {
            violate("era-refused", &format!("a law text of {date}, {want:?}, was refused: {}", r.digest));
          }
          continue;
        };
        let era = format!("{:?}", law.era);
        if !want.contains(&era.as_str()) {
          violate("era", &format!("a law of {date} is of {era}, the date is in {want:?}"));
        }
        if law.year != a.year || law.promulgate_month != a.month || law.promulgate_day != a.day {
          violate("date", &format!("a law of {date} records {}-{:?}-{:?}", law.year, law.promulgate_month, law.promulgate_day));
        }
        // and so says what is stored, and what is read back from there
        let laws = [law];
        let s = exec(&Op::Save(0, plan), &laws);
        if !s.digest.starts_with("Ok doc") {
          continue;
        }
        let e = readable(&s.out, "a law parsed from text", "unreadable");
        let at = |n: &str| e.attrs.iter().find(|x| x.0 == n).map(|x| x.1.clone());
        count(C::Compared);
        if at("Era") != Some(era.clone()) || at("Year") != Some(a.year.to_string()) || at("PromulgateMonth") != a.month.map(|m| m.to_string()) || at("PromulgateDay") != a.day.map(|d| d.to_string()) {
          violate("date", &format!("a law of {date} ({era}) is stored as {:?}", e.attrs));
        }
        if let Some(l) = exec(&Op::Parse(Arc::new(s.out)), &[]).law {
          if format!("{:?}", l.era) != era || l.year != a.year || l.promulgate_month != a.month || l.promulgate_day != a.day {
            violate("date", &format!("a law of {date} ({era}) is read back as {:?} {}-{:?}-{:?}", l.era, l.year, l.promulgate_month, l.promulgate_day));
          }
        } else {
          violate("date", &format!("a stored law of {date} does not load"));
        }
      }
    }));
  }
  run_tasks(mean, tasks);
}

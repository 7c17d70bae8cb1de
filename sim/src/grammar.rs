//! The law schema as this simulator knows it: for every element its attributes,
//! their types and defaults, and its content model, written from the published
//! schema (法令標準XMLスキーマ v3) in the order documents use. It is independent
//! of the library's readers and writers.
use std::collections::BTreeMap;

#[derive(Debug, Clone)]
pub enum Ty {
  Art,   // 1, 1_2, 3:5, 1_2:3_4
  Us,    // non-negative integer
  Str,   // any text
  Bool,
  Enum(Vec<String>),
}
#[derive(Debug, Clone)]
pub struct Attr {
  pub name: String,
  pub ty: Ty,
  pub required: bool,
  pub default: Option<String>,
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Rep {
  One,
  Opt,
  Star,
  Plus,
}
#[derive(Debug, Clone)]
pub struct Particle {
  pub alts: Vec<usize>,
  pub rep: Rep,
}
#[derive(Debug, Clone)]
pub enum Content {
  Empty,
  PlainText,
  Mixed(Vec<usize>),
  /// one of several sequences
  Seq(Vec<Vec<Particle>>),
}
#[derive(Debug, Clone)]
pub struct Spec {
  pub name: String,
  pub attrs: Vec<Attr>,
  pub content: Content,
}
pub struct Grammar {
  pub specs: Vec<Spec>,
  pub by_name: BTreeMap<String, usize>,
  /// dist[f][e]: steps from element e down to element f (u8::MAX: unreachable)
  pub dist: Vec<Vec<u8>>,
  /// (parent, child) pairs, for focusing runs
  pub edges: Vec<(usize, usize)>,
}

fn text() -> String {
  let mut g = String::new();
  let inl = "{Ruby|Line|Sup|Sub}";
  let cont = "{Table|TableStruct|Fig|FigStruct|QuoteStruct|NoteStruct|StyleStruct|AppdxTable|Ruby|Line|Sup|Sub|Paragraph|Item|Subitem1|Subitem2|Subitem3|Subitem4|Subitem5|Subitem6|Subitem7|Subitem8|Subitem9|Subitem10|List|Sentence|ArithFormula|TOC|TOCSection|Remarks|TableRow}";
  let blocks = "(TableStruct|FigStruct|StyleStruct|List)*";
  let sen = "Sentence+ / Column+ / Table";
  let dh = "@Delete~false=bool @Hide~false=bool";
  let wm = "@WritingMode~vertical=vertical|horizontal";
  let ls = "solid|none|dotted|double";
  let al = "left|center|right|justify";
  let mut p = |s: String| {
    g.push_str(&s);
    g.push('\n');
  };
  p("Law @Era=Meiji|Taisho|Showa|Heisei|Reiwa @Year=us @Num?=art @PromulgateMonth?=us @PromulgateDay?=us @LawType=Constitution|Act|CabinetOrder|ImperialOrder|MinisterialOrdinance|Rule|Misc @Lang=ja|en : LawNum LawBody".into());
  p("LawNum : $".into());
  p("LawBody @Subject?=str : LawTitle? EnactStatement* TOC? Preamble? MainProvision SupplProvision* AppdxTable* AppdxNote* AppdxStyle* Appdx* AppdxFig* AppdxFormat*".into());
  p(format!("LawTitle @Kana?=str @Abbrev?=str @AbbrevKana?=str : {inl}"));
  p(format!("EnactStatement : {inl}"));
  p("Preamble : Paragraph*".into());
  p("MainProvision @Extract?=bool : (Paragraph|Article|Section|Chapter|Part)*".into());
  for (n, k) in [
    ("Part", "(Article|Chapter)*"),
    ("Chapter", "(Article|Section)*"),
    ("Section", "(Article|Subsection|Division)*"),
    ("Subsection", "(Article|Division)*"),
    ("Division", "Article*"),
  ] {
    p(format!("{n} @Num=art {dh} : {n}Title {k}"));
    p(format!("{n}Title : {inl}"));
  }
  p(format!("Article @Num=art {dh} : ArticleCaption? ArticleTitle Paragraph* SupplNote?"));
  p(format!("ArticleCaption @CommonCaption?=bool : {inl}"));
  p(format!("ArticleTitle : {inl}"));
  p(format!("SupplNote : {inl}"));
  p(format!("Paragraph @Num=art @OldStyle~false=bool @OldNum~false=bool @Hide~false=bool : ParagraphCaption? ParagraphNum ParagraphSentence AmendProvision* Class* {blocks} Item*"));
  p(format!("ParagraphCaption @CommonCaption?=bool : {inl}"));
  p(format!("ParagraphNum : {inl}"));
  p("ParagraphSentence : Sentence*".into());
  p(format!("Item @Num?=art {dh} : ItemTitle? ItemSentence Subitem1* {blocks}"));
  p(format!("ItemTitle : {inl}"));
  p(format!("ItemSentence : {sen}"));
  for i in 1..=10 {
    let sub = if i < 10 { format!("Subitem{}*", i + 1) } else { String::new() };
    p(format!("Subitem{i} @Num?=art {dh} : Subitem{i}Title? Subitem{i}Sentence {sub} {blocks}"));
    p(format!("Subitem{i}Title : {inl}"));
    p(format!("Subitem{i}Sentence : {sen}"));
  }
  p("Class @Num=str : ClassTitle? ClassSentence Item*".into());
  p(format!("ClassTitle : {inl}"));
  p(format!("ClassSentence : {sen}"));
  p(format!("Sentence @Num?=us @Function?=main|proviso @Indent?=Paragraph|Item|Subitem1|Subitem2|Subitem3|Subitem4|Subitem5|Subitem6|Subitem7|Subitem8|Subitem9|Subitem10 {wm} : {{Ruby|Line|Sup|Sub|QuoteStruct|ArithFormula}}"));
  p(format!("Column @Num?=us @LineBreak~false=bool @Align?={al} : Sentence*"));
  p("Ruby : RubyMixed".into());
  p("Rt : $".into());
  p("Sup : $".into());
  p("Sub : $".into());
  p(format!("Line @Style~solid={ls} : {{QuoteStruct|ArithFormula|Ruby|Sup|Sub}}"));
  for n in ["QuoteStruct", "Style", "Note", "Format"] {
    p(format!("{n} : {cont}"));
  }
  p(format!("ArithFormula @Num?=us : {cont}"));
  p("Fig @src=str : -".into());
  p("Remarks : RemarksLabel (Sentence|Item)*".into());
  p(format!("RemarksLabel @LineBreak~false=bool : {inl}"));
  for n in ["Note", "Style", "Format", "Fig", "Table"] {
    p(format!("{n}Struct : {n}StructTitle? Remarks* {n} Remarks*"));
    p(format!("{n}StructTitle {} : {inl}", if n == "Table" { wm } else { "" }));
  }
  p(format!("Table {wm} : TableHeaderRow* TableRow*"));
  p("TableHeaderRow : TableHeaderColumn*".into());
  p(format!("TableHeaderColumn : {inl}"));
  p("TableRow : TableColumn*".into());
  p(format!("TableColumn @BorderTop~solid={ls} @BorderBottom~solid={ls} @BorderLeft~solid={ls} @BorderRight~solid={ls} @rowspan?=str @colspan?=str @Align?={al} @Valign?=top|middle|bottom : {{Sentence|Column|FigStruct|Remarks|Part|Chapter|Section|Subsection|Division|Article|Paragraph|Item|Subitem1|Subitem2|Subitem3|Subitem4|Subitem5|Subitem6|Subitem7|Subitem8|Subitem9|Subitem10}}"));
  p("List : ListSentence Sublist1*".into());
  p("ListSentence : Sentence* / Column*".into());
  for i in 1..=3 {
    let sub = if i < 3 { format!("Sublist{}*", i + 1) } else { String::new() };
    p(format!("Sublist{i} : Sublist{i}Sentence {sub}"));
    p(format!("Sublist{i}Sentence : Sentence* / Column*"));
  }
  p("TOC : TOCLabel? TOCPreambleLabel? (TOCArticle|TOCSection|TOCChapter|TOCPart)* TOCSupplProvision? TOCAppdxTableLabel*".into());
  for n in ["TOCLabel", "TOCPreambleLabel", "TOCAppdxTableLabel", "ArticleRange", "SupplProvisionLabel"] {
    p(format!("{n} : {inl}"));
  }
  for (n, k) in [
    ("Part", "TOCChapter*"),
    ("Chapter", "TOCSection*"),
    ("Section", "(TOCSubsection|TOCDivision)*"),
    ("Subsection", "TOCDivision*"),
    ("Division", ""),
  ] {
    p(format!("TOC{n} @Num=art @Delete~false=bool : {n}Title ArticleRange? {k}"));
  }
  p("TOCArticle @Num=art @Delete~false=bool : ArticleTitle ArticleCaption".into());
  p("TOCSupplProvision : SupplProvisionLabel ArticleRange? (TOCArticle|TOCChapter)*".into());
  p("SupplProvision @Type?=New|Amend @AmendLawNum?=str @Extract?=bool : SupplProvisionLabel (Paragraph|Article|Chapter|SupplProvisionAppdxTable|SupplProvisionAppdxStyle|SupplProvisionAppdx)*".into());
  for (n, k) in [("Table", "TableStruct*"), ("Style", "StyleStruct*")] {
    p(format!("SupplProvisionAppdx{n} @Num?=us : SupplProvisionAppdx{n}Title RelatedArticleNum? {k}"));
    p(format!("SupplProvisionAppdx{n}Title {wm} : {inl}"));
  }
  p("SupplProvisionAppdx @Num?=us : ArithFormulaNum? RelatedArticleNum? ArithFormula*".into());
  p(format!("ArithFormulaNum : {inl}"));
  p(format!("RelatedArticleNum : {inl}"));
  for (n, k) in [
    ("Table", "(TableStruct|Item)* Remarks?"),
    ("Note", "(NoteStruct|FigStruct|TableStruct)* Remarks?"),
    ("Style", "StyleStruct* Remarks?"),
    ("Format", "FormatStruct* Remarks?"),
    ("Fig", "(FigStruct|TableStruct)*"),
  ] {
    p(format!("Appdx{n} @Num?=us : Appdx{n}Title? RelatedArticleNum? {k}"));
    p(format!("Appdx{n}Title {wm} : {inl}"));
  }
  p("Appdx : ArithFormulaNum? RelatedArticleNum? ArithFormula* Remarks?".into());
  p("AmendProvision : AmendProvisionSentence? NewProvision*".into());
  p("AmendProvisionSentence : Sentence".into());
  p("NewProvision : (Sentence|Paragraph|Article|LawTitle|Preamble|TOC|Part|PartTitle|Chapter|ChapterTitle|Section|SectionTitle|Subsection|SubsectionTitle|Division|DivisionTitle|SupplNote|Item|Subitem1|Subitem2|Subitem3|Subitem4|Subitem5|Subitem6|Subitem7|Subitem8|Subitem9|Subitem10|List|AmendProvision|AppdxTable|AppdxNote|AppdxStyle|Appdx|AppdxFig|AppdxFormat|SupplProvisionAppdxStyle|SupplProvisionAppdxTable|SupplProvisionAppdx|TableStruct|TableRow|TableColumn|FigStruct|NoteStruct|StyleStruct|FormatStruct|Remarks|LawBody)*".into());
  g
}

fn ty(s: &str) -> Ty {
  match s {
    "art" => Ty::Art,
    "us" => Ty::Us,
    "str" => Ty::Str,
    "bool" => Ty::Bool,
    e => Ty::Enum(e.split('|').map(|x| x.to_string()).collect()),
  }
}

impl Grammar {
  pub fn new() -> Grammar {
    let t = text();
    let mut by_name = BTreeMap::new();
    let lines: Vec<&str> = t.lines().collect();
    for (i, l) in lines.iter().enumerate() {
      let n = l.split_whitespace().next().unwrap().to_string();
      by_name.insert(n, i);
    }
    let id = |n: &str| *by_name.get(n).unwrap_or_else(|| panic!("grammar: unknown element {n}"));
    let mut specs = Vec::new();
    for l in &lines {
      let (head, body) = l.split_once(" : ").unwrap_or_else(|| (l.trim_end_matches(" :"), ""));
      let mut hs = head.split_whitespace();
      let name = hs.next().unwrap().to_string();
      let mut attrs = Vec::new();
      for a in hs {
        let a = a.strip_prefix('@').unwrap();
        let (n, t) = a.split_once('=').unwrap();
        let (n, required, default) = if let Some(n) = n.strip_suffix('?') {
          (n, false, None)
        } else if let Some((n, d)) = n.split_once('~') {
          (n, false, Some(d.to_string()))
        } else {
          (n, true, None)
        };
        attrs.push(Attr { name: n.to_string(), ty: ty(t), required, default });
      }
      let body = body.trim();
      let content = if body == "$" {
        Content::PlainText
      } else if body == "-" {
        Content::Empty
      } else if body == "RubyMixed" {
        Content::Mixed(vec![id("Rt")])
      } else if let Some(b) = body.strip_prefix('{') {
        Content::Mixed(b.trim_end_matches('}').split('|').map(id).collect())
      } else {
        let mut seqs = Vec::new();
        for alt in body.split(" / ") {
          let mut seq = Vec::new();
          for p in alt.split_whitespace() {
            let (p, rep) = match p.as_bytes()[p.len() - 1] {
              b'?' => (&p[..p.len() - 1], Rep::Opt),
              b'*' => (&p[..p.len() - 1], Rep::Star),
              b'+' => (&p[..p.len() - 1], Rep::Plus),
              _ => (p, Rep::One),
            };
            let p = p.trim_start_matches('(').trim_end_matches(')');
            seq.push(Particle { alts: p.split('|').map(id).collect(), rep });
          }
          seqs.push(seq);
        }
        Content::Seq(seqs)
      };
      specs.push(Spec { name, attrs, content });
    }
    let n = specs.len();
    let kids: Vec<Vec<usize>> = specs
      .iter()
      .map(|s| {
        let mut v: Vec<usize> = match &s.content {
          Content::Mixed(a) => a.clone(),
          Content::Seq(ss) => ss.iter().flatten().flat_map(|p| p.alts.clone()).collect(),
          _ => vec![],
        };
        v.sort();
        v.dedup();
        v
      })
      .collect();
    let mut edges = Vec::new();
    for (i, k) in kids.iter().enumerate() {
      for c in k {
        edges.push((i, *c));
      }
    }
    let mut dist = vec![vec![u8::MAX; n]; n];
    for f in 0..n {
      dist[f][f] = 0;
      loop {
        let mut ch = false;
        for e in 0..n {
          for c in &kids[e] {
            let d = dist[f][*c];
            if d != u8::MAX && d + 1 < dist[f][e] {
              dist[f][e] = d + 1;
              ch = true;
            }
          }
        }
        if !ch {
          break;
        }
      }
    }
    Grammar { specs, by_name, dist, edges }
  }
  pub fn id(&self, n: &str) -> usize {
    self.by_name[n]
  }
  pub fn spec(&self, n: &str) -> Option<&Spec> {
    self.by_name.get(n).map(|i| &self.specs[*i])
  }
}

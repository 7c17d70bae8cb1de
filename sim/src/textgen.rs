//! Law texts in the official layout, and the damage a copied or cut text shows.
use crate::doc::{gen_text, CharMix};
use crate::shared::*;

const KANJI: [&str; 10] = ["〇", "一", "二", "三", "四", "五", "六", "七", "八", "九"];
pub fn kansuji(n: u32) -> String {
  let mut s = String::new();
  let (t, h, d, u) = (n / 1000 % 10, n / 100 % 10, n / 10 % 10, n % 10);
  for (v, unit) in [(t, "千"), (h, "百"), (d, "十")] {
    if v > 1 {
      s.push_str(KANJI[v as usize]);
    }
    if v > 0 {
      s.push_str(unit);
    }
  }
  if u > 0 {
    s.push_str(KANJI[u as usize]);
  }
  if s.is_empty() {
    s.push('一');
  }
  s
}
pub fn zenkaku(s: &str) -> String {
  s.chars().map(|c| if c.is_ascii_digit() { char::from_u32('０' as u32 + c as u32 - '0' as u32).unwrap() } else { c }).collect()
}
fn small() -> u32 {
  match choose(S_DOC, 10) {
    9 => 1 + choose(S_DOC, 9999),
    8 => 1 + choose(S_DOC, 300),
    _ => 1 + choose(S_DOC, 30),
  }
}
fn numeral(odd: bool) -> String {
  let n = small();
  match choose(S_DOC, if odd { 12 } else { 8 }) {
    0..=5 => kansuji(n),
    6 => zenkaku(&n.to_string()),
    7 => n.to_string(),
    8 => "0".into(),
    9 => "99999999999999999999999999".into(),
    10 => zenkaku("18446744073709551616"),
    _ => ["十十", "百百百", "千千", "一一一一", "十百千", "九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九九"][choose(S_DOC, 6) as usize].into(),
  }
}
fn branch(odd: bool) -> String {
  let mut s = String::new();
  for _ in 0..[0, 0, 0, 0, 0, 1, 1, 2][choose(S_DOC, 8) as usize] {
    s.push_str(if odd && choose(S_DOC, 6) == 5 { "ノ" } else { "の" });
    s.push_str(&numeral(odd));
  }
  s
}
fn heading(suffix: &str, odd: bool) -> String {
  let mut s = format!("第{}{suffix}{}", numeral(odd), branch(odd));
  if choose(S_DOC, 16) == 15 {
    s.push_str(&format!("から第{}{suffix}{}まで", numeral(odd), branch(odd)));
  }
  s
}
const IROHA: &str = "イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス";
const IROHA_H: &str = "いろはにほへとちりぬるをわかよたれそつねならむうゐのおくやまけふこえてあさきゆめみしゑひもせす";
fn nth(s: &str, n: u32) -> char {
  let v: Vec<char> = s.chars().collect();
  v[(n as usize - 1) % v.len()]
}
fn full(c: char) -> char {
  char::from_u32(c as u32 + 0xfee0).unwrap()
}
fn roman(n: u32, up: bool) -> String {
  let t = ["i", "ii", "iii", "iv", "v", "vi", "vii", "viii", "ix", "x", "xi", "xii", "xiii", "xiv", "xx", "xl", "l", "xc", "c"];
  let s = t[(n as usize - 1) % t.len()];
  s.chars().map(|c| full(if up { c.to_ascii_uppercase() } else { c })).collect()
}
/// Item mark number `n` in one of the sixteen patterns.
pub fn item_mark(pat: u32, n: u32, odd: bool) -> String {
  let core = if odd && choose(S_DOC, 8) == 7 {
    ["アアア", "ンンン", "あん", "いいいいいいいいいいいいいいいいいいいい", "ヴ", "ゐゐ", "ＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺＺ", "ｉｉｉｉｉｉ", "ＩＣＩＣ", "十十", "ｖｖｖ", "９９９９９９９９９９９９９９９９９９９９９", "ｚ", "Ｄ", "Ｍ", "ｍｄ"]
      [choose(S_DOC, 16) as usize]
      .to_string()
  } else {
    match pat % 8 {
      0 => kansuji(n),
      1 => nth(IROHA, n).to_string(),
      2 => nth(IROHA_H, n).to_string(),
      3 => zenkaku(&n.to_string()),
      4 => roman(n, true),
      5 => roman(n, false),
      6 => full((b'A' + ((n - 1) % 26) as u8) as char).to_string(),
      _ => full((b'a' + ((n - 1) % 26) as u8) as char).to_string(),
    }
  };
  let mut s = if pat >= 8 { format!("（{core}）") } else { core };
  if choose(S_DOC, 12) == 11 {
    s.push_str(&format!("の{}", kansuji(small())));
  }
  if odd && choose(S_DOC, 20) == 19 {
    s.push_str(&format!("から{}まで", nth(IROHA, small())));
  }
  s
}
fn body(c: &CharMix) -> String {
  match choose(S_DOC, 10) {
    9 => ["削除", "（削除）"][choose(S_DOC, 2) as usize].into(),
    8 => gen_text(c).replace('\n', ""),
    7 => "この法律において「法人」とは、次に掲げるものをいう。".into(),
    _ => ["この法律は、公布の日から施行する。", "前項の規定は、適用しない。ただし、この限りでない。", "国は、必要な措置を講ずるものとする。", "次の各号に掲げる者"][choose(S_DOC, 4) as usize].into(),
  }
}
fn sep() -> &'static str {
  ["　", " ", "　　", ""][[0, 0, 0, 0, 0, 0, 1, 2, 3, 0][choose(S_DOC, 10) as usize]]
}

pub struct TextCfg {
  pub articles: u32,
  pub odd: bool,
  pub preamble: bool,
  pub suppl: u32,
  pub tree: bool,
  pub chars: CharMix,
  pub deepitems: bool,
}
pub fn gen_text_cfg(odd_ok: bool) -> TextCfg {
  TextCfg {
    articles: 1 + choose(S_CFG, 4),
    odd: odd_ok && choose(S_CFG, 3) == 2,
    preamble: choose(S_CFG, 4) == 3,
    suppl: choose(S_CFG, 3),
    tree: choose(S_CFG, 2) == 1,
    chars: CharMix { markup: choose(S_CFG, 4) == 3, space: choose(S_CFG, 4) == 3, astral: choose(S_CFG, 4) == 3, long: false, newline: false },
    deepitems: choose(S_CFG, 3) == 2,
  }
}
fn items(c: &TextCfg, out: &mut Vec<String>) {
  // a stack of patterns; going deeper takes a new pattern, coming back an old one
  let mut stack: Vec<(u32, u32)> = vec![(choose(S_DOC, 16), 0)];
  let n = 1 + choose(S_DOC, if c.deepitems { 14 } else { 5 });
  for _ in 0..n {
    let top = stack.last_mut().unwrap();
    top.1 += 1;
    let (p, k) = *top;
    let ind = "　".repeat((stack.len() - 1).min(3));
    out.push(format!("{ind}{}{}{}", item_mark(p, k, c.odd), sep(), body(&c.chars)));
    if choose(S_DOC, 8) == 7 {
      out.push(body(&c.chars));
    }
    match choose(S_DOC, if c.deepitems { 4 } else { 6 }) {
      1 | 2 if stack.len() < 12 => {
        let p = choose(S_DOC, 16);
        if c.odd || !stack.iter().any(|s| s.0 == p) {
          stack.push((p, 0));
        }
      }
      3 => {
        let k = choose(S_DOC, stack.len() as u32) as usize;
        for _ in 0..k {
          stack.pop();
        }
      }
      _ => {}
    }
  }
}
fn article(c: &TextCfg, out: &mut Vec<String>) {
  if choose(S_DOC, 3) > 0 {
    out.push(format!("（{}）", ["目的", "定義", "適用範囲", "経過措置"][choose(S_DOC, 4) as usize]));
  }
  out.push(format!("{}{}{}", heading("条", c.odd), sep(), body(&c.chars)));
  if choose(S_DOC, 5) == 4 {
    out.push(body(&c.chars));
  }
  if choose(S_DOC, 3) == 2 {
    items(c, out);
  }
  for k in 0..choose(S_DOC, 3) {
    let n = k + 2;
    let num = match choose(S_DOC, 8) {
      7 => n.to_string(),
      6 if c.odd => numeral(true),
      5 => format!("{}の{}", zenkaku(&n.to_string()), zenkaku("2")),
      _ => zenkaku(&n.to_string()),
    };
    out.push(format!("{num}{}{}", sep(), body(&c.chars)));
    if choose(S_DOC, 4) == 3 {
      items(c, out);
    }
  }
}
/// The lines of one law text.
pub fn gen_law_text(c: &TextCfg) -> Vec<String> {
  let mut v = Vec::new();
  if c.preamble {
    for _ in 0..=choose(S_DOC, 2) {
      v.push("日本国民は、正当に選挙された国会における代表者を通じて行動する。".to_string());
    }
  }
  let order = ["編", "章", "節", "款", "目"];
  let mut level = 0usize;
  for _ in 0..c.articles {
    if c.tree && choose(S_DOC, 2) == 1 {
      let to = choose(S_DOC, 5) as usize;
      let from = if c.odd || choose(S_DOC, 3) == 2 { to } else { level.min(to) };
      for s in &order[from..=to] {
        v.push(format!("{}{}{}", heading(s, c.odd), sep(), ["総則", "通則", "雑則", "削除"][choose(S_DOC, 4) as usize]));
      }
      level = to;
    }
    article(c, &mut v);
  }
  for _ in 0..c.suppl {
    v.push(match choose(S_DOC, 4) {
      0 => "附　則".to_string(),
      1 => "附則".to_string(),
      2 => "附則（昭和三一年四月二日法律第六三号）".to_string(),
      _ => "附　則　（平成十一年七月一六日法律第八七号）　抄".to_string(),
    });
    for _ in 0..choose(S_DOC, 3) {
      if choose(S_DOC, 8) == 7 {
        v.push(format!("{}　雑則", heading("章", c.odd)));
      }
      article(c, &mut v);
    }
    if choose(S_DOC, 3) == 2 {
      v.push(body(&c.chars));
    }
    if choose(S_DOC, 6) == 5 {
      v.push(format!("１　{}", body(&c.chars)));
    }
  }
  v
}
const GARBLE: [&str; 20] = ["第", "条", "の", "から", "まで", "（", "）", "一", "９", "9", "イ", "ｉ", "附則", "　", "\u{0}", "\u{fffd}", "ン", "Ａ", "編", "百"];
/// Damages a text the way copying and cutting does; says what it did.
pub fn damage_text(lines: &mut Vec<String>, times: u32) -> Option<usize> {
  let mut cut = None;
  for _ in 0..times {
    if lines.is_empty() {
      return cut;
    }
    let i = choose(S_FAULT, lines.len() as u32) as usize;
    match choose(S_FAULT, 7) {
      0 => {
        count(C::LineLost);
        lines.remove(i);
      }
      1 => {
        count(C::LineDup);
        let l = lines[i].clone();
        lines.insert(i, l);
      }
      2 => {
        count(C::LineSwap);
        let j = choose(S_FAULT, lines.len() as u32) as usize;
        lines.swap(i, j);
      }
      3 => {
        count(C::CharGarble);
        let mut c: Vec<char> = lines[i].chars().collect();
        if !c.is_empty() {
          let k = choose(S_FAULT, c.len().min(8) as u32) as usize;
          let g = GARBLE[choose(S_FAULT, 20) as usize];
          if choose(S_FAULT, 2) == 0 {
            c.remove(k);
          }
          let s: String = c[..k].iter().collect::<String>() + g + &c[k..].iter().collect::<String>();
          lines[i] = s;
        }
      }
      4 => {
        count(C::NumGarble);
        let s: String = lines[i]
          .chars()
          .map(|c| if "一二三四五六七八九十百千０１２３４５６７８９イロハ".contains(c) && choose(S_FAULT, 2) == 1 { "一十百千９0ンａＸｖ".chars().nth(choose(S_FAULT, 10) as usize).unwrap() } else { c })
          .collect();
        lines[i] = s;
      }
      5 => {
        count(C::NumGarble);
        let n = [3, 25, 60][choose(S_FAULT, 3) as usize];
        lines[i] = format!("第{}条　一", "九9９一".chars().nth(choose(S_FAULT, 4) as usize).unwrap().to_string().repeat(n));
      }
      _ => {
        count(C::TextCut);
        let k = choose(S_FAULT, lines[i].chars().count() as u32 + 1) as usize;
        lines[i] = lines[i].chars().take(k).collect();
        lines.truncate(i + 1);
        cut = Some(i);
      }
    }
  }
  cut
}

/// What one line of a text in the official layout says.
#[derive(Clone, Debug, Default)]
pub struct Piece {
  pub article: String,
  /// where it belongs: the numbered units round it, from the outside
  pub place: String,
  pub text: String,
  pub caption: bool,
}
/// A text in the official layout, line by line, with what each line says.
pub fn gen_strict() -> Vec<(String, Piece)> {
  let chars = CharMix { markup: choose(S_CFG, 4) == 3, space: choose(S_CFG, 4) == 3, astral: choose(S_CFG, 4) == 3, long: false, newline: false };
  let mut v: Vec<(String, Piece)> = Vec::new();
  let mut id = 0;
  let again = choose(S_CFG, 3) == 2; // texts may repeat
  let mut last = String::new();
  let mut words = move || {
    id += 1;
    if again && !last.is_empty() && choose(S_DOC, 3) == 2 {
      return last.clone();
    }
    let s = match choose(S_DOC, 4) {
      0 => "国は、必要な措置を講ずるものとする。".to_string(),
      1 => "次に掲げる者（第一条の者を除く。）".to_string(),
      _ => gen_text(&chars).replace(['\n', '\t', '\r'], ""),
    };
    last = format!("本{s}末{id}");
    last.clone()
  };
  let sp = || ["　", "　", "　", " ", "　　"][choose(S_DOC, 5) as usize];
  let num = |n: u32| match choose(S_DOC, 6) {
    5 => zenkaku(&n.to_string()),
    _ => kansuji(n),
  };
  let heading = |n: u32, s: &str| -> (String, String) {
    let mut h = format!("第{}{s}", num(n));
    let mut a = n.to_string();
    for _ in 0..[0, 0, 0, 0, 1, 2][choose(S_DOC, 6) as usize] {
      let b = 2 + choose(S_DOC, 12);
      h.push_str(&format!("の{}", num(b)));
      a.push_str(&format!("_{b}"));
    }
    (h, a)
  };
  if choose(S_DOC, 4) == 3 {
    for _ in 0..1 + choose(S_DOC, 3) {
      let t = words();
      v.push((t.clone(), Piece { text: t, article: "preamble".into(), place: "/Preamble".into(), ..Default::default() }));
    }
  }
  let words = std::cell::RefCell::new(words);
  let words = || (words.borrow_mut())();
  // the contents of one paragraph: its own line, text going on, items
  let paragraph = |v: &mut Vec<(String, Piece)>, article: &str, place: &str, p: u32, mark: &str, text: String| {
    let place = format!("{place}/Paragraph{p}");
    let at = |t: &str, place: &str| Piece { article: article.into(), place: place.into(), text: t.into(), caption: false };
    v.push((format!("{mark}{}{text}", if mark.is_empty() { "" } else { sp() }), at(&text, &place)));
    if choose(S_DOC, 6) == 5 {
      let t = words();
      v.push((t.clone(), at(&t, &place)));
    }
    if choose(S_DOC, 3) == 2 {
      let mut stack: Vec<(u32, String)> = vec![(0, place)];
      let many = [4, 6, 16][choose(S_DOC, 3) as usize];
      for _ in 0..1 + choose(S_DOC, many) {
        let level = stack.len() - 1;
        let (n, outer) = stack.last_mut().unwrap();
        *n += 1;
        let t = words();
        // the official marks: 一, イ, （１）, （ｉ）, （一）
        let sign = |n: u32| match level {
          0 => kansuji(n),
          1 => nth(IROHA, n).to_string(),
          2 => format!("（{}）", zenkaku(&n.to_string())),
          3 => format!("（{}）", roman(n, false)),
          _ => format!("（{}）", kansuji(n)),
        };
        let (mut mark, mut num) = (sign(*n), n.to_string());
        if level < 2 {
          match choose(S_DOC, 10) {
            8 => {
              let b = 2 + choose(S_DOC, 5);
              mark.push_str(&format!("の{}", kansuji(b)));
              num.push_str(&format!("_{b}"));
            }
            9 => {
              *n += 1 + choose(S_DOC, 3);
              mark.push_str(&format!("から{}まで", sign(*n)));
              num.push_str(&format!(":{n}"));
            }
            _ => {}
          }
        }
        let here = format!("{outer}/{}{num}", if level == 0 { "Item".to_string() } else { format!("Subitem{level}_") });
        let ind = "　".repeat(level);
        v.push((format!("{ind}{mark}{}{t}", sp()), at(&t, &here)));
        if choose(S_DOC, 8) == 7 {
          let t = words();
          v.push((t.clone(), at(&t, &here)));
        }
        match choose(S_DOC, 6) {
          3 | 4 if stack.len() < 5 => stack.push((0, here)),
          5 => {
            let k = choose(S_DOC, stack.len() as u32) as usize;
            stack.truncate(stack.len() - k);
          }
          _ => {}
        }
      }
    }
  };
  let caption = |v: &mut Vec<(String, Piece)>, article: &str, place: &str| {
    if choose(S_DOC, 2) == 1 {
      let t = words().replace(['（', '）'], "");
      v.push((format!("（{t}）"), Piece { article: article.into(), place: place.into(), text: t, caption: true }));
    }
  };
  let mut n = 0;
  let mut articles = |v: &mut Vec<(String, Piece)>, place: &str, count: u32| {
    for _ in 0..count {
      n += 1 + [0, 0, 0, 8, 95][choose(S_DOC, 5) as usize];
      let (h, a) = heading(n, "条");
      let place = format!("{place}/Article{a}");
      caption(v, &a, &place);
      for p in 1..=1 + [0, 0, 0, 1, 2][choose(S_DOC, 5) as usize] {
        let t = if p == 1 && choose(S_DOC, 12) == 11 { "削除".to_string() } else { words() };
        let mark = if p == 1 { h.clone() } else { zenkaku(&p.to_string()) };
        paragraph(v, &a, &place, p, &mark, t);
      }
    }
  };
  // paragraphs without an article around them
  let paragraphs = |v: &mut Vec<(String, Piece)>, place: &str| {
    for p in 1..=1 + choose(S_DOC, 3) {
      caption(v, "", &format!("{place}/Paragraph{p}"));
      paragraph(v, "", place, p, &zenkaku(&p.to_string()), words());
    }
  };
  let deep = choose(S_DOC, 6) as usize; // how many levels of headings are in use
  if deep == 0 && choose(S_DOC, 3) == 2 {
    paragraphs(&mut v, "/MainProvision");
  } else if deep == 0 {
    let c = 1 + choose(S_DOC, 3);
    articles(&mut v, "/MainProvision", c);
  } else {
    // part or chapter at the top
    let order = [("編", "Part"), ("章", "Chapter"), ("節", "Section"), ("款", "Subsection"), ("目", "Division")];
    let from = choose(S_DOC, 2) as usize;
    let order = &order[from..(from + deep).min(5)];
    let mut nums = [0u32; 5];
    let mut places = vec!["/MainProvision".to_string()];
    let mut level = 0;
    for _ in 0..1 + choose(S_DOC, 4) {
      let to = choose(S_DOC, order.len() as u32) as usize;
      for l in level.min(to)..=to {
        nums[l] += 1;
        for x in &mut nums[l + 1..] {
          *x = 0;
        }
        let (h, a) = heading(nums[l], order[l].0);
        let t = ["総則", "通則", "雑則"][choose(S_DOC, 3) as usize];
        places.truncate(l + 1);
        places.push(format!("{}/{}{a}", places[l], order[l].1));
        v.push((format!("{h}{}{t}", sp()), Piece { text: t.into(), place: places[l + 1].clone(), ..Default::default() }));
      }
      level = to;
      let c = 1 + choose(S_DOC, 2);
      articles(&mut v, &places[to + 1], c);
    }
  }
  for k in 1..=choose(S_DOC, 4) {
    let (label, of) = [
      ("附　則", ""),
      ("附則", ""),
      ("附　則　（平成十一年七月一六日法律第八七号）", "平成十一年七月一六日法律第八七号"),
      ("附則（昭和三一年四月二日法律第六三号）", "昭和三一年四月二日法律第六三号"),
    ][choose(S_DOC, 4) as usize];
    v.push((label.into(), Piece::default()));
    let place = format!("/SupplProvision{k}({of})");
    match choose(S_DOC, 4) {
      2 => paragraphs(&mut v, &place),
      3 => {
        let t = words();
        paragraph(&mut v, "", &place, 1, "", t);
      }
      _ => {
        let c = 1 + choose(S_DOC, 2);
        articles(&mut v, &place, c);
      }
    }
  }
  v
}

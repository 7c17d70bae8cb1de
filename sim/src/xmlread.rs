//! An independent reader for XML 1.0 without a document type: strict about
//! well-formedness, used to judge what the library writes and which damaged
//! inputs are still documents. Shares no code with the library's XML stack.
use crate::doc::*;

pub struct Rd<'a> {
  s: &'a [u8],
  i: usize,
  /// also take what the listed findings markup-in-attribute and nameless-pi are about
  lax: bool,
}
type R<T> = Result<T, String>;

fn name_char(c: u8) -> bool {
  c.is_ascii_alphanumeric() || matches!(c, b'_' | b'-' | b'.' | b':') || c >= 0x80
}
fn legal(c: char) -> bool {
  matches!(c as u32, 9 | 10 | 13 | 0x20..=0xd7ff | 0xe000..=0xfffd | 0x10000..=0x10ffff)
}

impl Rd<'_> {
  fn err<T>(&self, m: &str) -> R<T> {
    Err(format!("{m} at byte {}", self.i))
  }
  fn at(&self, t: &str) -> bool {
    self.s[self.i..].starts_with(t.as_bytes())
  }
  fn ws(&mut self) -> bool {
    let b = self.i;
    while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\t' | b'\r' | b'\n') {
      self.i += 1;
    }
    self.i > b
  }
  fn name(&mut self) -> R<String> {
    let b = self.i;
    while self.i < self.s.len() && name_char(self.s[self.i]) {
      self.i += 1;
    }
    if b == self.i || matches!(self.s[b], b'0'..=b'9' | b'-' | b'.') {
      return self.err("bad name");
    }
    Ok(String::from_utf8_lossy(&self.s[b..self.i]).into_owned())
  }
  fn until(&mut self, t: &str) -> R<String> {
    let b = self.i;
    while self.i < self.s.len() {
      if self.at(t) {
        let r = String::from_utf8_lossy(&self.s[b..self.i]).into_owned();
        self.i += t.len();
        return Ok(r);
      }
      self.i += 1;
    }
    self.err(&format!("missing {t}"))
  }
  fn reference(&mut self) -> R<char> {
    // after '&'
    let b = self.i;
    let body = {
      while self.i < self.s.len() && self.s[self.i] != b';' && self.i - b < 12 {
        self.i += 1;
      }
      if self.i >= self.s.len() || self.s[self.i] != b';' {
        return self.err("bad reference");
      }
      let t = String::from_utf8_lossy(&self.s[b..self.i]).into_owned();
      self.i += 1;
      t
    };
    let c = match body.as_str() {
      "lt" => '<',
      "gt" => '>',
      "amp" => '&',
      "quot" => '"',
      "apos" => '\'',
      _ => {
        let v = if let Some(h) = body.strip_prefix("#x") {
          u32::from_str_radix(h, 16).ok()
        } else if let Some(d) = body.strip_prefix('#') {
          d.parse::<u32>().ok()
        } else {
          None
        };
        match v.and_then(char::from_u32) {
          Some(c) if legal(c) => c,
          _ => return self.err("bad reference"),
        }
      }
    };
    Ok(c)
  }
  fn comment(&mut self) -> R<()> {
    // after "<!--"
    let b = self.i;
    let c = self.until("-->")?;
    if c.contains("--") || c.ends_with('-') {
      self.i = b;
      return self.err("-- in comment");
    }
    Ok(())
  }
  fn pi(&mut self) -> R<()> {
    if self.lax && self.ws() {
      return self.until("?>").map(|_| ());
    }
    let n = self.name()?;
    if n.eq_ignore_ascii_case("xml") {
      return self.err("misplaced declaration");
    }
    self.until("?>")?;
    Ok(())
  }
  fn misc(&mut self) -> R<()> {
    loop {
      self.ws();
      if self.at("<!--") {
        self.i += 4;
        self.comment()?;
      } else if self.at("<?") {
        self.i += 2;
        self.pi()?;
      } else {
        return Ok(());
      }
    }
  }
  fn open_tag(&mut self) -> R<(Elem, bool)> {
    // after '<'
    let mut e = Elem { name: self.name()?, ..Default::default() };
    loop {
      let sp = self.ws();
      if self.i >= self.s.len() {
        return self.err("unterminated tag");
      }
      if self.at("/>") {
        self.i += 2;
        return Ok((e, true));
      }
      if self.at(">") {
        self.i += 1;
        return Ok((e, false));
      }
      if !sp {
        return self.err("missing space before attribute");
      }
      let n = self.name()?;
      self.ws();
      if !self.at("=") {
        return self.err("missing =");
      }
      self.i += 1;
      self.ws();
      if self.i >= self.s.len() {
        return self.err("unterminated attribute");
      }
      let q = self.s[self.i];
      if q != b'"' && q != b'\'' {
        return self.err("unquoted attribute");
      }
      self.i += 1;
      let mut v: Vec<u8> = Vec::new();
      loop {
        if self.i >= self.s.len() {
          return self.err("unterminated attribute");
        }
        match self.s[self.i] {
          c if c == q => {
            self.i += 1;
            break;
          }
          b'<' if !(self.lax && ["</", "<?", "<!--", "<![CDATA[", "<!DOCTYPE"].iter().any(|t| self.at(t))) => return self.err("< in attribute"),
          b'&' => {
            self.i += 1;
            let c = self.reference()?;
            let mut b = [0; 4];
            v.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
          }
          b'\r' => {
            v.push(b' ');
            self.i += 1;
            if self.i < self.s.len() && self.s[self.i] == b'\n' {
              self.i += 1;
            }
          }
          b'\n' | b'\t' => {
            v.push(b' ');
            self.i += 1;
          }
          c => {
            v.push(c);
            self.i += 1;
          }
        }
      }
      if e.attrs.iter().any(|a| a.0 == n) {
        return self.err("duplicate attribute");
      }
      e.attrs.push((n, String::from_utf8_lossy(&v).into_owned()));
    }
  }
}

fn push_text(e: &mut Elem, t: &[u8]) {
  if t.is_empty() {
    return;
  }
  let t = String::from_utf8_lossy(t).into_owned();
  if let Some(Node::Text(p)) = e.kids.last_mut() {
    p.push_str(&t);
  } else {
    e.kids.push(Node::Text(t));
  }
}

/// Reads one document; comments and processing instructions are not kept.
pub fn read(s: &[u8]) -> R<Elem> {
  read_as(s, false)
}
/// Not a document, but of a shape that is listed in known-findings.txt as loaded all the same.
pub fn listed_shape(s: &[u8]) -> bool {
  read_as(s, true).is_ok()
}
fn read_as(s: &[u8], lax: bool) -> R<Elem> {
  let text = match std::str::from_utf8(s) {
    Ok(t) => t,
    Err(e) => return Err(format!("not UTF-8 at byte {}", e.valid_up_to())),
  };
  if let Some((i, c)) = text.char_indices().find(|(_, c)| !legal(*c)) {
    return Err(format!("character U+{:04X} not allowed at byte {i}", c as u32));
  }
  let mut r = Rd { s, i: 0, lax };
  if r.at("\u{feff}") {
    r.i += 3;
  }
  if r.at("<?xml") && r.s.len() > r.i + 5 && !name_char(r.s[r.i + 5]) {
    r.i += 5;
    let b = r.i;
    r.until("?>")?;
    let d = String::from_utf8_lossy(&r.s[b..r.i]).into_owned();
    if !d.contains("version") {
      return r.err("declaration without version");
    }
  }
  r.misc()?;
  if !r.at("<") {
    return r.err("no root element");
  }
  r.i += 1;
  let (root, empty) = r.open_tag()?;
  if empty {
    r.misc()?;
    return if r.i == s.len() { Ok(root) } else { r.err("content after the root element") };
  }
  let mut stack = vec![root];
  let mut buf: Vec<u8> = Vec::new();
  loop {
    if r.i >= s.len() {
      return r.err(&format!("end of input inside <{}>", stack.last().unwrap().name));
    }
    match s[r.i] {
      b'<' => {
        if r.at("<![CDATA[") {
          r.i += 9;
          let t = r.until("]]>")?;
          buf.extend_from_slice(t.replace("\r\n", "\n").replace('\r', "\n").as_bytes());
          continue;
        }
        if r.at("<!--") {
          r.i += 4;
          r.comment()?;
          continue;
        }
        if r.at("<?") {
          r.i += 2;
          r.pi()?;
          continue;
        }
        push_text(stack.last_mut().unwrap(), &buf);
        buf.clear();
        if r.at("</") {
          r.i += 2;
          let n = r.name()?;
          r.ws();
          if !r.at(">") {
            return r.err("bad end tag");
          }
          r.i += 1;
          let e = stack.pop().unwrap();
          if e.name != n {
            return r.err(&format!("<{}> closed by </{n}>", e.name));
          }
          match stack.last_mut() {
            Some(p) => p.kids.push(Node::Elem(e)),
            None => {
              r.misc()?;
              return if r.i == s.len() { Ok(e) } else { r.err("content after the root element") };
            }
          }
        } else {
          r.i += 1;
          let (e, empty) = r.open_tag()?;
          if empty {
            stack.last_mut().unwrap().kids.push(Node::Elem(e));
          } else {
            stack.push(e);
          }
        }
      }
      b'&' => {
        r.i += 1;
        let c = r.reference()?;
        let mut b = [0; 4];
        buf.extend_from_slice(c.encode_utf8(&mut b).as_bytes());
      }
      b'\r' => {
        buf.push(b'\n');
        r.i += 1;
        if r.i < s.len() && s[r.i] == b'\n' {
          r.i += 1;
        }
      }
      b']' if r.at("]]>") => return r.err("]]> in text"),
      c => {
        buf.push(c);
        r.i += 1;
      }
    }
  }
}

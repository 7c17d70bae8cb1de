//! Written bytes as a stream of tags (attributes as a set) and exact texts.
use crate::shared::hash_bytes;

#[derive(Debug, PartialEq, Clone)]
pub enum Tok {
  Tag(String, Vec<String>),
  Text(Vec<u8>),
}
/// Splits written bytes into tags (attributes as a set) and texts. The last token
/// may be cut: `open` is then its raw bytes.
pub fn tokens(b: &[u8]) -> (Vec<Tok>, Option<Vec<u8>>) {
  let mut v = Vec::new();
  let mut i = 0;
  while i < b.len() {
    if b[i] == b'<' {
      // find the end outside quotes
      let mut j = i + 1;
      let mut q = 0u8;
      while j < b.len() && (q != 0 || b[j] != b'>') {
        if q == 0 && (b[j] == b'"' || b[j] == b'\'') {
          q = b[j];
        } else if q == b[j] {
          q = 0;
        }
        j += 1;
      }
      if j >= b.len() {
        return (v, Some(b[i..].to_vec()));
      }
      v.push(tag(&b[i..=j]));
      i = j + 1;
    } else {
      let mut j = i;
      while j < b.len() && b[j] != b'<' {
        j += 1;
      }
      if j >= b.len() {
        return (v, Some(b[i..].to_vec()));
      }
      v.push(Tok::Text(b[i..j].to_vec()));
      i = j;
    }
  }
  (v, None)
}
pub fn tag_parts(t: &[u8]) -> Vec<String> {
  // split at spaces outside quotes
  let mut out = vec![String::new()];
  let mut q = None;
  for c in String::from_utf8_lossy(t).chars() {
    match q {
      Some(x) if x == c => {
        q = None;
        out.last_mut().unwrap().push(c);
      }
      Some(_) => out.last_mut().unwrap().push(c),
      None if c == '"' || c == '\'' => {
        q = Some(c);
        out.last_mut().unwrap().push(c);
      }
      None if c == ' ' || c == '\n' => out.push(String::new()),
      None => out.last_mut().unwrap().push(c),
    }
  }
  out
}
fn tag(t: &[u8]) -> Tok {
  let body = &t[1..t.len() - 1];
  let (body, close) = if body.ends_with(b"/") { (&body[..body.len() - 1], "/") } else { (body, "") };
  let mut p = tag_parts(body);
  let name = p.remove(0) + close;
  p.retain(|s| !s.is_empty());
  p.sort();
  Tok::Tag(name, p)
}
/// A hash of the bytes written, up to the order of attributes inside a tag.
pub fn layout_hash(b: &[u8]) -> u64 {
  let (t, open) = tokens(b);
  hash_bytes(format!("{t:?}{open:?}").as_bytes())
}

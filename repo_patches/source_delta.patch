From 1810ab1e3763b7e1b0d71ae968e6e7cd7fd642f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 01/31] fix: text parsing no longer prints debug output to
 standard output

---
 src/article_number.rs  | 2 --
 src/parse_from_text.rs | 2 --
 2 files changed, 4 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 65b3a53..a20a557 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -563,7 +563,6 @@ fn check_parse_article_number() {
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
-    println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
         m.as_str()
@@ -606,7 +605,6 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
       None
     }
   } else {
-    println!("err!!");
     None
   }
 }
diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index af25bc6..89377dc 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -945,7 +945,6 @@ fn parse_line_contents(line: &str) -> LineContents {
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
   } else if let Some((s, text)) = split_number(line) {
-    println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
         Part(article_number, text)
@@ -965,7 +964,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else if let Some(item_number) = article_number::parse_item_number(&s) {
       Item(item_number, text)
     } else {
-      println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
   } else if let Some(caps) = re_suppl_provision.captures(line) {
-- 
2.43.0


From cd9660f20967c4cf136ea9f66668fce5d6f2be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 02/31] fix: parse_body consumes every line it handles instead
 of looping forever

---
 src/parse_from_text.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 89377dc..98c82d7 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -804,8 +804,8 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       LineContents::Text(s) => {
         if is_preamble {
           preamble_text_list.push(s.to_string());
-          lines.next();
         }
+        lines.next();
       }
       LineContents::SupplProvision(law_num) => {
         if let Some(amend_law_num) = suppl_provision_law_num_opt {
@@ -821,6 +821,7 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         }
         suppl_provision_law_num_opt = Some(law_num.clone());
         suppl_provision_children = Vec::new();
+        lines.next();
       }
       _ => break,
     }
-- 
2.43.0


From 1bb940a0dd805b1d2cb77bc737dddab0147906f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:03 +0000
Subject: [PATCH 03/31] fix: an item of an outer or unknown level ends the
 subitem list instead of panicking

---
 src/parse_from_text.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 98c82d7..bdd65c1 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -333,7 +333,7 @@ fn parse_subitem1(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -377,7 +377,7 @@ fn parse_subitem2(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -421,7 +421,7 @@ fn parse_subitem3(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -465,7 +465,7 @@ fn parse_subitem4(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -509,7 +509,7 @@ fn parse_subitem5(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -553,7 +553,7 @@ fn parse_subitem6(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -597,7 +597,7 @@ fn parse_subitem7(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -641,7 +641,7 @@ fn parse_subitem8(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -685,7 +685,7 @@ fn parse_subitem9(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -722,7 +722,7 @@ fn parse_subitem10(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
-- 
2.43.0


From f2b89a0e30bdca5ee486617b5be56921b2c49c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:19 +0000
Subject: [PATCH 04/31] fix: numerals that do not parse make the line plain
 text instead of panicking

---
 src/article_number.rs | 69 +++++++++++++++----------------------------
 1 file changed, 23 insertions(+), 46 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index a20a557..ccfe4ec 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -217,7 +217,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   if let Some(caps) = re_article.captures(str) {
     // 編-条
     let base_number = if let Some(arabic_num) = caps.name("arabic_num") {
-      arabic_num.as_str().parse::<usize>().unwrap()
+      arabic_num.as_str().parse::<usize>().ok()?
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
@@ -249,7 +249,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     let mut range_end_numbers = Vec::new();
     if let Some(arabic_num) = caps.name("arabic_num_2") {
-      range_end_numbers.push(arabic_num.as_str().parse::<usize>().unwrap())
+      range_end_numbers.push(arabic_num.as_str().parse::<usize>().ok()?)
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
@@ -285,19 +285,20 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     let base_number = if let Ok(n) = &caps["num"].parse::<usize>() {
       *n
     } else {
-      parse_zenkaku_num(&caps["num"]).unwrap()
+      parse_zenkaku_num(&caps["num"])?
     };
     let eda_numbers = &caps["eda_str"]
+      .replace('ノ', "の")
       .split('の')
       .filter(|s| !s.is_empty())
       .map(|s| {
         if let Ok(n) = s.parse::<usize>() {
-          n
+          Some(n)
         } else {
-          parse_zenkaku_num(s).unwrap()
+          parse_zenkaku_num(s)
         }
       })
-      .collect::<Vec<usize>>();
+      .collect::<Option<Vec<usize>>>()?;
     let mut range_end_numbers = Vec::new();
     if let Some(m) = caps.name("num_2") {
       if let Ok(n) = m.as_str().parse::<usize>() {
@@ -439,74 +440,50 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
-      (
-        ParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_iroha_hiragana") {
-      (
-        ParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (ParenKansuji, n as usize)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
-      (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     }
     // 括弧なし
     else if let Some(s) = caps.name("no_paren_iroha_katakana") {
-      (
-        NoParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_iroha_hiragana") {
-      (
-        NoParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (NoParenKansuji, n as usize)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
-      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else {
       unreachable!()
-- 
2.43.0


From ba54be2e8ca8344232520c3153d6a18a937c7242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 05/31] fix: a promulgation date that does not exist or
 precedes Meiji is an error instead of a panic

---
 src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63925fa..1016345 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -80,13 +80,14 @@ pub fn parse_text(
   law_num: String,
   title: &str,
 ) -> Result<law::Law> {
+  let date_str = || format!("{year}-{}-{}", month.unwrap_or(1), day.unwrap_or(1));
   let date = Date::from_ymd(
     year as i32,
     month.unwrap_or(1) as u32,
     day.unwrap_or(1) as u32,
   )
-  .unwrap();
-  let e = era(&date).unwrap();
+  .map_err(|_| result::Error::ParsingError("Date".to_string(), date_str()))?;
+  let e = era(&date).ok_or_else(|| result::Error::ParsingError("Era".to_string(), date_str()))?;
   let era = match e.name().as_str() {
     "明治" => law::Era::Meiji,
     "大正" => law::Era::Taisho,
-- 
2.43.0


From 6711bc5f87edfc66b49bdebe893cd69606f94e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 06/31] fix: a law without the optional Num attribute loads
 instead of panicking

---
 src/law.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 6a8c383..fbff3ce 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -61,11 +61,9 @@ impl Parser for Law {
         }
       };
       let year = get_attribute_with_parse(element, "Year")?;
-      let num_str = element.attributes.get("Num").unwrap();
-      let num = if num_str.is_empty() {
-        None
-      } else {
-        Some(ArticleNumber::from_str(num_str)?)
+      let num = match element.attributes.get("Num") {
+        Some(num_str) if !num_str.is_empty() => Some(ArticleNumber::from_str(num_str)?),
+        _ => None,
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
-- 
2.43.0


From a014859227c61914851a6b8ed1569a1e34894333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 07/31] fix: an article holding only its caption and title
 loads instead of panicking

---
 src/article.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/article.rs b/src/article.rs
index 5316e62..baec35f 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -651,7 +651,9 @@ impl Parser for Article {
             break;
           }
         }
-        let next = children.next().unwrap();
+        let Some(next) = children.next() else {
+          break;
+        };
         if let XMLNode::Element(e) = next {
           match e.name.as_str() {
             "ArticleCaption" => {
-- 
2.43.0


From bcfe78edb47b3cf9184ff9cf85c7345e6327a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 08/31] fix: double lines stay double and a line without Style
 gets the schema default

---
 src/line.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 9d4a2cb..04fdc34 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -105,7 +105,8 @@ impl LineStyle {
       Some("solid") => Some(LineStyle::Solid),
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
-      Some("double") => Some(LineStyle::Dotted),
+      Some("double") => Some(LineStyle::Double),
+      None => Some(LineStyle::Solid),
       _ => None,
     }
   }
-- 
2.43.0


From e21aa549d27cf178dbe993612a4b95faa02fb781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 09/31] fix: the preamble label of a table of contents keeps
 its tag name

---
 src/table_of_contents.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 8417bf2..9fffb87 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -89,8 +89,9 @@ impl ToXmlElement for TOC {
         .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
     }
     if let Some(label) = &self.toc_preamble_label {
-      e.children
-        .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
+      e.children.push(XMLNode::Element(
+        label.to_xml_element_with_name("TOCPreambleLabel"),
+      ));
     }
     for v in self.toc_main_contents.iter() {
       match v {
-- 
2.43.0


From c17017be982c867c2cb34bf1ecda0ced4eee21fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 10/31] fix: the label of remarks is written

---
 src/remarks.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/remarks.rs b/src/remarks.rs
index 3cc1b79..3ce447c 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -56,6 +56,8 @@ impl Parser for Remarks {
 impl ToXmlElement for Remarks {
   fn to_xml_element(&self) -> Element {
     let mut e = Element::new("Remarks");
+    e.children
+      .push(XMLNode::Element(self.label.to_xml_element()));
     for n in self.children.iter() {
       match n {
         RemarksContents::Item(v) => {
-- 
2.43.0


From 65ff642cdf8ffe92ca59d09688119aa49aec29be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 11/31] fix: table column alignment is written under its own
 attributes

---
 src/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9a9c7b7..b1cab15 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -309,10 +309,10 @@ impl ToXmlElement for TableColumn {
       e.attributes.insert("colspan".to_string(), s.clone());
     }
     if let Some(a) = &self.align {
-      e.attributes.insert("rowspan".to_string(), a.to_attribute());
+      e.attributes.insert("Align".to_string(), a.to_attribute());
     }
     if let Some(v) = &self.valign {
-      e.attributes.insert("rowspan".to_string(), v.to_attribute());
+      e.attributes.insert("Valign".to_string(), v.to_attribute());
     }
     for n in self.contents.iter() {
       match n {
-- 
2.43.0


From 983528499c47d19e2a8c50424cf65f9c71610aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:59 +0000
Subject: [PATCH 12/31] fix: the end of a number range is written once, after
 the branch numbers

---
 src/article_number.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index ccfe4ec..ef7432a 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -25,15 +25,15 @@ impl ArticleNumber {
     for n in self.eda_numbers.iter() {
       s.push('_');
       s.push_str(&n.to_string());
-      if !self.range_end_numbers.is_empty() {
-        let l = &self.range_end_numbers;
-        let mut l = l.iter();
-        s.push(':');
-        s.push_str(&l.next().unwrap().to_string());
-        for n in l {
-          s.push('_');
-          s.push_str(&n.to_string());
-        }
+    }
+    if !self.range_end_numbers.is_empty() {
+      let l = &self.range_end_numbers;
+      let mut l = l.iter();
+      s.push(':');
+      s.push_str(&l.next().unwrap().to_string());
+      for n in l {
+        s.push('_');
+        s.push_str(&n.to_string());
       }
     }
     s
-- 
2.43.0


From dc43233fc18cddebf3ad651b26eef2beb5ee7006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 13/31] fix: new provisions of an amendment are written as
 NewProvision

---
 src/law.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/law.rs b/src/law.rs
index fbff3ce..b5c2ff2 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -890,7 +890,7 @@ impl ToXmlElement for AmendProvision {
       e.children.push(XMLNode::Element(se));
     }
     for v in self.new_provision.iter() {
-      let mut se = Element::new("AmendProvisionSentence");
+      let mut se = Element::new("NewProvision");
       match v {
         NewProvision::LawTitle(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
         NewProvision::Preamble(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
-- 
2.43.0


From d66752027d90ffa4cf9761a600b71da5eab641e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 14/31] fix: supplementary appendices are written under their
 own tag names

---
 src/suppl_provision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index c7c5f69..7f40d44 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -210,7 +210,7 @@ impl ToXmlElement for SupplProvisionAppdxTable {
     e.children.push(XMLNode::Element(
       self
         .title
-        .to_xml_element_with_name("SupplProvisionAppdxTableitle"),
+        .to_xml_element_with_name("SupplProvisionAppdxTableTitle"),
     ));
     if let Some(t) = &self.related_article_num {
       e.children.push(XMLNode::Element(
@@ -347,7 +347,7 @@ impl Parser for SupplProvisionAppdx {
 
 impl ToXmlElement for SupplProvisionAppdx {
   fn to_xml_element(&self) -> Element {
-    let mut e = Element::new("Appdx");
+    let mut e = Element::new("SupplProvisionAppdx");
     if let Some(v) = &self.arith_formula_num {
       e.children.push(XMLNode::Element(
         v.to_xml_element_with_name("ArithFormulaNum"),
-- 
2.43.0


From 79e466c1779966ff2afa20636a4fe13bdf77852a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 15/31] fix: the related article number of an appendix is
 written under its own tag name

---
 src/appdx.rs           | 2 +-
 src/suppl_provision.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index 6d17c9b..d739d31 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -401,7 +401,7 @@ impl ToXmlElement for Appdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 7f40d44..a013743 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -355,7 +355,7 @@ impl ToXmlElement for SupplProvisionAppdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 27d3b4aa2a9feae4fe13af4d8541e1b2dad3adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 16/31] fix: the Num attribute of an arithmetic formula is
 written

---
 src/contents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contents.rs b/src/contents.rs
index bde732d..b1ec490 100644
--- a/src/contents.rs
+++ b/src/contents.rs
@@ -312,6 +312,10 @@ impl Parser for ArithFormula {
 
 impl ToXmlElement for ArithFormula {
   fn to_xml_element(&self) -> Element {
-    self.contentes.to_xml_element_with_name("ArithFormula")
+    let mut e = self.contentes.to_xml_element_with_name("ArithFormula");
+    if let Some(n) = &self.num {
+      e.attributes.insert("Num".to_string(), n.to_string());
+    }
+    e
   }
 }
-- 
2.43.0


From fd881a07e9039c19c2e91b9f8da461c7f6fab71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 17/31] fix: an item saved without a number loads again

---
 src/paragraph.rs | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index baa7a5e..62ff806 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -196,8 +196,8 @@ impl Item {
 impl Parser for Item {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Item" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -340,8 +340,8 @@ impl Subitem1 {
 impl Parser for Subitem1 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem1" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -484,8 +484,8 @@ impl Subitem2 {
 impl Parser for Subitem2 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem2" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -628,8 +628,8 @@ impl Subitem3 {
 impl Parser for Subitem3 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem3" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -772,8 +772,8 @@ impl Subitem4 {
 impl Parser for Subitem4 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem4" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -916,8 +916,8 @@ impl Subitem5 {
 impl Parser for Subitem5 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem5" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1060,8 +1060,8 @@ impl Subitem6 {
 impl Parser for Subitem6 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem6" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1204,8 +1204,8 @@ impl Subitem7 {
 impl Parser for Subitem7 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem7" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1348,8 +1348,8 @@ impl Subitem8 {
 impl Parser for Subitem8 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem8" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1492,8 +1492,8 @@ impl Subitem9 {
 impl Parser for Subitem9 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem9" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
@@ -1633,8 +1633,8 @@ impl Subitem10 {
 impl Parser for Subitem10 {
   fn parser(element: &Element) -> result::Result<Self> {
     if element.name.as_str() == "Subitem10" {
-      let num =
-        ArticleNumber::from_num_str(&get_attribute_with_parse::<String>(element, "Num")?).ok();
+      let num = get_attribute_opt_with_parse::<String>(element, "Num")?
+        .and_then(|s| ArticleNumber::from_num_str(&s).ok());
       let delete = get_attribute_opt_with_parse(element, "Delete")?.unwrap_or(false);
       let hide = get_attribute_opt_with_parse(element, "Hide")?.unwrap_or(false);
       let mut title = None;
-- 
2.43.0


From 1952348c76955972a6fef5b655ce602aff0b566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:59 +0000
Subject: [PATCH 18/31] fix: comments, processing instructions and CDATA
 sections no longer lose or split content

---
 src/lib.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1016345..cd5153a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,15 +49,42 @@ use koyomi::{era, Date};
 use result::*;
 use std::io::{Read, Write};
 use to_xml::ToXmlElement;
-use xmltree::Element;
+use xmltree::{Element, XMLNode};
 
 /// XML文字列を法律の構造体に変換する
 pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
-  let element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  let mut element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  normalize(&mut element);
   let law = law::Law::parser(&element)?;
   Ok(law)
 }
 
+/// コメントと処理命令を取り除き、連続する文字データを一つのテキストにまとめる
+fn normalize(element: &mut Element) {
+  let mut children: Vec<XMLNode> = Vec::with_capacity(element.children.len());
+  for node in element.children.drain(..) {
+    match node {
+      XMLNode::Comment(_) | XMLNode::ProcessingInstruction(_, _) => (),
+      XMLNode::Element(mut e) => {
+        normalize(&mut e);
+        children.push(XMLNode::Element(e));
+      }
+      XMLNode::Text(s) | XMLNode::CData(s) => {
+        if let Some(XMLNode::Text(text)) = children.last_mut() {
+          text.push_str(&s);
+        } else {
+          children.push(XMLNode::Text(s));
+        }
+      }
+    }
+  }
+  // 空白のみの文字データはXMLの読み込みで無視されるものと同じ扱いにする
+  children.retain(|node| {
+    !matches!(node, XMLNode::Text(s) if s.chars().all(|c| matches!(c, ' ' | '\t' | '\r' | '\n')))
+  });
+  element.children = children;
+}
+
 /// ファイルのパスから法律の構造体に変換する
 pub fn parse_xml_file(path: &str) -> Result<law::Law> {
   let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?;
-- 
2.43.0


From 1890bf9fe5547a2a390a71e29e70c70532ae27d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 19/31] fix: paragraphs outside an article no longer end the
 parsing of a text

---
 src/parse_from_text.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index bdd65c1..4fbed32 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -801,6 +801,23 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
+      LineContents::Paragraph(n, text) => {
+        lines.next();
+        let mut para = parse_paragraph(n, text, &mut lines);
+        para.caption = caption_opt.map(|s| class::Caption {
+          text: text::Text::from_value(s),
+          common_caption: None,
+        });
+        if suppl_provision_law_num_opt.is_some() {
+          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+            para,
+          ))
+        } else {
+          main_provision_children.push(law::MainProvisionContents::Paragraph(para));
+        }
+        caption_opt = None;
+        is_preamble = false;
+      }
       LineContents::Text(s) => {
         if is_preamble {
           preamble_text_list.push(s.to_string());
-- 
2.43.0


From 956cc260d46753cb71affbfea867fc21d1ec066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 20/31] fix: the label of supplementary provisions is
 recognised in a text and what follows it is kept

---
 src/parse_from_text.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 4fbed32..8c5a805 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -819,10 +819,15 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         is_preamble = false;
       }
       LineContents::Text(s) => {
+        lines.next();
         if is_preamble {
           preamble_text_list.push(s.to_string());
+        } else if suppl_provision_law_num_opt.is_some() && !s.is_empty() {
+          let para = parse_paragraph(&ArticleNumber::from_num_str("1").unwrap(), s, &mut lines);
+          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+            para,
+          ))
         }
-        lines.next();
       }
       LineContents::SupplProvision(law_num) => {
         if let Some(amend_law_num) = suppl_provision_law_num_opt {
@@ -838,6 +843,8 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         }
         suppl_provision_law_num_opt = Some(law_num.clone());
         suppl_provision_children = Vec::new();
+        caption_opt = None;
+        is_preamble = false;
         lines.next();
       }
       _ => break,
@@ -959,9 +966,12 @@ fn parse_line_contents(line: &str) -> LineContents {
   let line = line.trim();
   let re_caption = Regex::new("^（(?<caption>[^）]+)）$").unwrap();
   let re_suppl_provision =
-    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?[^（）]*$").unwrap();
+    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?([　\s]*)抄?$").unwrap();
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
+  } else if let Some(caps) = re_suppl_provision.captures(line) {
+    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
+    SupplProvision(law_num)
   } else if let Some((s, text)) = split_number(line) {
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
@@ -984,9 +994,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else {
       Text(line.to_string())
     }
-  } else if let Some(caps) = re_suppl_provision.captures(line) {
-    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-    SupplProvision(law_num)
   } else {
     Text(line.to_string())
   }
-- 
2.43.0


From 26f184d9a6b7474a5180a531501c4d91bdbfa02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 21/31] fix: a line that has no place at the top level is
 skipped instead of ending the parsing of a text

---
 src/parse_from_text.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 8c5a805..47f3bfd 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -847,7 +847,10 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         is_preamble = false;
         lines.next();
       }
-      _ => break,
+      // ここに置けない行は、その行だけを読み飛ばす
+      _ => {
+        lines.next();
+      }
     }
   }
 
-- 
2.43.0


From ce8bc52d1059775fd44d96ebb75ee6c2a8c698fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:58 +0000
Subject: [PATCH 22/31] fix: the end of an item number range in a text is no
 longer lost

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index ef7432a..abefea2 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -553,12 +553,12 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
-      if let Some(m) = &caps.name("base_number_2") {
+      if let Some(m) = &caps.name("base_number2") {
         if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
           range_end_numbers.push(base_number2);
         }
       }
-      if let Some(m) = &caps.name("eda_number_2") {
+      if let Some(m) = &caps.name("eda_numbers2") {
         let eda_numbers2 = &m
           .as_str()
           .split('の')
-- 
2.43.0


From 61bb566c74d0398834cb9e308a1469aa749f5df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 23/31] fix: an item that follows a deeper subitem is no longer
 taken for a part of it

---
 src/parse_from_text.rs | 114 +++++++++++++++++++++++++++--------------
 1 file changed, 75 insertions(+), 39 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 47f3bfd..5d0b1bf 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -259,7 +259,7 @@ fn parse_paragraph(
     let mut subitem1 = Vec::new();
     if let Some(LineContents::Item(item_number_sub1, _)) = lines.peek() {
       if item_number_sub1.pattern != item_number.pattern {
-        subitem1 = parse_subitem1(item_number.pattern, item_number_sub1.pattern, lines);
+        subitem1 = parse_subitem1(&[item_number.pattern], item_number_sub1.pattern, lines);
       }
     }
     let item = paragraph::Item {
@@ -296,13 +296,13 @@ fn parse_paragraph(
 }
 
 fn parse_subitem1(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem1> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -313,8 +313,12 @@ fn parse_subitem1(
       }
       let mut subitem2 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem2 = parse_subitem2(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem2 = parse_subitem2(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem1 {
@@ -340,13 +344,13 @@ fn parse_subitem1(
 }
 
 fn parse_subitem2(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem2> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -357,8 +361,12 @@ fn parse_subitem2(
       }
       let mut subitem3 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem3 = parse_subitem3(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem3 = parse_subitem3(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem2 {
@@ -384,13 +392,13 @@ fn parse_subitem2(
 }
 
 fn parse_subitem3(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem3> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -401,8 +409,12 @@ fn parse_subitem3(
       }
       let mut subitem4 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem4 = parse_subitem4(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem4 = parse_subitem4(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem3 {
@@ -428,13 +440,13 @@ fn parse_subitem3(
 }
 
 fn parse_subitem4(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem4> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -445,8 +457,12 @@ fn parse_subitem4(
       }
       let mut subitem5 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem5 = parse_subitem5(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem5 = parse_subitem5(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem4 {
@@ -472,13 +488,13 @@ fn parse_subitem4(
 }
 
 fn parse_subitem5(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem5> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -489,8 +505,12 @@ fn parse_subitem5(
       }
       let mut subitem6 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem6 = parse_subitem6(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem6 = parse_subitem6(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem5 {
@@ -516,13 +536,13 @@ fn parse_subitem5(
 }
 
 fn parse_subitem6(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem6> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -533,8 +553,12 @@ fn parse_subitem6(
       }
       let mut subitem7 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem7 = parse_subitem7(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem7 = parse_subitem7(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem6 {
@@ -560,13 +584,13 @@ fn parse_subitem6(
 }
 
 fn parse_subitem7(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem7> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -577,8 +601,12 @@ fn parse_subitem7(
       }
       let mut subitem8 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem8 = parse_subitem8(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem8 = parse_subitem8(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem7 {
@@ -604,13 +632,13 @@ fn parse_subitem7(
 }
 
 fn parse_subitem8(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem8> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -621,8 +649,12 @@ fn parse_subitem8(
       }
       let mut subitem9 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem9 = parse_subitem9(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem9 = parse_subitem9(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem8 {
@@ -648,13 +680,13 @@ fn parse_subitem8(
 }
 
 fn parse_subitem9(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem9> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -665,8 +697,12 @@ fn parse_subitem9(
       }
       let mut subitem10 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem10 = parse_subitem10(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          subitem10 = parse_subitem10(
+            &[parent_patterns, &[now_pat]].concat(),
+            item_number.pattern,
+            lines,
+          );
         }
       }
       v.push(paragraph::Subitem9 {
@@ -692,13 +728,13 @@ fn parse_subitem9(
 }
 
 fn parse_subitem10(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem10> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
-- 
2.43.0


From 7a6c0d7e26e0f82ee73b2277ca973b4ff8c2562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:48 +0000
Subject: [PATCH 24/31] fix: roman item numbers with a V are recognised in a
 text

---
 src/article_number.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/article_number.rs b/src/article_number.rs
index abefea2..983257e 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -832,14 +832,17 @@ fn parse_roman(str: &str) -> Option<usize> {
   roman::from(
     &str
       .replace('i', "I")
+      .replace('v', "V")
       .replace('x', "X")
       .replace('l', "L")
       .replace('c', "C")
       .replace('ｉ', "I")
+      .replace('ｖ', "V")
       .replace('ｘ', "X")
       .replace('ｌ', "L")
       .replace('ｃ', "C")
       .replace('Ｉ', "I")
+      .replace('Ｖ', "V")
       .replace('Ｘ', "X")
       .replace('Ｌ', "L")
       .replace('Ｃ', "C"),
-- 
2.43.0


From 4ce5c43a8e9b71088243f1d062e70ce4927f321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:02 +0000
Subject: [PATCH 25/31] fix: a blank line after a heading no longer ends its
 part, chapter or section

---
 src/parse_from_text.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 5d0b1bf..82c4ef7 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -33,6 +33,10 @@ fn parse_part(
         children.push(article::PartContents::Chapter(chap));
         caption_opt = None;
       }
+      // 空行は構造に影響しない
+      Some(LineContents::Text(s)) if s.is_empty() => {
+        lines.next();
+      }
       _ => break,
     }
   }
@@ -74,6 +78,10 @@ fn parse_chapter(
         children.push(article::ChapterContents::Section(sec));
         caption_opt = None;
       }
+      // 空行は構造に影響しない
+      Some(LineContents::Text(s)) if s.is_empty() => {
+        lines.next();
+      }
       _ => break,
     }
   }
@@ -115,6 +123,10 @@ fn parse_section(
         children.push(article::SectionContents::Subsection(subsec));
         caption_opt = None;
       }
+      // 空行は構造に影響しない
+      Some(LineContents::Text(s)) if s.is_empty() => {
+        lines.next();
+      }
       _ => break,
     }
   }
@@ -156,6 +168,10 @@ fn parse_subsection(
         children.push(article::SubsectionContents::Division(div));
         caption_opt = None;
       }
+      // 空行は構造に影響しない
+      Some(LineContents::Text(s)) if s.is_empty() => {
+        lines.next();
+      }
       _ => break,
     }
   }
@@ -191,6 +207,10 @@ fn parse_division(
         children.push(article);
         caption_opt = None;
       }
+      // 空行は構造に影響しない
+      Some(LineContents::Text(s)) if s.is_empty() => {
+        lines.next();
+      }
       _ => break,
     }
   }
-- 
2.43.0


From e2e260a66e556412eb54c1c39bd1051bb93868ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:47 +0000
Subject: [PATCH 26/31] fix: a file with anything but one root element is
 refused instead of being cut after the first

---
 src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index cd5153a..42d9d11 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -53,7 +53,16 @@ use xmltree::{Element, XMLNode};
 
 /// XML文字列を法律の構造体に変換する
 pub fn parse_xml(xml: &[u8]) -> Result<law::Law> {
-  let mut element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;
+  let mut root: Option<Element> = None;
+  for node in Element::parse_all(xml).map_err(|_| Error::XMLParsing)? {
+    match node {
+      XMLNode::Element(e) if root.is_none() => root = Some(e),
+      XMLNode::Comment(_) | XMLNode::ProcessingInstruction(_, _) => (),
+      // 根となる要素は一つだけで、その外に文字データは書けない
+      _ => return Err(Error::XMLParsing),
+    }
+  }
+  let mut element = root.ok_or(Error::XMLParsing)?;
   normalize(&mut element);
   let law = law::Law::parser(&element)?;
   Ok(law)
-- 
2.43.0


From 9bfd81e6308c5d308b6cdb1b0092ab486fd539e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 27/31] fix: an article is listed under the numbers of the
 units that enclose it

---
 src/utils.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6b1029d..6582825 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -211,7 +211,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_part(Some(t.num.clone()));
+            w.set_part(Some(part.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -219,7 +219,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
       }
       PartContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_part(Some(t.num.clone()));
+        w.set_part(Some(part.num.clone()));
         v.push(w)
       }
     }
@@ -227,16 +227,16 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
+fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in chapter.children.iter() {
     match contents {
       ChapterContents::Section(t) => {
         let mut v2 = article_list_from_section(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_chapter(Some(t.num.clone()));
+            w.set_chapter(Some(chapter.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -244,7 +244,7 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
       }
       ChapterContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_chapter(Some(t.num.clone()));
+        w.set_chapter(Some(chapter.num.clone()));
         v.push(w)
       }
     }
@@ -252,16 +252,16 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
+fn article_list_from_section(section: &Section) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in section.children.iter() {
     match contents {
       SectionContents::Subsection(t) => {
         let mut v2 = article_list_from_subsection(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -272,7 +272,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -280,7 +280,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
       }
       SectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_section(Some(t.num.clone()));
+        w.set_section(Some(section.num.clone()));
         v.push(w)
       }
     }
@@ -289,16 +289,16 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
 }
 
 #[allow(clippy::too_many_arguments)]
-fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
+fn article_list_from_subsection(subsection: &Subsection) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in subsection.children.iter() {
     match contents {
       SubsectionContents::Division(t) => {
         let mut v2 = article_list_from_division(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_subsection(Some(t.num.clone()));
+            w.set_subsection(Some(subsection.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -306,7 +306,7 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
       }
       SubsectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_subsection(Some(t.num.clone()));
+        w.set_subsection(Some(subsection.num.clone()));
         v.push(w)
       }
     }
-- 
2.43.0


From ac1e7a87d9ad4808f2c363c415e3e34e4ceb70d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:42 +0000
Subject: [PATCH 28/31] fix: Toc::set_article sets the article's number, not
 the division's

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6582825..19f4296 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -940,7 +940,7 @@ impl Toc {
     self.division_number = num;
   }
   pub fn set_article(&mut self, num: Option<ArticleNumber>) {
-    self.division_number = num;
+    self.article_number = num;
   }
   pub fn set_title(&mut self, title: Option<String>) {
     self.title = title;
-- 
2.43.0


From e13ada6de8e9119ad5cb2ff4488033339a01782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 29/31] fix: entries of the table of contents do not take over
 numbers of the entries before them

---
 src/utils.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 19f4296..8f8dd9d 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1029,12 +1029,13 @@ fn toc_list_from_part(t: &Part) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       PartContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       PartContents::Chapter(t) => {
-        let mut toc_list = toc_list_from_chapter(t, &mut toc);
+        let mut toc_list = toc_list_from_chapter(t, &mut toc.clone());
         v.append(&mut toc_list);
       }
     }
@@ -1051,9 +1052,10 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       ChapterContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       ChapterContents::Section(t) => {
         let mut toc_list = toc_list_from_section(t, &mut toc.clone());
@@ -1073,9 +1075,10 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SectionContents::Subsection(t) => {
         let mut toc_list = toc_list_from_subsection(t, &mut toc.clone());
@@ -1099,9 +1102,10 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SubsectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SubsectionContents::Division(t) => {
         let mut toc_list = toc_list_from_division(t, &mut toc.clone());
-- 
2.43.0


From fdef689fb6934c040b43e6db23ae8f4cb51a2578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:43 +0000
Subject: [PATCH 30/31] fix: the text of a Subitem6 that is a table is its
 table's text

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 8f8dd9d..541b73c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -629,7 +629,7 @@ fn text_list_from_subitem6(
         })
         .collect::<Vec<_>>()
         .join(" "),
-      SentenceOrColumnOrTable::Table(_) => String::new(),
+      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
     };
     v.push((
       TextIndex {
-- 
2.43.0


From 783a65b3cc0741ad20c933fda6862dd30c832e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:45 +0000
Subject: [PATCH 31/31] fix: a year, month or day outside the calendar's range
 is an error instead of another date

---
 src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 42d9d11..4795180 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -117,12 +117,13 @@ pub fn parse_text(
   title: &str,
 ) -> Result<law::Law> {
   let date_str = || format!("{year}-{}-{}", month.unwrap_or(1), day.unwrap_or(1));
+  let date_err = || result::Error::ParsingError("Date".to_string(), date_str());
   let date = Date::from_ymd(
-    year as i32,
-    month.unwrap_or(1) as u32,
-    day.unwrap_or(1) as u32,
+    i32::try_from(year).map_err(|_| date_err())?,
+    u32::try_from(month.unwrap_or(1)).map_err(|_| date_err())?,
+    u32::try_from(day.unwrap_or(1)).map_err(|_| date_err())?,
   )
-  .map_err(|_| result::Error::ParsingError("Date".to_string(), date_str()))?;
+  .map_err(|_| date_err())?;
   let e = era(&date).ok_or_else(|| result::Error::ParsingError("Era".to_string(), date_str()))?;
   let era = match e.name().as_str() {
     "明治" => law::Era::Meiji,
-- 
2.43.0


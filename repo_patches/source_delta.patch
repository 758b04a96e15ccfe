From 04a70100c95b2fee7f4d9e612b1e982c1952fa12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 01/10] verif: expose modifiers to the static analysis under
 cfg(chanoma_verif)

---
 src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 3172b26..09a93ef 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,3 +14,10 @@ pub use crate::chanoma::Chanoma;
 pub use corr::{Corr, Correspondence, Item, Synthesized};
 pub use position::Position;
 pub use table::{Table, TableBuilder};
+
+/// 静的解析用のフック。`--cfg chanoma_verif` を付けたときだけ、非公開の Modifier を公開します。
+#[cfg(chanoma_verif)]
+pub mod verif_hooks {
+    pub use crate::modifier::*;
+    pub use crate::modifier_kind::ModifierKind;
+}
-- 
2.43.0


From 5f28d02062b1c090c47a75619a97be1487c868d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 02/10] fix: correct CJK compatibility entries for U+339F,
 U+33A4 and U+33CD

---
 src/characters_set/cjk_compatibilities.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/characters_set/cjk_compatibilities.rs b/src/characters_set/cjk_compatibilities.rs
index a192adf..035904a 100644
--- a/src/characters_set/cjk_compatibilities.rs
+++ b/src/characters_set/cjk_compatibilities.rs
@@ -461,12 +461,12 @@ pub const SQUARE_MU_M: Correspondence<Linear> = Linear::new("\u{339B}", "µm").c
 pub const SQUARE_MM: Correspondence<Linear> = Linear::new("\u{339C}", "mm").corr(); // U+339C  ㎜  SQUARE MM   mm
 pub const SQUARE_CM: Correspondence<Linear> = Linear::new("\u{339D}", "cm").corr(); // U+339D  ㎝  SQUARE CM   cm
 pub const SQUARE_KM: Correspondence<Linear> = Linear::new("\u{339E}", "km").corr(); // U+339E  ㎞  SQUARE KM   km
-pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
+pub const SQUARE_MM_SQUARED: Correspondence<Linear> = Linear::new("\u{339F}", "mm2").corr(); // U+339F  ㎟  SQUARE MM SQUARED   mm2     平方ミリメートル
 pub const SQUARE_CM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A0}", "cm2").corr(); // U+33A0  ㎠  SQUARE CM SQUARED   cm2     平方センチメートル
 pub const SQUARE_M_SQUARED: Correspondence<Linear> = Linear::new("\u{33A1}", "m2").corr(); // U+33A1  ㎡  SQUARE M SQUARED    m2  平方メートル
 pub const SQUARE_KM_SQUARED: Correspondence<Linear> = Linear::new("\u{33A2}", "km2").corr(); // U+33A2  ㎢  SQUARE KM SQUARED   km2     平方キロメートル
 pub const SQUARE_MM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "mm3").corr(); // U+33A3  ㎣  SQUARE MM CUBED     mm3     立方ミリメートル
-pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A3}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
+pub const SQUARE_CM_CUBED: Correspondence<Linear> = Linear::new("\u{33A4}", "cm3").corr(); // U+33A4  ㎤  SQUARE CM CUBED     cm3     立方センチメートル
 pub const SQUARE_M_CUBED: Correspondence<Linear> = Linear::new("\u{33A5}", "m3").corr(); // U+33A5  ㎥  SQUARE M CUBED  m3  立方メートル
 pub const SQUARE_KM_CUBED: Correspondence<Linear> = Linear::new("\u{33A6}", "km3").corr(); // U+33A6  ㎦  SQUARE KM CUBED     km3     立方キロメートル
 pub const SQUARE_M_OVER_S: Correspondence<Linear> = Linear::new("\u{33A7}", "m/s").corr(); // U+33A7  ㎧  SQUARE M OVER S     m/s     メートル毎
@@ -508,7 +508,7 @@ pub const SQUARE_GY: Correspondence<Linear> = Linear::new("\u{33C9}", "Gy").corr
 pub const SQUARE_HA: Correspondence<Linear> = Linear::new("\u{33CA}", "ha").corr(); // U+33CA  ㏊  SQUARE HA   ha
 pub const SQUARE_HP: Correspondence<Linear> = Linear::new("\u{33CB}", "HP").corr(); // U+33CB  ㏋  SQUARE HP   HP
 pub const SQUARE_IN: Correspondence<Linear> = Linear::new("\u{33CC}", "in").corr(); // U+33CC  ㏌  SQUARE IN   in
-pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
+pub const SQUARE_KK: Correspondence<Linear> = Linear::new("\u{33CD}", "K.K.").corr(); // U+33CD  ㏍  SQUARE KK   K.K.
 pub const SQUARE_KM_CAPITAL: Correspondence<Linear> = Linear::new("\u{33CE}", "KM").corr(); // U+33CE  ㏎  SQUARE KM CAPITAL   KM
 pub const SQUARE_KT: Correspondence<Linear> = Linear::new("\u{33CF}", "kt").corr(); // U+33CF  ㏏  SQUARE KT   kt
 pub const SQUARE_LM: Correspondence<Linear> = Linear::new("\u{33D0}", "lm").corr(); // U+33D0  ㏐  SQUARE LM   lm
-- 
2.43.0


From 1d99977d5442ed1d0bf0eafef8819a679c5fc9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 03/10] fix: do not panic on an empty pipeline when debug
 logging is enabled

---
 src/chanoma.rs  | 2 +-
 src/modifier.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chanoma.rs b/src/chanoma.rs
index e0d7ddb..1fd0007 100644
--- a/src/chanoma.rs
+++ b/src/chanoma.rs
@@ -120,7 +120,7 @@ impl Chanoma {
     /// assert_eq!(chanoma.normalize("ﾁｬﾉﾏ"), "チャノマ");
     /// ```
     pub fn normalize(&self, text: &str) -> String {
-        if !log_enabled!(log::Level::Debug) {
+        if !log_enabled!(log::Level::Debug) || self.modifiers.is_empty() {
             self.modifiers
                 .iter()
                 .fold(text.to_string(), |acc, x| x.modify(&acc))
diff --git a/src/modifier.rs b/src/modifier.rs
index 4ffb993..6eae2e4 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -72,7 +72,7 @@ impl ModifiedRecords {
     // assert_eq!(modified.text(), "");
     // ```
     pub fn text(&self) -> &str {
-        &self.records.last().unwrap().text
+        self.records.last().map_or("", |record| &record.text)
     }
 
     // [ModifiedRecords] 構造体からすべての途中経過を取得します。
-- 
2.43.0


From 036a071882d6229dab772a802092a8bdaf005692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 04/10] fix: apply ligature translations in a fixed order

---
 src/modifier/ligature_translator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 2b33831..75a572c 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -15,7 +15,10 @@ pub struct LigatureTranslator {
 impl Modifier for LigatureTranslator {
     fn modify(&self, input: &str) -> String {
         let mut text = input.to_string();
-        for (from, to) in self.map.iter() {
+        // HashMap の走査順は実行ごとに変わるため、キーの順に適用して結果を一意にする
+        let mut entries = self.map.iter().collect::<Vec<_>>();
+        entries.sort();
+        for (from, to) in entries {
             text = text.replace(from, to);
         }
         text
-- 
2.43.0


From 1f3bfbde7a07932b7352c68a6e531ed909af174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:23 +0000
Subject: [PATCH 05/10] fix: report converted positions in text order

---
 src/modifier/character_converter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 5c2c687..0ba5cd8 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -90,6 +90,8 @@ impl Modifier for CharacterConverter {
                 }
             }
         }
+        // HashMap の走査順に依存しないように、位置の順に並べる
+        positions.sort();
 
         ModifiedRecord::new(
             ModifierKind::CharacterConverter(self.clone()),
-- 
2.43.0


From d2573f219a93950741678357ca028c8137703a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:39 +0000
Subject: [PATCH 06/10] fix: report malformed YAML configuration as an error
 instead of panicking

---
 src/file.rs                                   | 26 ++++++++++++++-----
 src/modifier.rs                               | 18 +++++++++++++
 src/modifier/character_converter.rs           | 12 +++------
 src/modifier/character_eliminator.rs          |  8 +++---
 src/modifier/consecutive_character_reducer.rs |  9 ++++---
 src/modifier/ligature_translator.rs           | 12 +++------
 src/modifier_kind.rs                          |  8 +++---
 7 files changed, 60 insertions(+), 33 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 85c3883..33a4dcc 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -51,6 +51,19 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
     wtr
 }
 
+// 設定値が期待した形でない場合のエラーを生成する
+fn invalid_yaml(expected: &str) -> Error {
+    Error::YamlFileLoadError(serde::de::Error::custom(format!("expected {}", expected)))
+}
+
+fn yaml_mapping(value: &serde_yaml::Value) -> Result<&serde_yaml::Mapping, Error> {
+    value.as_mapping().ok_or_else(|| invalid_yaml("a mapping"))
+}
+
+fn yaml_str(value: &serde_yaml::Value) -> Result<&str, Error> {
+    value.as_str().ok_or_else(|| invalid_yaml("a string"))
+}
+
 /// 設定ファイルの YAML ファイルのパスから置換テーブルを生成する関数です。
 ///
 /// ```
@@ -63,13 +76,14 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
     if let Some(map) = data.get("items") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
-            if value.is_sequence() {
-                for v in value.as_sequence().unwrap().iter() {
-                    items.push(Item::new(v.as_str().unwrap(), key.as_str().unwrap()));
+        for (key, value) in yaml_mapping(map)?.iter() {
+            let to = yaml_str(key)?;
+            if let Some(froms) = value.as_sequence() {
+                for from in froms.iter() {
+                    items.push(Item::new(yaml_str(from)?, to));
                 }
             } else {
-                items.push(Item::new(value.as_str().unwrap(), key.as_str().unwrap()));
+                items.push(Item::new(yaml_str(value)?, to));
             }
         }
     }
@@ -91,7 +105,7 @@ pub fn modifiers_from_yaml_path(path: impl AsRef<Path>) -> Result<Vec<ModifierKi
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut modifiers = Vec::new();
     if let Some(map) = data.get("modifiers") {
-        for (key, value) in map.as_mapping().unwrap().iter() {
+        for (key, value) in yaml_mapping(map)?.iter() {
             modifiers.push(ModifierKind::from_yaml_key_value(key, value)?);
         }
     }
diff --git a/src/modifier.rs b/src/modifier.rs
index 6eae2e4..94eb052 100644
--- a/src/modifier.rs
+++ b/src/modifier.rs
@@ -39,6 +39,24 @@ impl ModifiedRecord {
     }
 }
 
+// 設定値が期待した形でない場合のエラーを生成する
+pub(crate) fn invalid_value(expected: &str) -> Error {
+    Error::ModifierKindParseError(format!("expected {}.", expected))
+}
+
+// 設定値から文字列を取得する
+pub(crate) fn yaml_str(value: &serde_yaml::Value) -> Result<&str, Error> {
+    value.as_str().ok_or_else(|| invalid_value("a string"))
+}
+
+// 設定値から先頭の一文字を取得する
+pub(crate) fn yaml_char(value: &serde_yaml::Value) -> Result<char, Error> {
+    yaml_str(value)?
+        .chars()
+        .next()
+        .ok_or_else(|| invalid_value("a non-empty string"))
+}
+
 pub trait ModifierFromYamlValue {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error>
     where
diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 0ba5cd8..18a6653 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{invalid_value, yaml_char, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -105,14 +105,10 @@ impl ModifierFromYamlValue for CharacterConverter {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_mapping()
-            .unwrap()
+            .ok_or_else(|| invalid_value("a mapping"))?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().chars().next().unwrap();
-                let v = value.as_str().unwrap().chars().next().unwrap();
-                (k, v)
-            })
-            .collect::<HashMap<char, char>>();
+            .map(|(key, value)| Ok((yaml_char(key)?, yaml_char(value)?)))
+            .collect::<Result<HashMap<char, char>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier/character_eliminator.rs b/src/modifier/character_eliminator.rs
index 9307a40..cda8e98 100644
--- a/src/modifier/character_eliminator.rs
+++ b/src/modifier/character_eliminator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{invalid_value, yaml_char, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -39,10 +39,10 @@ impl ModifierFromYamlValue for CharacterEliminator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_sequence()
-            .unwrap()
+            .ok_or_else(|| invalid_value("a sequence"))?
             .iter()
-            .map(|v| v.as_str().unwrap().chars().next().unwrap())
-            .collect::<Vec<char>>();
+            .map(yaml_char)
+            .collect::<Result<Vec<char>, Error>>()?;
         Ok(Self::from_chars(map))
     }
 }
diff --git a/src/modifier/consecutive_character_reducer.rs b/src/modifier/consecutive_character_reducer.rs
index 0a07671..e7f7979 100644
--- a/src/modifier/consecutive_character_reducer.rs
+++ b/src/modifier/consecutive_character_reducer.rs
@@ -1,6 +1,6 @@
 //! 連続する同じ文字を一つにする Modifier のモジュールです。
 
-use super::{ModifiedRecord, Modifier};
+use super::{invalid_value, yaml_str, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -82,14 +82,17 @@ impl Modifier for ConsecutiveCharacterReducer {
 
 impl ModifierFromYamlValue for ConsecutiveCharacterReducer {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
-        Self::from_str(value.as_str().unwrap())
+        Self::from_str(yaml_str(value)?)
     }
 }
 
 impl FromStr for ConsecutiveCharacterReducer {
     type Err = Error;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let c = s.chars().next().unwrap();
+        let c = s
+            .chars()
+            .next()
+            .ok_or_else(|| invalid_value("a non-empty string"))?;
         Ok(Self::new(c))
     }
 }
diff --git a/src/modifier/ligature_translator.rs b/src/modifier/ligature_translator.rs
index 75a572c..4dfad03 100644
--- a/src/modifier/ligature_translator.rs
+++ b/src/modifier/ligature_translator.rs
@@ -1,4 +1,4 @@
-use super::{ModifiedRecord, Modifier};
+use super::{invalid_value, yaml_str, ModifiedRecord, Modifier};
 use crate::error::Error;
 use crate::modifier::ModifierFromYamlValue;
 use crate::modifier_kind::ModifierKind;
@@ -38,14 +38,10 @@ impl ModifierFromYamlValue for LigatureTranslator {
     fn from_yaml_value(value: &serde_yaml::Value) -> Result<Self, Error> {
         let map = value
             .as_mapping()
-            .unwrap()
+            .ok_or_else(|| invalid_value("a mapping"))?
             .iter()
-            .map(|(key, value)| {
-                let k = key.as_str().unwrap().to_string();
-                let v = value.as_str().unwrap().to_string();
-                (k, v)
-            })
-            .collect::<HashMap<String, String>>();
+            .map(|(key, value)| Ok((yaml_str(key)?.to_string(), yaml_str(value)?.to_string())))
+            .collect::<Result<HashMap<String, String>, Error>>()?;
         Ok(Self::from_map(map))
     }
 }
diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 234bb84..3f3e20b 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -7,7 +7,7 @@ use crate::modifier::ligature_translator::LigatureTranslator;
 use crate::modifier::neologdn::Neologdn;
 use crate::modifier::trim::Trim;
 use crate::modifier::ModifierFromYamlValue;
-use crate::modifier::{ModifiedRecord, Modifier};
+use crate::modifier::{yaml_str, ModifiedRecord, Modifier};
 use std::str::FromStr;
 
 #[derive(Clone, Debug, PartialEq, Eq)]
@@ -116,7 +116,7 @@ impl ModifierKind {
         key: &serde_yaml::Value,
         value: &serde_yaml::Value,
     ) -> Result<Self, Error> {
-        match key.as_str().unwrap() {
+        match yaml_str(key)? {
             "character_converter" => Ok(Self::CharacterConverter(
                 CharacterConverter::from_yaml_value(value)?,
             )),
@@ -134,9 +134,9 @@ impl ModifierKind {
             )),
             "trim" => Ok(Self::Trim(Trim::from_yaml_value(value)?)),
             "neologdn" => Ok(Self::Neologdn(Neologdn::from_yaml_value(value)?)),
-            _ => Err(Error::ModifierKindParseError(format!(
+            unknown => Err(Error::ModifierKindParseError(format!(
                 "specified key {} does not exists.",
-                key.as_str().unwrap()
+                unknown
             ))),
         }
     }
-- 
2.43.0


From e9dc6ac81b895e23372bf354946e3dc142c6a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:38 +0000
Subject: [PATCH 07/10] fix: accept the documented list form of YAML items

---
 src/file.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/file.rs b/src/file.rs
index 33a4dcc..963436b 100644
--- a/src/file.rs
+++ b/src/file.rs
@@ -51,6 +51,13 @@ pub fn to_csv_writer<T: Corr, W: Write>(corr: &Correspondence<T>, writer: W) ->
     wtr
 }
 
+fn table_from_items(items: Vec<Item>, path: &Path) -> Table {
+    Table::from_corr(
+        Correspondence::new(Synthesized::new(items)),
+        Origin::ConfigurationFile(path.to_path_buf()),
+    )
+}
+
 // 設定値が期待した形でない場合のエラーを生成する
 fn invalid_yaml(expected: &str) -> Error {
     Error::YamlFileLoadError(serde::de::Error::custom(format!("expected {}", expected)))
@@ -76,6 +83,17 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
     let data: serde_yaml::Value = serde_yaml::from_reader(File::open(path)?)?;
     let mut items = Vec::new();
     if let Some(map) = data.get("items") {
+        if let Some(list) = map.as_sequence() {
+            // `- from: a` と `to: A` の組を並べた書式
+            for entry in list.iter() {
+                let field = |name: &str| entry.get(name).ok_or_else(|| invalid_yaml(name));
+                items.push(Item::new(
+                    yaml_str(field("from")?)?,
+                    yaml_str(field("to")?)?,
+                ));
+            }
+            return Ok(table_from_items(items, path));
+        }
         for (key, value) in yaml_mapping(map)?.iter() {
             let to = yaml_str(key)?;
             if let Some(froms) = value.as_sequence() {
@@ -87,10 +105,7 @@ pub fn table_from_yaml_path(path: impl AsRef<Path>) -> Result<Table, Error> {
             }
         }
     }
-    Ok(Table::from_corr(
-        Correspondence::new(Synthesized::new(items)),
-        Origin::ConfigurationFile(path.to_path_buf()),
-    ))
+    Ok(table_from_items(items, path))
 }
 
 /// 設定ファイルの YAML ファイルのパスから Modifier を生成する関数です。
-- 
2.43.0


From c80d2161fccc57843bd6f72f8def6996c4557d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:19 +0000
Subject: [PATCH 08/10] fix: accept every supported extension in CHANOMARC and
 report a missing one as an error

---
 src/configuration.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/configuration.rs b/src/configuration.rs
index 4f1998c..76c203b 100644
--- a/src/configuration.rs
+++ b/src/configuration.rs
@@ -109,8 +109,7 @@ fn valid_file_path(path: PathBuf) -> Result<Vec<PathBuf>, Error> {
     if !path.is_file() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
-    let extension = String::from(path.extension().unwrap().to_str().unwrap());
-    if FileExtension::iter().all(|ext| ext.to_string() != extension) {
+    if FileExtension::from_path(&path).is_err() {
         return Err(crate::error::Error::RcFileLoadError(path));
     }
     Ok(vec![path])
-- 
2.43.0


From 64935041d3298a1d5bbcdd316742f3e80ecc650f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:20 +0000
Subject: [PATCH 09/10] fix: ignore table entries with an empty side instead of
 panicking

---
 src/modifier/character_converter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modifier/character_converter.rs b/src/modifier/character_converter.rs
index 18a6653..3bc0ccf 100644
--- a/src/modifier/character_converter.rs
+++ b/src/modifier/character_converter.rs
@@ -155,10 +155,10 @@ impl CharacterConverter {
         let mut items_map = HashMap::new();
         for table in tables.iter() {
             for item in table.items().iter() {
-                items_map.insert(
-                    item.from.chars().next().unwrap(),
-                    item.to.chars().next().unwrap(),
-                );
+                // 空文字列を含む対応付けは一文字の置換ではないので無視する
+                if let (Some(from), Some(to)) = (item.from.chars().next(), item.to.chars().next()) {
+                    items_map.insert(from, to);
+                }
             }
         }
         Self { items_map }
-- 
2.43.0


From d2503937d8fc840b6bee1ef7241640412e6de08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 10/10] fix: report an unclosed parenthesis in a modifier's
 text form instead of panicking

---
 src/modifier_kind.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modifier_kind.rs b/src/modifier_kind.rs
index 3f3e20b..33659aa 100644
--- a/src/modifier_kind.rs
+++ b/src/modifier_kind.rs
@@ -32,6 +32,7 @@ impl FromStr for ModifierKind {
     type Err = Error;
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
+        let unclosed = || Error::ModifierKindParseError("parse error.".to_string());
         match s {
             "neologdn" => Ok(Self::Neologdn(Neologdn::new())),
             "trim" => Ok(Self::Trim(Trim::new())),
@@ -45,7 +46,7 @@ impl FromStr for ModifierKind {
                         .strip_prefix("consecutive_character_reducer(")
                         .unwrap()
                         .strip_suffix(')')
-                        .unwrap();
+                        .ok_or_else(unclosed)?;
                     let consecutive_character_reducer = ConsecutiveCharacterReducer::from_str(s)?;
                     Ok(Self::ConsecutiveCharacterReducer(
                         consecutive_character_reducer,
@@ -56,7 +57,7 @@ impl FromStr for ModifierKind {
                         .strip_prefix("ligature_translator(")
                         .unwrap()
                         .strip_suffix(')')
-                        .unwrap();
+                        .ok_or_else(unclosed)?;
                     let ligature_translator = LigatureTranslator::from_str(s)?;
                     Ok(Self::LigatureTranslator(ligature_translator))
                 } else if s.starts_with("character_eliminator(") {
@@ -65,7 +66,7 @@ impl FromStr for ModifierKind {
                         .strip_prefix("character_eliminator(")
                         .unwrap()
                         .strip_suffix(')')
-                        .unwrap();
+                        .ok_or_else(unclosed)?;
                     let character_eliminator = CharacterEliminator::from_str(s)?;
                     Ok(Self::CharacterEliminator(character_eliminator))
                 } else if s.starts_with("character_converter(") {
@@ -74,7 +75,7 @@ impl FromStr for ModifierKind {
                         .strip_prefix("character_converter(")
                         .unwrap()
                         .strip_suffix(')')
-                        .unwrap();
+                        .ok_or_else(unclosed)?;
                     let character_converter = CharacterConverter::from_str(s)?;
                     Ok(Self::CharacterConverter(character_converter))
                 } else {
-- 
2.43.0


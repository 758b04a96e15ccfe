use chanoma::corr::{Corr, Correspondence, Item, Synthesized};
use chanoma::file::{modifiers_from_yaml_path, table_from_csv_path, table_from_yaml_path};
use chanoma::file_extension::FileExtension;
use chanoma::verif_hooks::*;
use chanoma::{Chanoma, Table, TableBuilder};
use serde_yaml::Value;
use std::path::{Path, PathBuf};

// ---- file extensions
pub fn extension__impl(path: &Path) -> Option<u8> {
    match FileExtension::from_path(path) {
        Ok(FileExtension::Csv) => Some(0),
        Ok(FileExtension::Yaml) => Some(1),
        Err(_) => None,
    }
}
pub fn extension__spec(path: &Path) -> Option<u8> {
    match path.extension()?.to_str()? {
        "csv" => Some(0),
        "yaml" | "yml" => Some(1),
        _ => None,
    }
}

// ---- one configuration file
pub fn config_file__impl(path: &Path) -> Result<Chanoma, ()> {
    Chanoma::from_config_file(path).map_err(|_| ())
}
pub fn config_file__spec(path: &Path) -> Result<Vec<ModifierKind>, ()> {
    let mut steps = Vec::new();
    let table = match extension__spec(path) {
        Some(0) => table_from_csv_path(path).map_err(|_| ())?,
        Some(_) => {
            steps = modifiers_from_yaml_path(path).map_err(|_| ())?;
            table_from_yaml_path(path).map_err(|_| ())?
        }
        None => return Err(()),
    };
    steps.push(CharacterConverter::from_tables(vec![table]).into());
    Ok(steps)
}

// ---- the search for configuration files
pub fn load_rc__impl() -> Result<Chanoma, ()> {
    Chanoma::load_rc().map_err(|_| ())
}
fn searched(exts: &[&str], only: bool) -> Result<Vec<ModifierKind>, ()> {
    if let Ok(p) = std::env::var("CHANOMARC") {
        let p = PathBuf::from(p);
        if !p.is_file() {
            return Err(());
        }
        return config_file__spec(&p);
    }
    let _ = only;
    let mut dirs = Vec::new();
    if let Some(h) = dirs::home_dir() {
        dirs.push(h.join(".config/chanoma"));
        dirs.push(h);
    }
    if let Ok(d) = std::env::current_dir() {
        dirs.push(d);
    }
    let mut steps = Vec::new();
    for d in dirs.iter() {
        for name in ["chanomarc", ".chanomarc"] {
            for ext in exts {
                let mut f = String::from(name);
                f.push('.');
                f.push_str(ext);
                let p = d.join(f);
                if p.is_file() {
                    steps.extend(config_file__spec(&p)?);
                }
            }
        }
    }
    Ok(steps)
}
pub fn load_rc__spec() -> Result<Vec<ModifierKind>, ()> {
    searched(&["csv", "yaml"], false)
}
pub fn load_rc__documented() -> Result<Vec<ModifierKind>, ()> {
    searched(&["csv", "yaml", "yml"], false)
}

// ---- CSV tables
pub fn csv_table__impl(path: &Path) -> Result<Vec<Item>, ()> {
    Ok(table_from_csv_path(path).map_err(|_| ())?.items())
}
pub fn csv_table__spec(path: &Path) -> Result<Vec<Item>, ()> {
    let mut rdr = csv::ReaderBuilder::new().flexible(true).from_path(path).map_err(|_| ())?;
    let mut items = Vec::new();
    for r in rdr.records() {
        let r = r.map_err(|_| ())?;
        let last = r.len() - 1;
        for i in 0..last {
            items.push(Item::new(&r[i], &r[last]));
        }
    }
    Ok(items)
}

// ---- YAML tables
fn yaml(path: &Path) -> Result<Value, ()> {
    serde_yaml::from_reader(std::fs::File::open(path).map_err(|_| ())?).map_err(|_| ())
}
pub fn yaml_table__impl(path: &Path) -> Result<Vec<Item>, ()> {
    Ok(table_from_yaml_path(path).map_err(|_| ())?.items())
}
pub fn yaml_table__spec(path: &Path) -> Result<Vec<Item>, ()> {
    let data = yaml(path)?;
    let mut items = Vec::new();
    match data.get("items") {
        None => {}
        Some(Value::Sequence(list)) => {
            for e in list {
                let from = e.get("from").and_then(|x| x.as_str()).ok_or(())?;
                let to = e.get("to").and_then(|x| x.as_str()).ok_or(())?;
                items.push(Item::new(from, to));
            }
        }
        Some(Value::Mapping(map)) => {
            for (k, v) in map {
                let to = k.as_str().ok_or(())?;
                match v {
                    Value::Sequence(froms) => {
                        for f in froms {
                            items.push(Item::new(f.as_str().ok_or(())?, to));
                        }
                    }
                    _ => items.push(Item::new(v.as_str().ok_or(())?, to)),
                }
            }
        }
        Some(_) => return Err(()),
    }
    Ok(items)
}

// ---- YAML modifiers
pub fn yaml_steps__impl(path: &Path) -> Result<Vec<ModifierKind>, ()> {
    modifiers_from_yaml_path(path).map_err(|_| ())
}
pub fn yaml_steps__spec(path: &Path) -> Result<Vec<ModifierKind>, ()> {
    let data = yaml(path)?;
    let mut steps = Vec::new();
    match data.get("modifiers") {
        None => {}
        Some(Value::Mapping(map)) => {
            for (k, v) in map {
                steps.push(ModifierKind::from_yaml_key_value(k, v).map_err(|_| ())?);
            }
        }
        Some(_) => return Err(()),
    }
    Ok(steps)
}
pub fn yaml_step__impl(key: &Value, value: &Value) -> Result<ModifierKind, ()> {
    ModifierKind::from_yaml_key_value(key, value).map_err(|_| ())
}
fn first(v: &Value) -> Result<char, ()> {
    v.as_str().and_then(|s| s.chars().next()).ok_or(())
}
pub fn yaml_step__spec(key: &Value, value: &Value) -> Result<ModifierKind, ()> {
    match key.as_str().ok_or(())? {
        "character_converter" => {
            let mut m = std::collections::HashMap::new();
            for (k, v) in value.as_mapping().ok_or(())? {
                m.insert(first(k)?, first(v)?);
            }
            Ok(CharacterConverter::from_map(m).into())
        }
        "character_eliminator" => {
            let mut cs = Vec::new();
            for v in value.as_sequence().ok_or(())? {
                cs.push(first(v)?);
            }
            Ok(CharacterEliminator::from_chars(cs).into())
        }
        "consecutive_character_reducer" => Ok(ConsecutiveCharacterReducer::new(first(value)?).into()),
        "ligature_translator" => {
            let mut m = std::collections::HashMap::new();
            for (k, v) in value.as_mapping().ok_or(())? {
                m.insert(k.as_str().ok_or(())?.to_string(), v.as_str().ok_or(())?.to_string());
            }
            Ok(LigatureTranslator::from_map(m).into())
        }
        "dotted_space_eliminator" if value.is_null() => Ok(DottedSpaceEliminator::new().into()),
        "trim" if value.is_null() => Ok(Trim::new().into()),
        "neologdn" if value.is_null() => Ok(Neologdn::new().into()),
        _ => Err(()),
    }
}

// ---- tables: sums, differences and the builder
pub fn sum__impl(a: Synthesized, b: Synthesized) -> Vec<Item> {
    (a.corr() + &b.corr()).items()
}
pub fn sum_assign__impl(a: Synthesized, b: Synthesized) -> Vec<Item> {
    let mut c = a.corr();
    c += &b.corr();
    c.items()
}
pub fn table_add__impl(a: Synthesized, b: Synthesized) -> Vec<Item> {
    let mut t = Table::from_corr(a.corr(), chanoma::table::Origin::New);
    t.add(&b.corr());
    t.items()
}
pub fn sum__spec(a: Synthesized, b: Synthesized) -> Vec<Item> {
    let mut s = std::collections::HashSet::new();
    for x in a.items() {
        s.insert(x);
    }
    for x in b.items() {
        s.insert(x);
    }
    let mut v: Vec<Item> = s.into_iter().collect();
    v.sort();
    v
}
pub fn diff__impl(a: Synthesized, b: Synthesized) -> Vec<Item> {
    (a.corr() - &b.corr()).items()
}
pub fn diff_assign__impl(a: Synthesized, b: Synthesized) -> Vec<Item> {
    let mut c = a.corr();
    c -= &b.corr();
    c.items()
}
pub fn table_remove__impl(a: Synthesized, b: Synthesized) -> Vec<Item> {
    let mut t = Table::from_corr(a.corr(), chanoma::table::Origin::New);
    t.remove(&b.corr());
    t.items()
}
pub fn diff__spec(a: Synthesized, b: Synthesized) -> Vec<Item> {
    let b = b.items();
    let mut v: Vec<Item> = a.items().into_iter().filter(|x| !b.contains(x)).collect();
    v.sort();
    v
}

pub fn preset__impl(t: Synthesized) -> Vec<Item> {
    let mut b = start(t);
    b.preset();
    b.build().items()
}
pub fn preset__spec(t: Synthesized) -> Vec<Item> {
    (t.corr() + &Synthesized::new(all_items()).corr()).items()
}
pub fn all_items() -> Vec<Item> {
    chanoma::characters_set::ALL.items()
}
pub fn add_corr__impl(a: Synthesized, b: Synthesized) -> Vec<Item> {
    let mut t = start(a);
    t.add_corr(&b.corr());
    t.build().items()
}
pub fn remove_corr__impl(a: Synthesized, b: Synthesized) -> Vec<Item> {
    let mut t = start(a);
    t.remove_corr(&b.corr());
    t.build().items()
}
pub fn new_table__impl() -> Vec<Item> {
    TableBuilder::new().build().items()
}
pub fn default_table__impl() -> Vec<Item> {
    Table::default().items()
}
pub fn new_table__spec() -> Vec<Item> {
    Vec::new()
}
pub fn rebuild__impl(a: Synthesized) -> Vec<Item> {
    Table::from_corr(a.corr(), chanoma::table::Origin::New).builder().build().corr().items()
}
pub fn rebuild__spec(a: Synthesized) -> Vec<Item> {
    a.items()
}

// ---- a table as a converter
pub fn converter__impl(tables: Vec<Table>) -> CharacterConverter {
    CharacterConverter::from_tables(tables)
}
pub fn converter__spec(tables: Vec<Table>) -> CharacterConverter {
    let mut m = std::collections::HashMap::new();
    for t in &tables {
        for i in t.items() {
            if let (Some(a), Some(b)) = (i.from.chars().next(), i.to.chars().next()) {
                m.insert(a, b);
            }
        }
    }
    CharacterConverter::from_map(m)
}

// ---- building a table from files
fn start(t: Synthesized) -> TableBuilder {
    TableBuilder::from_table(Table::from_corr(t.corr(), chanoma::table::Origin::New))
}
pub fn from_csv__impl(path: &Path) -> Result<Vec<Item>, ()> {
    Ok(TableBuilder::from_csv_path(path).map_err(|_| ())?.build().items())
}
pub fn from_csv__spec(path: &Path) -> Result<Vec<Item>, ()> {
    let path = std::fs::canonicalize(path).map_err(|_| ())?;
    Ok(table_from_csv_path(path).map_err(|_| ())?.items())
}
pub fn from_yaml__impl(path: &Path) -> Result<Vec<Item>, ()> {
    Ok(TableBuilder::from_yaml_path(path).map_err(|_| ())?.build().items())
}
pub fn from_yaml__spec(path: &Path) -> Result<Vec<Item>, ()> {
    let path = std::fs::canonicalize(path).map_err(|_| ())?;
    Ok(table_from_yaml_path(path).map_err(|_| ())?.items())
}
pub fn add_csv__impl(t: Synthesized, path: &Path) -> Result<Vec<Item>, ()> {
    let mut b = start(t);
    b.add_from_csv(path).map_err(|_| ())?;
    Ok(b.build().items())
}
pub fn add_csv__spec(t: Synthesized, path: &Path) -> Result<Vec<Item>, ()> {
    let mut c = t.corr();
    c += &table_from_csv_path(path).map_err(|_| ())?.corr();
    Ok(c.items())
}
pub fn add_yaml__impl(t: Synthesized, path: &Path) -> Result<Vec<Item>, ()> {
    let mut b = start(t);
    b.add_from_yaml(path).map_err(|_| ())?;
    Ok(b.build().items())
}
pub fn add_yaml__spec(t: Synthesized, path: &Path) -> Result<Vec<Item>, ()> {
    let mut c = t.corr();
    c += &table_from_yaml_path(path).map_err(|_| ())?.corr();
    Ok(c.items())
}

// ---- writing tables
fn grouped(items: Vec<Item>) -> std::collections::BTreeMap<String, Vec<String>> {
    let mut m = std::collections::BTreeMap::new();
    for i in items {
        m.entry(i.to).or_insert_with(Vec::new).push(i.from);
    }
    m
}
pub fn export_csv__impl(items: Vec<Item>) -> csv::Writer<Vec<u8>> {
    chanoma::file::to_csv_writer(&Synthesized::new(items).corr(), Vec::new())
}
pub fn export_csv__spec(items: Vec<Item>) -> csv::Writer<Vec<u8>> {
    let mut w = csv::WriterBuilder::new().flexible(true).from_writer(Vec::new());
    for (to, mut froms) in grouped(items) {
        froms.push(to);
        w.write_record(&froms).unwrap();
    }
    w
}
pub fn export_yaml__impl(items: Vec<Item>) -> chanoma::file::SerializedCorr {
    chanoma::file::to_serialized_corr(&Synthesized::new(items).corr())
}
pub fn export_yaml__spec(items: Vec<Item>) -> std::collections::BTreeMap<String, Vec<String>> {
    grouped(items)
}
pub fn yaml_form(c: &chanoma::file::SerializedCorr, s: &mut serde_yaml::Serializer<Vec<u8>>) -> Result<(), serde_yaml::Error> {
    serde::Serialize::serialize(c, s)
}

// ---- steps given as text
pub fn parse__impl(s: &str) -> Result<ModifierKind, ()> {
    <ModifierKind as std::str::FromStr>::from_str(s).map_err(|_| ())
}
pub fn parse__spec(s: &str) -> Result<ModifierKind, ()> {
    match s {
        "neologdn" => return Ok(Neologdn::new().into()),
        "trim" => return Ok(Trim::new().into()),
        "dotted_space_eliminator" => return Ok(DottedSpaceEliminator::new().into()),
        _ => {}
    }
    if let Some(r) = s.strip_prefix("consecutive_character_reducer(") {
        return parse_reducer__impl(r.strip_suffix(')').ok_or(())?);
    }
    if let Some(r) = s.strip_prefix("ligature_translator(") {
        return parse_ligature__impl(r.strip_suffix(')').ok_or(())?);
    }
    if let Some(r) = s.strip_prefix("character_eliminator(") {
        return parse_eliminator__impl(r.strip_suffix(')').ok_or(())?);
    }
    if let Some(r) = s.strip_prefix("character_converter(") {
        return parse_converter__impl(r.strip_suffix(')').ok_or(())?);
    }
    Err(())
}
pub fn parse_reducer__impl(s: &str) -> Result<ModifierKind, ()> {
    <ConsecutiveCharacterReducer as std::str::FromStr>::from_str(s).map(|m| m.into()).map_err(|_| ())
}
pub fn parse_reducer__spec(s: &str) -> Result<ModifierKind, ()> {
    match s.chars().next() {
        Some(c) => Ok(ConsecutiveCharacterReducer::new(c).into()),
        None => Err(()),
    }
}
pub fn parse_ligature__impl(s: &str) -> Result<ModifierKind, ()> {
    <LigatureTranslator as std::str::FromStr>::from_str(s).map(|m| m.into()).map_err(|_| ())
}
pub fn parse_ligature__spec(s: &str) -> Result<ModifierKind, ()> {
    let parts: Vec<&str> = s.split(',').collect();
    if parts.len() == 2 {
        let mut m = std::collections::HashMap::new();
        m.insert(parts[0].to_string(), parts[1].to_string());
        Ok(LigatureTranslator::from_map(m).into())
    } else {
        Err(())
    }
}
pub fn parse_eliminator__impl(s: &str) -> Result<ModifierKind, ()> {
    <CharacterEliminator as std::str::FromStr>::from_str(s).map(|m| m.into()).map_err(|_| ())
}
pub fn parse_eliminator__spec(s: &str) -> Result<ModifierKind, ()> {
    let mut chars = Vec::new();
    for part in s.split(',') {
        if let Some(c) = part.trim().chars().next() {
            chars.push(c);
        }
    }
    if chars.is_empty() {
        Err(())
    } else {
        Ok(CharacterEliminator::from_chars(chars).into())
    }
}
pub fn parse_converter__impl(s: &str) -> Result<ModifierKind, ()> {
    <CharacterConverter as std::str::FromStr>::from_str(s).map(|m| m.into()).map_err(|_| ())
}
pub fn parse_converter__spec(s: &str) -> Result<ModifierKind, ()> {
    let mut pairs = Vec::new();
    for part in s.split(',') {
        let mut cs = Vec::new();
        for side in part.trim().split(':') {
            if let Some(c) = side.trim().chars().next() {
                cs.push(c);
            }
        }
        if cs.len() == 2 {
            pairs.push((cs[0], cs[1]));
        }
    }
    if pairs.is_empty() {
        Err(())
    } else {
        Ok(CharacterConverter::from_map(pairs.into_iter().collect()).into())
    }
}
pub fn parse_plain__impl(s: &str) -> (bool, bool, bool) {
    (<Trim as std::str::FromStr>::from_str(s).is_ok(), <Neologdn as std::str::FromStr>::from_str(s).is_ok(), <DottedSpaceEliminator as std::str::FromStr>::from_str(s).is_ok())
}
pub fn parse_plain__spec(s: &str) -> (bool, bool, bool) {
    (s.is_empty(), s.is_empty(), s.is_empty())
}

// ---- lists of items
pub fn linear__impl(from: &'static str, to: &'static str) -> Vec<Item> {
    chanoma::corr::Linear::new(from, to).corr().items()
}
pub fn linear__spec(from: &'static str, to: &'static str) -> Vec<Item> {
    vec![Item { from: from.to_string(), to: to.to_string() }]
}
pub fn unify__impl(froms: &'static [&'static str], to: &'static str) -> Vec<Item> {
    chanoma::corr::Unification::new(froms, to).corr().items()
}
pub fn unify__spec(froms: &'static [&'static str], to: &'static str) -> Vec<Item> {
    let mut v = Vec::new();
    for f in froms {
        v.push(Item { from: f.to_string(), to: to.to_string() });
    }
    v
}
pub fn lists__impl(items: Vec<Item>) -> (Vec<Item>, Vec<Item>, Vec<Item>, Vec<Item>, Vec<Item>, Vec<Item>) {
    let c = Synthesized::new(items).corr();
    let t = Table::from_corr(c.clone(), chanoma::table::Origin::New);
    (
        c.items(),
        c.synthesize().items(),
        Synthesized::from(&c).items(),
        t.items(),
        t.corr().items(),
        Synthesized::from(c).items(),
    )
}
pub fn lists__spec(items: Vec<Item>) -> (Vec<Item>, Vec<Item>, Vec<Item>, Vec<Item>, Vec<Item>, Vec<Item>) {
    (items.clone(), items.clone(), items.clone(), items.clone(), items.clone(), items)
}
pub fn same__impl(a: Synthesized, b: Synthesized) -> bool {
    a.corr() == b.corr()
}
pub fn same__spec(a: Synthesized, b: Synthesized) -> bool {
    a.items() == b.items()
}
pub fn item_eq__impl(a: &Item, b: &Item) -> (bool, std::cmp::Ordering) {
    (a == b, a.cmp(b))
}
pub fn item_eq__spec(a: &Item, b: &Item) -> (bool, std::cmp::Ordering) {
    (a.from == b.from && a.to == b.to, a.from.cmp(&b.from).then(a.to.cmp(&b.to)))
}
pub fn item_new__impl(from: String, to: &str) -> Item {
    Item::new(from, to)
}
pub fn item_new__spec(from: String, to: &str) -> Item {
    Item { from, to: to.to_string() }
}
pub fn origin_csv__impl(path: &Path) -> Result<Option<PathBuf>, ()> {
    origin(table_from_csv_path(path).map_err(|_| ())?)
}
pub fn origin_csv__spec(path: &Path) -> Result<Option<PathBuf>, ()> {
    table_from_csv_path(path).map_err(|_| ())?;
    Ok(Some(path.to_path_buf()))
}
pub fn origin_yaml__impl(path: &Path) -> Result<Option<PathBuf>, ()> {
    origin(table_from_yaml_path(path).map_err(|_| ())?)
}
pub fn origin_yaml__spec(path: &Path) -> Result<Option<PathBuf>, ()> {
    table_from_yaml_path(path).map_err(|_| ())?;
    Ok(Some(path.to_path_buf()))
}
pub fn origin_new__impl() -> Result<Option<PathBuf>, ()> {
    origin(Table::new())
}
pub fn origin_new__spec() -> Result<Option<PathBuf>, ()> {
    Ok(None)
}
fn origin(t: Table) -> Result<Option<PathBuf>, ()> {
    Ok(match t.origin {
        chanoma::table::Origin::New => None,
        chanoma::table::Origin::ConfigurationFile(p) => Some(p),
    })
}

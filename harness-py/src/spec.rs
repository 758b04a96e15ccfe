#![allow(non_snake_case, dead_code)]
use super::*;
use chanoma::corr::Corr;

pub fn pipeline__spec(
    table: Option<&Table>,
    neologdn: bool,
    preset: bool,
    rc: bool,
    configfile: Option<&str>,
) -> Option<::chanoma::Chanoma> {
    let mut c = match configfile {
        Some(f) => match ::chanoma::Chanoma::from_config_file(f) {
            Ok(c) => c,
            Err(_) => return None,
        },
        None if rc => match ::chanoma::Chanoma::load_rc() {
            Ok(c) => c,
            Err(_) => return None,
        },
        None => ::chanoma::Chanoma::new(),
    };
    if let Some(t) = table {
        c.add_table(t.t.clone());
    }
    if preset {
        c.use_preset();
    }
    if neologdn {
        c.use_neologdn();
    }
    Some(c)
}

pub fn normalize__impl(c: &Chanoma, text: &str) -> String {
    c.normalize(text)
}

pub fn normalize__spec(c: &Chanoma, text: &str) -> String {
    c.c.normalize(text)
}

pub fn table__spec(preset: bool, csv: Option<&str>, yaml: Option<&str>) -> Option<::chanoma::Table> {
    let mut b = ::chanoma::TableBuilder::new();
    if preset {
        b.preset();
    }
    if let Some(p) = csv {
        if b.add_from_csv(p).is_err() {
            return None;
        }
    }
    if let Some(p) = yaml {
        if b.add_from_yaml(p).is_err() {
            return None;
        }
    }
    Some(b.build())
}

pub fn item__impl(from: String, to: String) -> ::chanoma::Item {
    ::chanoma::Item::from(&Item::new(from, to))
}

pub fn item__spec(from: String, to: String) -> ::chanoma::Item {
    ::chanoma::Item { from, to }
}

pub fn back__impl(i: &::chanoma::Item) -> (String, String) {
    let i = Item::from(i);
    (i.from, i.to)
}

pub fn back__spec(i: &::chanoma::Item) -> (String, String) {
    (i.from.clone(), i.to.clone())
}

pub fn given__impl(items: Vec<Item>) -> Vec<Item> {
    Correspondence::new(items).items
}

pub fn given__spec(items: Vec<Item>) -> Vec<Item> {
    items
}

pub fn corr__impl(c: CorrespondenceExtraction) -> Vec<::chanoma::Item> {
    ::chanoma::Correspondence::from(&c).items()
}

pub fn corr__spec(c: CorrespondenceExtraction) -> Vec<::chanoma::Item> {
    let mut out = Vec::new();
    for i in c.items {
        out.push(::chanoma::Item { from: i.from, to: i.to });
    }
    out
}

fn listed(items: Vec<::chanoma::Item>) -> Vec<Item> {
    let mut out = Vec::new();
    for i in items {
        out.push(Item { from: i.from, to: i.to });
    }
    out
}

macro_rules! set {
    ($spec:ident, $m:ident, $t:ident) => {
        pub fn $spec() -> Vec<Item> {
            listed(::chanoma::characters_set::$m::$t::new().items())
        }
    };
}
set!(alphabets__spec, alphabets, Alphabets);
set!(digits__spec, digits, Digits);
set!(punctuations__spec, punctuations, Punctuations);
set!(kanas__spec, kanas, Kanas);
set!(cjk__spec, cjk_compatibilities, CjkCompatibilities);

pub fn add__impl(mut t: Table, c: &PyAny) -> (bool, ::chanoma::Table) {
    let ok = t.add(c).is_ok();
    (ok, t.t)
}

pub fn add__spec(mut t: Table, c: &PyAny) -> (bool, ::chanoma::Table) {
    match c.extract::<CorrespondenceExtraction>() {
        Ok(e) => {
            t.t.add(&::chanoma::Correspondence::from(&e));
            (true, t.t)
        }
        Err(_) => (false, t.t),
    }
}

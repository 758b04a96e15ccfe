use chanoma::verif_hooks::{CharacterConverter, Modifier, ModifierKind, Neologdn};
use chanoma::{Chanoma, Table};

// ---- what the ready-made pipelines consist of (constant evaluation)
pub fn preset_new() -> Chanoma {
    Chanoma::preset()
}
pub fn preset_use() -> Chanoma {
    let mut c = Chanoma::new();
    c.use_preset();
    c
}
pub fn neologdn_new() -> Chanoma {
    Chanoma::neologdn()
}
pub fn neologdn_use() -> Chanoma {
    let mut c = Chanoma::new();
    c.use_neologdn();
    c
}
pub fn neologdn_kind() -> ModifierKind {
    Neologdn::new().into()
}

// ---- the pipeline applied to a text (analysed with the modifier step as an uninterpreted function)
pub fn normalize__impl(c: &Chanoma, text: &str) -> String {
    c.normalize(text)
}
pub fn normalize__records(c: &Chanoma, text: &str) -> String {
    c.normalize_with_positions(text).text().to_string()
}
pub fn normalize__spec(ms: &[ModifierKind], text: &str) -> String {
    let mut cur = text.to_string();
    for m in ms {
        cur = m.modify(&cur);
    }
    cur
}

// ---- dispatch of a step to its modifier (the seven modifiers are uninterpreted)
pub fn dispatch__impl(m: &ModifierKind, text: &str) -> String {
    m.modify(text)
}
pub fn dispatch__records(m: &ModifierKind, text: &str) -> String {
    m.modify_with_positions(text).text
}
pub fn dispatch__spec(m: &ModifierKind, text: &str) -> String {
    match m {
        ModifierKind::CharacterConverter(x) => x.modify(text),
        ModifierKind::CharacterEliminator(x) => x.modify(text),
        ModifierKind::ConsecutiveCharacterReducer(x) => x.modify(text),
        ModifierKind::DottedSpaceEliminator(x) => x.modify(text),
        ModifierKind::LigatureTranslator(x) => x.modify(text),
        ModifierKind::Trim(x) => x.modify(text),
        ModifierKind::Neologdn(x) => x.modify(text),
    }
}

// ---- growing a pipeline
pub fn grow_preset(mut c: Chanoma) -> Chanoma {
    c.use_preset();
    c
}
pub fn grow_neologdn(mut c: Chanoma) -> Chanoma {
    c.use_neologdn();
    c
}
pub fn grow_table(mut c: Chanoma, t: Table) -> Chanoma {
    c.add_table(t);
    c
}
pub fn empty_new() -> Chanoma {
    Chanoma::new()
}
pub fn empty_default() -> Chanoma {
    Chanoma::default()
}
pub fn table_new(t: Table) -> Chanoma {
    Chanoma::from_table(t)
}
pub fn table_kind(t: Table) -> ModifierKind {
    CharacterConverter::from_tables(vec![t]).into()
}


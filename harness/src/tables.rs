use chanoma::characters_set::alphabets::Alphabets;
use chanoma::characters_set::cjk_compatibilities::CjkCompatibilities;
use chanoma::characters_set::digits::Digits;
use chanoma::characters_set::kanas::Kanas;
use chanoma::characters_set::punctuations::Punctuations;
use chanoma::corr::{Corr, Item};
use chanoma::TableBuilder;

pub fn alphabets() -> Vec<Item> {
    Alphabets::new().items()
}
pub fn digits() -> Vec<Item> {
    Digits::new().items()
}
pub fn punctuations() -> Vec<Item> {
    Punctuations::new().items()
}
pub fn kanas() -> Vec<Item> {
    Kanas::new().items()
}
pub fn cjk() -> Vec<Item> {
    CjkCompatibilities::new().items()
}
pub fn preset_table() -> Vec<Item> {
    let mut b = TableBuilder::new();
    b.preset();
    b.build().items()
}

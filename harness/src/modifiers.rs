use chanoma::verif_hooks::{
    CharacterConverter, CharacterEliminator, ConsecutiveCharacterReducer, DottedSpaceEliminator,
    LigatureTranslator, Modifier, Neologdn, Trim,
};
use std::collections::HashMap;

fn copy(text: &str) -> String {
    let mut out = String::new();
    for c in text.chars() {
        out.push(c);
    }
    out
}

// ---- CharacterEliminator: every listed character disappears, all others stay in order
pub fn elim0__impl(text: &str) -> String {
    CharacterEliminator::from_chars(vec![]).modify(text)
}
pub fn elim0__pos(text: &str) -> String {
    CharacterEliminator::from_chars(vec![]).modify_with_positions(text).text
}
pub fn elim0__spec(text: &str) -> String {
    copy(text)
}
pub fn elim1__impl(a: char, text: &str) -> String {
    CharacterEliminator::from_char(a).modify(text)
}
pub fn elim1__pos(a: char, text: &str) -> String {
    CharacterEliminator::from_char(a).modify_with_positions(text).text
}
pub fn elim1__spec(a: char, text: &str) -> String {
    let mut out = String::new();
    for c in text.chars() {
        if c != a {
            out.push(c);
        }
    }
    out
}
pub fn elim3__impl(a: char, b: char, d: char, text: &str) -> String {
    CharacterEliminator::from_chars(vec![a, b, d]).modify(text)
}
pub fn elim3__pos(a: char, b: char, d: char, text: &str) -> String {
    CharacterEliminator::from_chars(vec![a, b, d]).modify_with_positions(text).text
}
pub fn elim3__spec(a: char, b: char, d: char, text: &str) -> String {
    let mut out = String::new();
    for c in text.chars() {
        if c != a && c != b && c != d {
            out.push(c);
        }
    }
    out
}

// ---- ConsecutiveCharacterReducer: a run of c becomes one c, everything else stays
pub fn reduce__impl(c: char, text: &str) -> String {
    ConsecutiveCharacterReducer::new(c).modify(text)
}
pub fn reduce__pos(c: char, text: &str) -> String {
    ConsecutiveCharacterReducer::new(c).modify_with_positions(text).text
}
pub fn reduce__spec(c: char, text: &str) -> String {
    let mut out = String::new();
    let mut last = None;
    for ch in text.chars() {
        if !(ch == c && last == Some(c)) {
            out.push(ch);
        }
        last = Some(ch);
    }
    out
}

// ---- DottedSpaceEliminator: a space survives only as the single separator of two ASCII alphanumerics
pub fn dse__impl(text: &str) -> String {
    DottedSpaceEliminator::new().modify(text)
}
pub fn dse__pos(text: &str) -> String {
    DottedSpaceEliminator::new().modify_with_positions(text).text
}
pub fn dse__spec(text: &str) -> String {
    let mut out = String::new();
    let mut last: Option<char> = None;
    let mut gap = false;
    for c in text.chars() {
        if c == ' ' {
            gap = true;
        } else {
            if gap {
                if let Some(p) = last {
                    if p.is_ascii_alphanumeric() && c.is_ascii_alphanumeric() {
                        out.push(' ');
                    }
                }
            }
            out.push(c);
            last = Some(c);
            gap = false;
        }
    }
    out
}

// ---- Trim: leading and trailing half-width spaces, and only those
pub fn trim__impl(text: &str) -> String {
    Trim::new().modify(text)
}
pub fn trim__pos(text: &str) -> String {
    Trim::new().modify_with_positions(text).text
}
pub fn trim__spec(text: &str) -> String {
    text.trim_start_matches(' ').trim_end_matches(' ').to_string()
}

// ---- CharacterConverter: one character in, one character out, the last entry for a character wins
pub fn conv0__impl(text: &str) -> String {
    CharacterConverter::from_map(HashMap::new()).modify(text)
}
pub fn conv0__pos(text: &str) -> String {
    CharacterConverter::from_map(HashMap::new()).modify_with_positions(text).text
}
pub fn conv0__spec(text: &str) -> String {
    copy(text)
}
pub fn conv2__impl(a: char, x: char, b: char, y: char, text: &str) -> String {
    let mut m = HashMap::new();
    m.insert(a, x);
    m.insert(b, y);
    CharacterConverter::from_map(m).modify(text)
}
pub fn conv2__pos(a: char, x: char, b: char, y: char, text: &str) -> String {
    let mut m = HashMap::new();
    m.insert(a, x);
    m.insert(b, y);
    CharacterConverter::from_map(m).modify_with_positions(text).text
}
pub fn conv2__spec(a: char, x: char, b: char, y: char, text: &str) -> String {
    let mut out = String::new();
    for c in text.chars() {
        if c == b {
            out.push(y);
        } else if c == a {
            out.push(x);
        } else {
            out.push(c);
        }
    }
    out
}

// ---- LigatureTranslator
pub fn lig0__impl(text: &str) -> String {
    LigatureTranslator::from_map(HashMap::new()).modify(text)
}
pub fn lig0__pos(text: &str) -> String {
    LigatureTranslator::from_map(HashMap::new()).modify_with_positions(text).text
}
pub fn lig0__spec(text: &str) -> String {
    text.to_string()
}
pub fn lig1__impl(from: &str, to: &str, text: &str) -> String {
    let mut m = HashMap::new();
    m.insert(from.to_string(), to.to_string());
    LigatureTranslator::from_map(m).modify(text)
}
pub fn lig1__pos(from: &str, to: &str, text: &str) -> String {
    let mut m = HashMap::new();
    m.insert(from.to_string(), to.to_string());
    LigatureTranslator::from_map(m).modify_with_positions(text).text
}
pub fn lig1__spec(from: &str, to: &str, text: &str) -> String {
    text.replace(from, to)
}

// ---- Neologdn (analysed with the six steps cut)
pub fn neo__impl(text: &str) -> String {
    Neologdn::new().modify(text)
}
pub fn neo__pos(text: &str) -> String {
    Neologdn::new().modify_with_positions(text).text
}

// ---- CharacterConverter: the n-th character of the result is the image of the n-th character of the text
pub fn conv__impl(c: &CharacterConverter, text: &str, n: usize) -> (usize, Option<char>) {
    let out = c.modify(text);
    (out.chars().count(), out.chars().nth(n))
}
pub fn conv__pos(c: &CharacterConverter, text: &str, n: usize) -> (usize, Option<char>) {
    let out = c.modify_with_positions(text).text;
    (out.chars().count(), out.chars().nth(n))
}
pub fn conv__spec(c: &CharacterConverter, text: &str, n: usize) -> (usize, Option<char>) {
    let image = text.chars().nth(n).map(|x| match c.items_map.get(&x) {
        Some(y) => *y,
        None => x,
    });
    (text.chars().count(), image)
}

// ---- the same call twice: the order in which hash tables are visited must not show
use chanoma::position::Position;
fn parts(r: chanoma::verif_hooks::ModifiedRecord) -> (String, Vec<Position>) {
    (r.text, r.positions)
}
pub fn det_conv__plain(c: &CharacterConverter, text: &str) -> String {
    c.modify(text)
}
pub fn det_conv__pos(c: &CharacterConverter, text: &str) -> (String, Vec<Position>) {
    parts(c.modify_with_positions(text))
}
pub fn det_elim__plain(a: char, b: char, text: &str) -> String {
    CharacterEliminator::from_chars(vec![a, b]).modify(text)
}
pub fn det_elim__pos(a: char, b: char, text: &str) -> (String, Vec<Position>) {
    parts(CharacterEliminator::from_chars(vec![a, b]).modify_with_positions(text))
}
pub fn det_reduce__pos(c: char, text: &str) -> (String, Vec<Position>) {
    parts(ConsecutiveCharacterReducer::new(c).modify_with_positions(text))
}
pub fn det_dse__pos(text: &str) -> (String, Vec<Position>) {
    parts(DottedSpaceEliminator::new().modify_with_positions(text))
}
pub fn det_trim__pos(text: &str) -> (String, Vec<Position>) {
    parts(Trim::new().modify_with_positions(text))
}
fn lig2(a: &str, x: &str, b: &str, y: &str) -> LigatureTranslator {
    let mut m = HashMap::new();
    m.insert(a.to_string(), x.to_string());
    m.insert(b.to_string(), y.to_string());
    LigatureTranslator::from_map(m)
}
pub fn det_lig__plain(a: &str, x: &str, b: &str, y: &str, text: &str) -> String {
    lig2(a, x, b, y).modify(text)
}
pub fn det_lig__pos(a: &str, x: &str, b: &str, y: &str, text: &str) -> (String, Vec<Position>) {
    parts(lig2(a, x, b, y).modify_with_positions(text))
}
pub fn det_lig_known__plain(text: &str) -> String {
    lig2("ab", "b", "bb", "a").modify(text)
}
pub fn order__impl(a: &Position, b: &Position) -> std::cmp::Ordering {
    a.cmp(b)
}
pub fn order__spec(a: &Position, b: &Position) -> std::cmp::Ordering {
    a.index.cmp(&b.index)
}

// ---- any modifier of a kind, whatever it holds
pub fn any_elim__plain(m: &CharacterEliminator, text: &str) -> String {
    m.modify(text)
}
pub fn any_elim__pos(m: &CharacterEliminator, text: &str) -> String {
    m.modify_with_positions(text).text
}
pub fn any_lig__plain(m: &LigatureTranslator, text: &str) -> String {
    m.modify(text)
}
pub fn any_lig__pos(m: &LigatureTranslator, text: &str) -> String {
    m.modify_with_positions(text).text
}

// ---- what the recorded run reports as replaced
fn changes(r: chanoma::verif_hooks::ModifiedRecord) -> Vec<(String, String)> {
    let mut v = Vec::new();
    for p in r.positions {
        v.push((p.from, p.to));
    }
    v
}
fn places(r: chanoma::verif_hooks::ModifiedRecord) -> Vec<(String, String, usize, usize, usize, usize)> {
    let mut v = Vec::new();
    for p in r.positions {
        v.push((p.from, p.to, p.index, p.utf8_index, p.length, p.utf8_length));
    }
    v
}
pub fn chg_trim__impl(text: &str) -> Vec<(String, String, usize, usize, usize, usize)> {
    places(Trim::new().modify_with_positions(text))
}
pub fn chg_trim__spec(text: &str) -> Vec<(String, String, usize, usize, usize, usize)> {
    let mut v = Vec::new();
    let rest = text.trim_start_matches(' ');
    let n = text.len() - rest.len();
    if n > 0 {
        v.push((" ".repeat(n), String::new(), 0, 0, n, n));
    }
    let inner = rest.trim_end_matches(' ');
    let k = rest.len() - inner.len();
    if k > 0 {
        v.push((" ".repeat(k), String::new(), text.len() - k, text.chars().count() - k, k, k));
    }
    v
}
pub fn chg_reduce__impl(c: char, text: &str) -> Vec<Position> {
    ConsecutiveCharacterReducer::new(c).modify_with_positions(text).positions
}
fn change(from: String, to: String) -> Position {
    Position { from, to, index: 0, length: 0, utf8_index: 0, utf8_length: 0 }
}
pub fn chg_reduce__spec(c: char, text: &str) -> Vec<Position> {
    let mut v = Vec::new();
    let mut n = 0;
    for ch in text.chars() {
        if ch == c {
            n += 1;
        } else {
            if n > 0 {
                v.push(change(c.to_string().repeat(n), c.to_string()));
            }
            n = 0;
        }
    }
    if n > 0 {
        v.push(change(c.to_string().repeat(n), c.to_string()));
    }
    v
}
pub fn chg_conv__impl(m: &CharacterConverter, text: &str) -> Vec<(String, String, usize, usize, usize, usize)> {
    places(m.modify_with_positions(text))
}
pub fn chg_conv__spec(m: &CharacterConverter, text: &str) -> Vec<(String, String, usize, usize, usize, usize)> {
    let mut v = Vec::new();
    let mut n = 0;
    for (i, c) in text.char_indices() {
        // what the converter makes of the character on its own
        let r = m.modify_with_positions(&c.to_string());
        if !r.positions.is_empty() {
            v.push((c.to_string(), r.text, n, i, c.len_utf8(), 1));
        }
        n += 1;
    }
    v
}
pub fn chg_elim__impl(m: &CharacterEliminator, text: &str) -> Vec<(String, String)> {
    changes(m.modify_with_positions(text))
}
pub fn chg_lig__impl(m: &LigatureTranslator, text: &str) -> Vec<(String, String)> {
    changes(m.modify_with_positions(text))
}
pub fn chg_dse__impl(text: &str) -> Vec<(String, String)> {
    changes(DottedSpaceEliminator::new().modify_with_positions(text))
}

//! Generators of symbolic text.
pub use symapi::*;

pub fn is_alpha(c: u8) -> bool {
    (c | 32).wrapping_sub(b'a') < 26
}
pub fn is_digit(c: u8) -> bool {
    c.wrapping_sub(b'0') < 10
}
pub fn is_word(c: u8) -> bool {
    is_alpha(c) | is_digit(c) | (c == b'_')
}
/// identifier = *"_" ALPHA *("_" / ALPHA / DIGIT), as one formula (no branches).
pub fn ident_ok(b: &[u8]) -> bool {
    let mut ok = true;
    let mut seen = false;
    for &c in b {
        ok = ok & is_word(c) & (seen | !is_digit(c));
        seen = seen | is_alpha(c);
    }
    ok & seen
}
pub fn lower(c: u8) -> u8 {
    c | ((((c.wrapping_sub(b'A') < 26) as u8)) << 5)
}
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = r & (a[i] == b[i]);
    }
    r
}
/// Equality of ASCII text ignoring case, as one formula.
pub fn eq_nocase(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r = r & (lower(a[i]) == lower(b[i]));
    }
    r
}
pub fn text(b: &[u8]) -> String {
    // callers constrain the bytes to ASCII
    unsafe { String::from_utf8_unchecked(b.to_vec()) }
}
/// Any identifier of `n` bytes.
pub fn ident(n: usize) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    assume(ident_ok(&b));
    text(&b)
}
/// Any identifier of 1..=n bytes.
pub fn ident_upto(n: u32) -> String {
    let k = choose(n) + 1;
    ident(k as usize)
}
/// Any ASCII text of `n` bytes.
pub fn ascii(n: usize) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    let mut ok = true;
    for &c in &b {
        ok = ok & (c < 128);
    }
    assume(ok);
    text(&b)
}
/// Any UTF-8 text of `n` bytes; the path ends if the bytes are not UTF-8.
pub fn utf8(n: usize) -> String {
    let mut b = vec![0u8; n];
    fill(&mut b);
    match String::from_utf8(b) {
        Ok(s) => s,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

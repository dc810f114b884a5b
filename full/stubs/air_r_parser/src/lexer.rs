use air_r_syntax::RSyntaxKind::{self, *};
use biome_rowan::TriviaPieceKind as P;

#[derive(Clone, Debug)]
pub struct Tok { pub kind: RSyntaxKind, pub start: u32, pub end: u32, pub lead: Vec<(P, u32, u32)>, pub trail: Vec<(P, u32, u32)>, pub newline: bool, pub semi: bool }
pub struct Lexed { pub toks: Vec<Tok>, pub error: Option<(String, u32)> }

fn ident_start(c: char) -> bool { c.is_alphabetic() || c == '.' }
fn ident_part(c: char) -> bool { c.is_alphanumeric() || c == '.' || c == '_' }

pub fn lex(src: &str) -> Lexed {
    let b = src.as_bytes();
    let n = b.len();
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    let mut toks: Vec<Tok> = vec![];
    let mut error = None;
    let mut i = 0;
    let mut brackets: Vec<u8> = vec![]; // '(' '[' 'B' (double) '{'
    if src.starts_with('\u{feff}') {
        toks.push(Tok { kind: UNICODE_BOM, start: 0, end: 3, lead: vec![], trail: vec![], newline: false, semi: false });
        i = 3;
    }
    loop {
        // Trivia: what follows the previous token on its line belongs to it, the rest to the next one.
        let mut pieces: Vec<(P, u32, u32)> = vec![];
        let (mut newline, mut semi) = (false, false);
        let mut split: Option<usize> = None;
        while i < n {
            let s = i;
            let k = match b[i] {
                b' ' | b'\t' | 0x0c => { while matches!(at(i), b' ' | b'\t' | 0x0c) && i < n { i += 1; } P::Whitespace }
                b'\n' => { i += 1; P::Newline }
                b'\r' => { i += if at(i + 1) == b'\n' { 2 } else { 1 }; P::Newline }
                b'#' => { while i < n && b[i] != b'\n' && !(b[i] == b'\r' && at(i + 1) == b'\n') { i += 1; } P::SingleLineComment }
                b';' => { i += 1; semi = true; P::Skipped }
                0xc2 if at(i + 1) == 0xa0 => { i += 2; P::Whitespace }
                _ => break,
            };
            if k == P::Newline { newline = true; split.get_or_insert(pieces.len()); }
            pieces.push((k, s as u32, i as u32));
        }
        let lead = match toks.last_mut() {
            None => pieces,
            Some(t) if t.kind == UNICODE_BOM => pieces,
            Some(t) => { let lead = pieces.split_off(split.unwrap_or(pieces.len())); t.trail = pieces; lead }
        };
        let start = i;
        if i >= n {
            toks.push(Tok { kind: EOF, start: n as u32, end: n as u32, lead, trail: vec![], newline, semi });
            break;
        }
        let mut fail = |m: &str| { if error.is_none() { error = Some((m.to_string(), start as u32)); } };
        let c = src[i..].chars().next().unwrap();
        let kind = match c {
            '0'..='9' => number(b, &mut i, &mut fail),
            '.' if at(i + 1).is_ascii_digit() => number(b, &mut i, &mut fail),
            '"' | '\'' => { string(b, &mut i, c as u8, &mut fail); R_STRING_LITERAL }
            '`' => {
                i += 1;
                loop { match at(i) { _ if i >= n => { fail("unterminated `"); break } b'`' => { i += 1; break } b'\\' => i = (i + 2).min(n), _ => i += 1 } }
                while !src.is_char_boundary(i) { i += 1; }
                if i - start == 2 { fail("empty `` name"); }
                IDENT
            }
            'r' | 'R' if raw_string(b, i).is_some() => {
                match raw_string(b, i).unwrap() { Some(e) => i = e, None => { fail("unterminated raw string"); i = n } }
                R_STRING_LITERAL
            }
            _ if ident_start(c) => {
                while let Some(c) = src[i..].chars().next() { if ident_part(c) { i += c.len_utf8(); } else { break } }
                word(&src[start..i])
            }
            '_' if !src[i + 1..].chars().next().is_some_and(ident_part) => { i += 1; IDENT }
            '%' => {
                i += 1;
                while i < n && b[i] != b'%' && b[i] != b'\n' { i += 1; }
                if at(i) == b'%' { i += 1; } else { fail("unterminated %") }
                SPECIAL
            }
            _ => {
                let ops: &[(&str, RSyntaxKind)] = &[
                    ("<<-", SUPER_ASSIGN), ("->>", SUPER_ASSIGN_RIGHT), (":::", COLON3), ("<-", ASSIGN), ("->", ASSIGN_RIGHT), ("<=", LESS_THAN_OR_EQUAL_TO), (">=", GREATER_THAN_OR_EQUAL_TO),
                    ("==", EQUAL2), ("!=", NOT_EQUAL), ("&&", AND2), ("||", OR2), ("|>", PIPE), ("::", COLON2), (":=", WALRUS), ("**", EXPONENTIATE2), ("[[", L_BRACK2), ("]]", R_BRACK2),
                    ("<", LESS_THAN), (">", GREATER_THAN), ("=", EQUAL), ("!", BANG), ("&", AND), ("|", OR), (":", COLON), ("*", MULTIPLY), ("/", DIVIDE), ("+", PLUS), ("-", MINUS), ("^", EXPONENTIATE),
                    ("~", TILDE), ("?", WAT), ("$", DOLLAR), ("@", AT), ("(", L_PAREN), (")", R_PAREN), ("{", L_CURLY), ("}", R_CURLY), ("[", L_BRACK), ("]", R_BRACK), (",", COMMA), ("\\", BACKSLASH),
                ];
                let found = ops.iter().find(|(s, k)| src[i..].starts_with(s) && (*k != R_BRACK2 || brackets.last() == Some(&b'B')));
                match found {
                    Some((s, k)) => {
                        i += s.len();
                        match k {
                            L_PAREN => brackets.push(b'('), L_CURLY => brackets.push(b'{'), L_BRACK => brackets.push(b'['), L_BRACK2 => brackets.push(b'B'),
                            R_PAREN | R_CURLY | R_BRACK | R_BRACK2 => { brackets.pop(); }
                            _ => {}
                        }
                        *k
                    }
                    None => { fail("unexpected character"); i += c.len_utf8(); IDENT }
                }
            }
        };
        toks.push(Tok { kind, start: start as u32, end: i as u32, lead, trail: vec![], newline, semi });
    }
    Lexed { toks, error }
}

fn number(b: &[u8], i: &mut usize, fail: &mut dyn FnMut(&str)) -> RSyntaxKind {
    let at = |i: usize| b.get(i).copied().unwrap_or(0);
    if at(*i) == b'0' && matches!(at(*i + 1), b'x' | b'X') {
        *i += 2;
        let s = *i;
        while at(*i).is_ascii_hexdigit() { *i += 1; }
        if *i == s { fail("empty hexadecimal number"); }
        if at(*i) == b'.' { *i += 1; while at(*i).is_ascii_hexdigit() { *i += 1; } }
        if matches!(at(*i), b'p' | b'P') {
            *i += 1;
            if matches!(at(*i), b'+' | b'-') { *i += 1; }
            while at(*i).is_ascii_digit() { *i += 1; }
        }
    } else {
        while at(*i).is_ascii_digit() { *i += 1; }
        if at(*i) == b'.' { *i += 1; while at(*i).is_ascii_digit() { *i += 1; } }
        if matches!(at(*i), b'e' | b'E') {
            *i += 1;
            if matches!(at(*i), b'+' | b'-') { *i += 1; }
            if !at(*i).is_ascii_digit() { fail("empty exponent"); }
            while at(*i).is_ascii_digit() { *i += 1; }
        }
    }
    match at(*i) { b'L' => { *i += 1; R_INTEGER_LITERAL } b'i' => { *i += 1; R_COMPLEX_LITERAL } _ => R_DOUBLE_LITERAL }
}
fn string(b: &[u8], i: &mut usize, q: u8, fail: &mut dyn FnMut(&str)) {
    *i += 1;
    loop {
        match b.get(*i) {
            None => { fail("unterminated string"); *i = b.len(); return }
            Some(c) if *c == q => { *i += 1; return }
            Some(b'\\') => { *i += 1; if *i < b.len() { *i += 1; while *i < b.len() && b[*i] & 0xc0 == 0x80 { *i += 1; } } }
            Some(_) => *i += 1,
        }
    }
}
/// None: not a raw string; Some(None): an unterminated one; Some(Some(end)).
fn raw_string(b: &[u8], i: usize) -> Option<Option<usize>> {
    let q = *b.get(i + 1)?;
    if q != b'"' && q != b'\'' { return None; }
    let mut j = i + 2;
    while b.get(j) == Some(&b'-') { j += 1; }
    let dashes = j - i - 2;
    let close = match b.get(j)? { b'(' => b')', b'[' => b']', b'{' => b'}', _ => return None };
    j += 1;
    while j < b.len() {
        if b[j] == close && b.len() > j + dashes + 1 && b[j + 1..j + 1 + dashes].iter().all(|c| *c == b'-') && b[j + 1 + dashes] == q { return Some(Some(j + dashes + 2)); }
        j += 1;
    }
    Some(None)
}
fn word(w: &str) -> RSyntaxKind {
    match w {
        "function" => FUNCTION_KW, "for" => FOR_KW, "in" => IN_KW, "while" => WHILE_KW, "repeat" => REPEAT_KW, "if" => IF_KW, "else" => ELSE_KW, "return" => RETURN_KW, "next" => NEXT_KW, "break" => BREAK_KW,
        "TRUE" => TRUE_KW, "FALSE" => FALSE_KW, "NULL" => NULL_KW, "Inf" => INF_KW, "NaN" => NAN_KW, "NA" => NA_LOGICAL_KW, "NA_integer_" => NA_INTEGER_KW, "NA_real_" => NA_DOUBLE_KW, "NA_complex_" => NA_COMPLEX_KW, "NA_character_" => NA_CHARACTER_KW,
        "..." => DOTS,
        _ if w.len() > 2 && w.starts_with("..") && w[2..].bytes().all(|c| c.is_ascii_digit()) => DOT_DOT_I,
        _ => IDENT,
    }
}

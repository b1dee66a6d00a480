//! P17 text formats.
use crate::sym;
use crate::val::*;
use fuel_tx::*;
use std::str::FromStr;

fn digit(n: u8, upper: bool) -> u8 {
    let a = if upper { b'A' } else { b'a' };
    sym::ite(n < 10, (n + b'0') as u64, (n.wrapping_sub(10).wrapping_add(a)) as u64) as u8
}
fn hex(b: &[u8], upper: bool) -> Vec<u8> {
    b.iter().flat_map(|x| [digit(x >> 4, upper), digit(x & 15, upper)]).collect()
}
/// value of a hexadecimal digit
fn value(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}
/// a number in hexadecimal, as far as this harness claims anything: digits only
fn number(s: &[u8]) -> Option<u64> {
    let mut n = 0;
    for c in s {
        n = n << 4 | value(*c)? as u64;
    }
    Some(n)
}
fn text<T: std::fmt::LowerHex + std::fmt::UpperHex>(t: &T, k: u64) -> String {
    match k {
        0 => format!("{:x}", t),
        1 => format!("{:X}", t),
        2 => format!("{:#x}", t),
        _ => format!("{:#X}", t),
    }
}

/// Does parsing `s` as a UTXO id, giving `r`, go as promised? Nothing is promised for signs, repeated
/// prefixes and texts longer than an id.
fn utxo_parses(s: &[u8], r: Result<UtxoId, &'static str>) {
    let d = if s.len() >= 2 && s[0] == b'0' && s[1] == b'x' { &s[2..] } else { s };
    if d.iter().any(|c| value(*c).is_none()) {
        if d.len() <= 66 && d.iter().any(|c| value(*c).is_none() && *c != b'x' && *c != b'+') {
            sym::check(r.is_err(), "a text with other characters is refused");
            sym::reach("other characters");
        }
        return;
    }
    if d.len() <= 2 {
        let n = number(d).unwrap_or(0) as u8;
        match r {
            Ok(u) => sym::check(sym::eq(&u.tx_id()[..], &[0; 32]) & (u.output_index() == n), "a short text is an output of the zero transaction"),
            Err(_) => sym::check(false, "a short text parses"),
        }
        sym::reach("short");
    } else if d.len() < 66 {
        sym::check(r.is_err(), "a text that ends early is refused");
        sym::reach("too short");
    } else if d.len() == 66 {
        let want: Vec<u8> = d.chunks(2).map(|c| number(c).unwrap() as u8).collect();
        match r {
            Ok(u) => sym::check(sym::eq(&u.tx_id()[..], &want[..32]) & (u.output_index() == want[32]), "the text of an id parses to that id"),
            Err(_) => sym::check(false, "the text of an id parses"),
        }
        sym::reach("whole");
    }
}
fn pointer_parses(s: &[u8], r: Result<TxPointer, &'static str>) {
    if s.len() != 12 || s.iter().any(|c| value(*c).is_none() && *c != b'+') {
        sym::check(r.is_err(), "a text that is not twelve digits is refused");
        sym::reach("refused");
    } else if let (Some(h), Some(i)) = (number(&s[..8]), number(&s[8..])) {
        match r {
            Ok(p) => sym::check((p.block_height() as u64 == h) & (p.tx_index() as u64 == i), "twelve digits parse to the pointer they denote"),
            Err(_) => sym::check(false, "twelve digits parse"),
        }
        sym::reach("pointer");
    }
}
/// digits of a text that is symbolic in `n` bytes from `at`
fn around(len: usize, at: usize, n: usize) -> Vec<u8> {
    let mut t: Vec<u8> = (0..len).map(|i| b"9aF04Bc7e"[i % 9]).collect();
    sym::fill(&mut t[at..at + n]);
    t
}

entries! {
p17_pointer {
    // text of every pointer
    let (h, i) = (sym::u32(), sym::u16());
    let upper = sym::choose(0, 1);
    let t = text(&TxPointer::new(h, i), upper);
    let mut want = hex(&h.to_be_bytes(), upper == 1);
    want.extend(hex(&i.to_be_bytes(), upper == 1));
    sym::check(sym::eq(t.as_bytes(), &want), "text of a pointer");
    sym::reach("pointer");
}
p17_pointer_back {
    let mut b = [0x0a, 0xf0, 0x09, 0x9c, 0xb1, 0x7e];
    let at = sym::choose(0, 4) as usize;
    sym::fill(&mut b[at..at + 2]);
    let (h, i) = (u32::from_be_bytes([b[0], b[1], b[2], b[3]]), u16::from_be_bytes([b[4], b[5]]));
    let t = text(&TxPointer::new(h, i), sym::choose(0, 1));
    match TxPointer::from_str(&t) {
        Ok(p) => sym::check((p.block_height() == h) & (p.tx_index() == i), "a pointer survives as text"),
        Err(_) => sym::check(false, "the text of a pointer parses"),
    }
    sym::reach("pointer");
}
p17_pointer_parse {
    let n = sym::bound(3, 4) as usize;
    let k = sym::choose(0, 12) as usize;
    let t = if k + n <= 12 { around(12, k, n) } else if k == 10 { around(11, 4, n) } else if k == 11 { around(13, 7, n) } else { bytes(n as u64) };
    if let Ok(s) = std::str::from_utf8(&t) {
        pointer_parses(&t, TxPointer::from_str(s));
    }
}
p17_utxo {
    let mut b: [u8; 33] = core::array::from_fn(|i| [0x0f, 0xa0, 0x73, 0x00, 0xee][i % 5]);
    let at = sym::choose(0, 31) as usize;
    sym::fill(&mut b[at..at + 2]);
    let mut id = [0; 32];
    id.copy_from_slice(&b[..32]);
    let f = sym::choose(0, 3);
    let t = text(&UtxoId::new(id.into(), b[32]), f);
    let mut want = if f >= 2 { b"0x".to_vec() } else { vec![] };
    want.extend(hex(&b, f % 2 == 1));
    sym::check(sym::eq(t.as_bytes(), &want), "text of a UTXO id");
    match UtxoId::from_str(&t) {
        Ok(u) => sym::check(sym::eq(&u.tx_id()[..], &id) & (u.output_index() == b[32]), "a UTXO id survives as text"),
        Err(_) => sym::check(false, "the text of a UTXO id parses"),
    }
    sym::reach("utxo id");
}
p17_utxo_short {
    let t = bytes(sym::choose(0, sym::bound(4, 5)));
    if let Ok(s) = std::str::from_utf8(&t) {
        utxo_parses(&t, UtxoId::from_str(s));
    }
}
p17_utxo_long {
    let n = sym::bound(2, 3) as usize;
    let t = match sym::choose(0, 3) {
        0 => around(66, sym::choose(0, 66 - n as u64) as usize, n),
        1 => {
            let mut t = b"0x".to_vec();
            t.extend(around(66, sym::choose(0, 66 - n as u64) as usize, n));
            t
        }
        2 => around(65, sym::choose(60, 65 - n as u64) as usize, n),
        _ => around(67, sym::choose(60, 67 - n as u64) as usize, n),
    };
    if let Ok(s) = std::str::from_utf8(&t) {
        utxo_parses(&t, UtxoId::from_str(s));
    }
}
}

//! P05: decoding arbitrary bytes.
use crate::sym;
use crate::val::*;
use fuel_tx::*;
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::io::Write;

/// allocations of one decoding step may not exceed this many bytes, whatever lengths the input claims
const LIMIT: usize = 1 << 16;

/// `buf` decodes to an error, or to a value whose encoding decodes to the same value again
fn hostile<T: Write + Deserializable + SerializableVec + Clone + SizedBytes>(mut v: T, buf: &[u8], same: impl Fn(&T, &T) -> bool) -> Option<T> {
    sym::alloc_limit(LIMIT);
    let r = v.write(buf);
    sym::alloc_limit(usize::MAX);
    match r {
        Err(_) => {
            sym::reach("refused");
            None
        }
        Ok(n) => {
            sym::reach("accepted");
            sym::check(n <= buf.len(), "no more bytes are consumed than given");
            let b = v.clone().to_bytes();
            sym::check(b.len() == v.serialized_size(), "the value accepted has an encoding");
            match T::from_bytes(&b) {
                Ok(w) => sym::check(same(&v, &w), "re-encoding the decoded value preserves it"),
                Err(_) => sym::check(false, "the encoding of a decoded value decodes"),
            }
            Some(v)
        }
    }
}
fn word(b: &mut Vec<u8>, v: u64) {
    b.extend_from_slice(&v.to_be_bytes())
}
fn same_in(a: &Input, b: &Input) -> bool {
    SIn::from(a).same(&SIn::from(b))
}
fn same_out(a: &Output, b: &Output) -> bool {
    SOut::from(a).same(&SOut::from(b))
}
fn same_tx(a: &Transaction, b: &Transaction) -> bool {
    match (a, b) {
        (Transaction::Mint(a), Transaction::Mint(b)) => SMint::from(a).same(&SMint::from(b)),
        _ => match (STx::from(a), STx::from(b)) {
            (Some(a), Some(b)) => a.same(&b),
            _ => false,
        },
    }
}

/// any word: one of 0..=max, decided here, or an arbitrary larger one
fn claim(max: u64) -> u64 {
    let k = sym::choose(0, max + 1);
    if k <= max {
        return k;
    }
    let v = sym::u64();
    sym::assume(v > max);
    v
}
/// a length: one of `some`, or any word larger than `max`
fn length(some: &[u64], max: u64) -> u64 {
    let k = sym::choose(0, some.len() as u64) as usize;
    if k < some.len() {
        return some[k];
    }
    let v = sym::u64();
    sym::assume(v > max);
    v
}
/// no buffer here has that many bytes
const BIG: u64 = 1000;
/// an element as it may appear on the wire: its kind, fields of one repeated byte, its announced lengths
/// and the bytes behind
fn element(b: &mut Vec<u8>, kind: u64, fill: u8) {
    match kind {
        0 => {
            word(b, 0);
            b.extend(vec![fill; (144) as usize]);
            let (p, d) = [(0, 0), (1, 0), (1, 8), (8, 3), (0, 5)][sym::choose(0, 4) as usize];
            word(b, p);
            word(b, d);
            b.extend(vec![fill; (p.div_ceil(8) * 8 + d.div_ceil(8) * 8) as usize]);
        }
        1 => {
            word(b, 1);
            b.extend(vec![fill; (152) as usize]);
        }
        2 => {
            word(b, 2);
            b.extend(vec![fill; (120) as usize]);
            let (n, p, d) = [(0, 0, 0), (3, 0, 0), (9, 1, 0), (0, 8, 1)][sym::choose(0, 3) as usize];
            word(b, n);
            word(b, p);
            word(b, d);
            b.extend(vec![fill; (n.div_ceil(8) * 8 + p.div_ceil(8) * 8 + d.div_ceil(8) * 8) as usize]);
        }
        3 => {
            word(b, sym::choose(0, 6));
            b.extend(vec![fill; (72) as usize]);
        }
        _ => {
            let n = [0, 1, 8][sym::choose(0, 2) as usize];
            word(b, n);
            b.extend(vec![fill; (n.div_ceil(8) * 8) as usize]);
        }
    }
}
/// elements of any kinds in any order, cut anywhere near the end
fn elements(b: &mut Vec<u8>, n: u64) {
    let fill = [0u8, 1, 0xff][sym::choose(0, 2) as usize];
    for _ in 0..n {
        element(b, sym::choose(0, 4), fill);
    }
    let cut = [0usize, 1, 8, 9][sym::choose(0, 3) as usize];
    if cut < b.len() {
        b.truncate(b.len() - cut);
    }
}
/// a count: 0, 1, 2 or anything more than there is room for
fn count() -> u64 {
    let v = sym::u64();
    sym::assume((v < 4) | (v > BIG));
    v
}

entries! {
p05_input {
    // any content, of the lengths around those of the fixed parts
    let n = [0u64, 7, 8, 47, 96, 151, 152, 153, 159, 160, 161, 167, 168, 176][sym::choose(0, sym::bound(12, 13)) as usize];
    let b = bytes(n);
    hostile(Input::default(), &b, same_in);
}
p05_input_coin {
    // the lengths of the dynamic parts are arbitrary words
    let mut b = vec![];
    word(&mut b, 0);
    b.extend(bytes(144));
    let m = sym::bound(16, 33);
    word(&mut b, claim(m));
    word(&mut b, claim(m));
    b.extend(bytes(sym::choose(0, m)));
    hostile(Input::default(), &b, same_in);
}
p05_input_message {
    let mut b = vec![];
    word(&mut b, 2);
    b.extend(bytes(120));
    let some: &[u64] = if sym::thorough() { &[0, 1, 2, 3, 7, 8, 9, 16, 17] } else { &[0, 1, 7, 8, 9] };
    for _ in 0..3 { word(&mut b, length(some, 40)); }
    b.extend(bytes([0u64, 3, 7, 8, 9, 16, 23, 24, 25, 32, 40][sym::choose(0, 10) as usize]));
    hostile(Input::default(), &b, same_in);
}
p05_output {
    let b = bytes(sym::choose(0, 90));
    hostile(Output::default(), &b, same_out);
}
p05_leaf {
    let n = sym::choose(0, 72);
    let b = bytes(n);
    match sym::choose(0, 2) {
        0 => { hostile(UtxoId::default(), &b, |a, b| sym::eq(&a.tx_id()[..], &b.tx_id()[..]) & (a.output_index() == b.output_index())); }
        1 => { hostile(TxPointer::default(), &b, |a, b| (a.block_height() == b.block_height()) & (a.tx_index() == b.tx_index())); }
        _ => { hostile(StorageSlot::default(), &b, |a, b| sym::eq(&a.key()[..], &b.key()[..]) & sym::eq(&a.value()[..], &b.value()[..])); }
    }
}
p05_witness {
    let m = sym::bound(25, 66);
    let mut b = vec![];
    if sym::bool() { word(&mut b, claim(m)); }
    b.extend(bytes(sym::choose(0, m)));
    if b.len() < 24 || sym::choose(0, 1) == 0 { hostile(Witness::default(), &b, |a, b| sym::eq(a.as_vec(), b.as_vec())); }
}
p05_receipt {
    // the discriminant is arbitrary, then any bytes, of any length around the sizes of the variants
    // that have a fixed one
    let n = [0u64, 7, 8, 63, 64, 71, 72, 79, 80, 87, 88, 95, 96, 103, 119, 127, 128, 135, 136, 143, 150, 151, 152, 159, 160, 167, 168, 175, 183, 184, 191, 192, 236, 237, 238, 239, 240][sym::choose(0, 36) as usize];
    let b = bytes(n);
    if n >= 8 {
        let tag = u64::from_be_bytes(b[..8].try_into().unwrap());
        let t = claim(10);
        sym::assume((tag == t) & ((t != 2) | (n < 96)) & ((t != 6) | (n < 112)) & ((t != 10) | (n < 192)));
    }
    hostile(Receipt::ret(Default::default(), 0, 0, 0), &b, |a, b| SRec::from(a).same(&SRec::from(b)));
}
p05_receipt_data {
    let m = sym::bound(18, 34);
    let mut b = vec![];
    let (tag, before) = [(2u64, 80), (6, 96), (10, 176)][sym::choose(0, 2) as usize];
    word(&mut b, tag);
    b.extend(bytes(before));
    word(&mut b, claim(m + 16));
    b.extend(bytes(sym::choose(0, m + 16)));
    hostile(Receipt::ret(Default::default(), 0, 0, 0), &b, |a, b| SRec::from(a).same(&SRec::from(b)));
}
p05_script {
    let mut b = vec![];
    word(&mut b, 0);
    b.extend(bytes(24));
    let m = sym::bound(9, 17);
    word(&mut b, claim(m));
    word(&mut b, claim(m));
    for _ in 0..3 { word(&mut b, if sym::bool() { 0 } else { sym::u64() }) }
    b.extend(bytes(32));
    // no room for an element
    b.extend(bytes(sym::choose(0, m)));
    if let Some(t) = hostile(Transaction::default(), &b, same_tx) { sym::check(t.is_script(), "kind"); }
}
p05_script_elements {
    let mut b = vec![];
    word(&mut b, 0);
    b.extend(bytes(24));
    word(&mut b, 0);
    word(&mut b, 0);
    for _ in 0..3 { word(&mut b, count()) }
    b.extend(bytes(32));
    elements(&mut b, sym::bound(2, 3));
    hostile(Script::default(), &b, |a, b| STx::from_script(a).same(&STx::from_script(b)));
}
p05_create {
    let mut b = vec![];
    word(&mut b, 1);
    b.extend(bytes(40));
    word(&mut b, sym::u64());
    word(&mut b, if sym::bool() { 0 } else { sym::u64() });
    word(&mut b, if sym::bool() { 0 } else { sym::u64() });
    word(&mut b, 0);
    b.extend(bytes(32));
    b.extend(bytes([0u64, 8, 16, 63, 64, 72, 128, 136][sym::choose(0, 7) as usize]));
    if let Some(t) = hostile(Transaction::default(), &b, same_tx) { sym::check(t.is_create(), "kind"); }
}
p05_create_elements {
    let mut b = vec![];
    word(&mut b, 1);
    b.extend(bytes(40));
    for _ in 0..4 { word(&mut b, count()) }
    b.extend(bytes(32));
    b.extend(vec![0u8; 64 * sym::choose(0, 1) as usize]);
    elements(&mut b, sym::bound(1, 2));
    if let Some(t) = hostile(Transaction::default(), &b, same_tx) { sym::check(t.is_create(), "kind"); }
}
p05_mint {
    let mut b = vec![];
    word(&mut b, 2);
    b.extend(bytes([0u64, 15, 16, 24, 60, 72, 80, 104, 112, 152, 184][sym::choose(0, 10) as usize]));
    if let Some(t) = hostile(Transaction::default(), &b, same_tx) { sym::check(t.is_mint(), "kind"); }
}
p05_kind {
    // any discriminant, any length below the fixed parts
    let b = bytes(sym::choose(0, 111));
    hostile(Transaction::default(), &b, same_tx);
}
}

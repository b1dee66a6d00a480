//! P01 leaf encodings, P02 transactions, P03 receipts, P04 size accounting.
use crate::sym;
use crate::val::*;
use fuel_tx::field::{BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _, Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _, Witnesses as _};
use fuel_tx::*;
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::io::{Read, Write};

/// encode: the bytes of the reference encoder, in the announced size
fn encodes<T: Read + SizedBytes>(mut v: T, want: &[u8]) {
    sym::check(v.serialized_size() == want.len(), "announced size is the size of the encoding");
    let b = v.to_bytes();
    sym::check(sym::eq(&b, want), "encoding is the canonical byte string");
    sym::observe("encoding", &b);
}
/// decode with trailing bytes present: all of the encoding and nothing more is consumed
fn decodes<T: Write + Deserializable>(mut v: T, want: &[u8]) -> T {
    let mut b = want.to_vec();
    b.extend_from_slice(&[0xa5; 24]);
    match v.write(&b) {
        Ok(n) => sym::check(n == want.len(), "decoding consumes exactly the encoding"),
        Err(_) => sym::check(false, "canonical encoding decodes"),
    }
    match T::from_bytes(want) {
        Ok(w) => w,
        Err(_) => {
            sym::check(false, "canonical encoding decodes without trailing bytes");
            v
        }
    }
}

pub fn in_shape(i: u64) -> SIn {
    match i {
        0 => SIn::any(COIN, 0, 0, 0),
        1 => SIn::any(COINP, 0, 5, 3),
        2 => SIn::any(CONTRACT, 0, 0, 0),
        3 => SIn::any(MSG, 9, 0, 0),
        4 => SIn::any(MSGP, 3, 1, 8),
        5 => SIn::any(MSG, 0, 0, 0),
        6 => SIn::any(MSGP, 0, 16, 0),
        _ => SIn::any(COINP, 0, 8, 0),
    }
}
pub fn some_in(max: u64) -> SIn {
    in_shape(sym::choose(0, max))
}
pub fn some_out() -> SOut {
    SOut::any(sym::choose(0, 5) as u8)
}
pub fn check_tx(s: &STx) {
    let want = s.enc().b;
    if s.create {
        encodes(s.create_tx(), &want);
        let c = decodes(Create::default(), &want);
        sym::check(STx::from_create(&c).same(s), "create survives the round trip");
        sym::check(Script::from_bytes(&want).is_err() & Mint::from_bytes(&want).is_err(), "another transaction kind is rejected");
    } else {
        encodes(s.script_tx(), &want);
        let c = decodes(Script::default(), &want);
        sym::check(STx::from_script(&c).same(s), "script survives the round trip");
        sym::check(Create::from_bytes(&want).is_err() & Mint::from_bytes(&want).is_err(), "another transaction kind is rejected");
    }
    encodes(s.tx(), &want);
    let t = decodes(Transaction::default(), &want);
    match STx::from(&t) {
        Some(d) => sym::check(d.same(s), "transaction survives the round trip"),
        None => sym::check(false, "transaction keeps its kind"),
    }
}

entries! {
// ---------------------------------------------------------------- P01
p01_input {
    let k = sym::choose(0, 4) as u8;
    let d = if k >= MSG { len(6, 12) } else { 0 };
    let (p, q) = if k == COINP || k == MSGP { (LENS[sym::choose(1, sym::bound(5, 12)) as usize], len(5, 9)) } else { (0, 0) };
    let s = SIn::any(k, d, p, q);
    let want = s.encoded().b;
    encodes(s.to(), &want);
    let r = decodes(Input::default(), &want);
    sym::check(SIn::from(&r).same(&s), "input survives the round trip");
    match k { COIN => sym::reach("coin"), COINP => sym::reach("coin predicate"), CONTRACT => sym::reach("contract"), MSG => sym::reach("message"), _ => sym::reach("message predicate") }
}
p01_input_long {
    let k = sym::choose(0, 2);
    let l = LENS[sym::choose(7, 15) as usize];
    let s = match (k, sym::choose(0, 2)) {
        (0, 0) => SIn::any(COINP, 0, l, 3),
        (0, _) => SIn::any(COINP, 0, 3, l),
        (1, _) => SIn::any(MSG, l, 0, 0),
        (_, 0) => SIn::any(MSGP, l, 3, 5),
        (_, 1) => SIn::any(MSGP, 1, l, 5),
        _ => SIn::any(MSGP, 1, 3, l),
    };
    let want = s.encoded().b;
    encodes(s.to(), &want);
    sym::check(SIn::from(&decodes(Input::default(), &want)).same(&s), "input survives the round trip");
    sym::reach("long");
}
p01_input_huge {
    let l = sym::choose(0, sym::bound(2, 8)) + 65535;
    let s = match sym::choose(0, 5) {
        0 => SIn::any(COINP, 0, l, 3),
        1 => SIn::any(COINP, 0, 3, l),
        2 => SIn::any(MSG, l, 0, 0),
        3 => SIn::any(MSGP, l, 3, 5),
        4 => SIn::any(MSGP, 1, l, 5),
        _ => SIn::any(MSGP, 1, 3, l),
    };
    let want = s.encoded().b;
    encodes(s.to(), &want);
    sym::check(SIn::from(&decodes(Input::default(), &want)).same(&s), "input survives the round trip");
    sym::reach("huge");
}
p01_witness_huge {
    let w = bytes(sym::choose(0, sym::bound(2, 8)) + 65535);
    let mut e = Enc::default();
    e.w(w.len() as u64);
    e.raw(&w);
    encodes(Witness::from(w.clone()), &e.b);
    let r = decodes(Witness::default(), &e.b);
    sym::check(sym::eq(r.as_vec(), &w), "witness survives the round trip");
    sym::reach("huge");
}
p01_output {
    let s = some_out();
    let want = s.encoded().b;
    encodes(s.to(), &want);
    let r = decodes(Output::default(), &want);
    sym::check(SOut::from(&r).same(&s), "output survives the round trip");
    sym::reach("output");
}
p01_leaves {
    match sym::choose(0, 3) {
        0 => {
            let (t, i) = (sym::arr::<32>(), sym::u8());
            let mut want = t.to_vec();
            want.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, i]);
            encodes(UtxoId::new(t.into(), i), &want);
            let r = decodes(UtxoId::default(), &want);
            sym::check(sym::eq(&r.tx_id()[..], &t) & (r.output_index() == i), "utxo id survives the round trip");
            sym::reach("utxo id");
        }
        1 => {
            let (h, i) = (sym::u32(), sym::u16());
            let mut e = Enc::default();
            e.w(h as u64);
            e.w(i as u64);
            encodes(TxPointer::new(h, i), &e.b);
            let r = decodes(TxPointer::default(), &e.b);
            sym::check((r.block_height() == h) & (r.tx_index() == i), "transaction pointer survives the round trip");
            // words that do not fit the pointer are refused rather than truncated
            let (a, b) = (sym::u64(), sym::u64());
            let mut e = Enc::default();
            e.w(a);
            e.w(b);
            match TxPointer::from_bytes(&e.b) {
                Ok(t) => { sym::check((t.block_height() as u64 == a) & (t.tx_index() as u64 == b), "decoded pointer denotes the encoded words"); sym::reach("pointer in range") }
                Err(_) => { sym::check((a > u32::MAX as u64) | (b > u16::MAX as u64), "pointers in range decode"); sym::reach("pointer out of range") }
            }
        }
        2 => {
            let (k, v) = (sym::arr::<32>(), sym::arr::<32>());
            let mut want = k.to_vec();
            want.extend_from_slice(&v);
            let s = StorageSlot::new(k.into(), v.into());
            encodes(s.clone(), &want);
            let r = decodes(StorageSlot::default(), &want);
            sym::check(sym::eq(&r.key()[..], &k) & sym::eq(&r.value()[..], &v), "storage slot survives the round trip");
            let b = Bytes64::from(&s);
            sym::check(sym::eq(&b[..], &want), "storage slot as bytes");
            let r = StorageSlot::from(&b);
            sym::check(sym::eq(&r.key()[..], &k) & sym::eq(&r.value()[..], &v), "storage slot from bytes");
            sym::reach("slot");
        }
        _ => {
            let w = bytes(len(15, 15));
            let mut e = Enc::default();
            e.w(w.len() as u64);
            e.raw(&w);
            encodes(Witness::from(w.clone()), &e.b);
            let r = decodes(Witness::default(), &e.b);
            sym::check(sym::eq(r.as_vec(), &w), "witness survives the round trip");
            sym::reach("witness");
        }
    }
}
// ---------------------------------------------------------------- P02
p02_script_inputs {
    let mut s = STx::any(false);
    for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.ins.push(some_in(sym::bound(7, 4))); }
    s.script = bytes(4);
    s.outs.push(SOut::any(OCOIN));
    s.wits.push(bytes(3));
    check_tx(&s);
    if s.ins.len() == 2 { sym::reach("two inputs") }
}
p02_script_outputs {
    let mut s = STx::any(false);
    for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.outs.push(some_out()); }
    s.ins.push(SIn::any(CONTRACT, 0, 0, 0));
    s.sdata = bytes(9);
    check_tx(&s);
    if s.outs.len() == 2 { sym::reach("two outputs") }
}
p02_script_strings {
    let mut s = STx::any(false);
    s.script = bytes(len(9, 15));
    s.sdata = bytes(len(9, 15));
    for _ in 0..sym::choose(0, sym::bound(1, 2)) { s.wits.push(bytes(LENS[sym::choose(0, 3) as usize * 2])); }
    s.outs.push(SOut::any(OMSG));
    check_tx(&s);
    sym::reach("script strings");
}
p02_script_counts {
    // many elements of the same kind: counts beyond the small shapes above
    let mut s = STx::any(false);
    let n = [3u64, 5, 8, 9][sym::choose(0, 3) as usize];
    match sym::choose(0, 2) {
        0 => for i in 0..n { s.ins.push(in_shape(i % 5)) },
        1 => for i in 0..n { s.outs.push(SOut::any((i % 6) as u8)) },
        _ => for i in 0..n { s.wits.push(bytes(i)) },
    }
    check_tx(&s);
    sym::reach("script counts");
}
p02_many {
    // counts around one byte's range
    let n = sym::choose(0, sym::bound(4, 5)) + 254;
    match sym::choose(0, 4) {
        0 => {
            let mut s = STx::any(false);
            for i in 0..n { s.ins.push(if i == n - 2 { SIn::any(COINP, 0, 5, 3) } else { SIn::any(MSG, 0, 0, 0) }); }
            check_tx(&s);
        }
        1 => {
            let mut s = STx::any(false);
            for i in 0..n { s.outs.push(SOut::any((i % 6) as u8)); }
            check_tx(&s);
        }
        2 => {
            let mut s = STx::any(false);
            for i in 0..n { s.wits.push(bytes(i % 9)); }
            check_tx(&s);
        }
        3 => {
            let mut s = STx::any(true);
            for _ in 0..n { s.slots.push((sym::arr(), sym::arr())); }
            s.wits.push(bytes(1));
            check_tx(&s);
        }
        _ => {
            let mut s = SMint::any();
            for i in 0..n { s.outs.push(SOut::any((i % 6) as u8)); }
            let want = s.enc().b;
            encodes(s.to(), &want);
            sym::check(SMint::from(&decodes(Mint::default(), &want)).same(&s), "mint survives the round trip");
        }
    }
    sym::reach("many");
}
p02_long {
    // byte strings around one and two bytes' range
    let n = [255u64, 256, 257, 65535, 65536, 65537, 70000][sym::choose(0, 6) as usize];
    let k = sym::choose(0, 5);
    let mut s = STx::any(k == 3);
    match k {
        0 => s.script = bytes(n),
        1 => s.sdata = bytes(n),
        2 => s.wits = vec![bytes(n), bytes(3)],
        3 => s.wits = vec![bytes(1), bytes(n)],
        4 => s.ins.push(SIn::any(COINP, 0, n, 5)),
        _ => s.ins.push(SIn::any(MSGP, n, 3, 5)),
    }
    s.outs.push(SOut::any(OCHANGE));
    check_tx(&s);
    sym::reach("long");
}
p02_create_inputs {
    let mut s = STx::any(true);
    for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.ins.push(some_in(sym::bound(7, 4))); }
    s.outs.push(SOut::any(OCREATED));
    s.wits.push(bytes(4));
    s.slots.push((sym::arr(), sym::arr()));
    check_tx(&s);
    if s.ins.len() == 2 { sym::reach("two inputs") }
}
p02_create_outputs {
    let mut s = STx::any(true);
    for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.outs.push(some_out()); }
    s.ins.push(SIn::any(COIN, 0, 0, 0));
    check_tx(&s);
    if s.outs.len() == 2 { sym::reach("two outputs") }
}
p02_create_rest {
    let mut s = STx::any(true);
    for _ in 0..sym::choose(0, sym::bound(4, 9)) { s.slots.push((sym::arr(), sym::arr())); }
    for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.wits.push(bytes(len(6, 9))); }
    check_tx(&s);
    if s.slots.len() == 2 && s.wits.len() == 2 { sym::reach("slots and witnesses") }
}
p02_mint {
    let mut s = SMint::any();
    for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.outs.push(some_out()); }
    let want = s.enc().b;
    encodes(s.to(), &want);
    let m = decodes(Mint::default(), &want);
    sym::check(SMint::from(&m).same(&s), "mint survives the round trip");
    sym::check(Script::from_bytes(&want).is_err() & Create::from_bytes(&want).is_err(), "another transaction kind is rejected");
    encodes(Transaction::Mint(s.to()), &want);
    match decodes(Transaction::default(), &want) {
        Transaction::Mint(m) => sym::check(SMint::from(&m).same(&s), "mint survives the round trip as a transaction"),
        _ => sym::check(false, "mint stays a mint"),
    }
    if s.outs.len() == 2 { sym::reach("mint with two outputs") }
}
// ---------------------------------------------------------------- P03
p03_receipt {
    let k = sym::choose(0, 10) as u8;
    let n = if has_data(k) { len(10, 15) } else { 0 };
    let s = SRec::any(k, n);
    let want = s.enc().b;
    let mut r = s.to();
    let size = r.serialized_size();
    sym::check(size >= want.len(), "announced size covers the encoding");
    let b = r.to_bytes();
    sym::check(b.len() == size && sym::eq(&b[..want.len()], &want), "encoding is the canonical byte string");
    sym::check(sym::eq(&b[want.len()..], &vec![0u8; size - want.len()]), "the rest is zero");
    let mut d = Receipt::ret(Default::default(), 1, 2, 3);
    match d.write(&b) {
        Ok(m) => sym::check(m == size, "decoding consumes the announced size"),
        Err(_) => sym::check(false, "encoding decodes"),
    }
    sym::check(SRec::from(&d).same(&s), "receipt survives the round trip");
    match Receipt::from_bytes(&b) {
        Ok(d) => sym::check(SRec::from(&d).same(&s), "receipt survives the round trip by from_bytes"),
        Err(_) => sym::check(false, "encoding decodes by from_bytes"),
    }
    match k { R_PANIC => sym::reach("panic"), R_RESULT => sym::reach("result"), R_MSG => sym::reach("message"), R_LOGDATA => sym::reach("log data"), _ => sym::reach("other") }
}
p03_long {
    let n = [255u64, 256, 257, 65535, 65536, 65537, 70000][sym::choose(0, 6) as usize];
    let k = sym::choose(0, 10) as u8;
    if has_data(k) {
        let s = SRec::any(k, n);
        let want = s.enc().b;
        let mut r = s.to();
        let b = r.to_bytes();
        sym::check(r.serialized_size() == b.len() && b.len() >= want.len() && sym::eq(&b[..want.len()], &want), "encoding is the canonical byte string");
        match Receipt::from_bytes(&b) {
            Ok(d) => sym::check(SRec::from(&d).same(&s), "receipt survives the round trip"),
            Err(_) => sym::check(false, "encoding decodes"),
        }
        sym::reach("long");
    }
}
p03_trailing {
    // a receipt is followed by the next one in a stream
    let k = sym::choose(0, 10) as u8;
    let s = SRec::any(k, 5);
    let t = SRec::any(R_LOGDATA, 3);
    let mut b = s.to().to_bytes();
    let n = b.len();
    b.extend(t.to().to_bytes());
    let (mut x, mut y) = (Receipt::ret(Default::default(), 0, 0, 0), Receipt::ret(Default::default(), 0, 0, 0));
    match x.write(&b) {
        Ok(m) => {
            sym::check(m == n, "consumed size is the first receipt");
            sym::check(y.write(&b[m..]).is_ok(), "second receipt decodes");
            sym::check(SRec::from(&x).same(&s) & SRec::from(&y).same(&t), "both receipts survive");
            sym::reach("stream");
        }
        Err(_) => sym::check(false, "first receipt decodes"),
    }
}
}

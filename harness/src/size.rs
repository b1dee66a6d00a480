//! P04 size accounting and buffers, P05 decoding arbitrary bytes, P06 offsets.
use crate::sym;
use crate::val::*;
use crate::wire::{in_shape, some_in, some_out};
use fuel_tx::field::{BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _, Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _, Witnesses as _};
use fuel_tx::*;
use fuel_types::bytes::{Deserializable, SerializableVec, SizedBytes};
use std::io::{Read, Write};

/// All buffer lengths around the size of `v`: short ones are refused in both directions, sufficient ones
/// hold exactly the announced bytes whatever they contained before, and nothing beyond is touched.
fn buffers<T: Read + Write + SizedBytes + Deserializable + Clone>(v: T) {
    let n = v.serialized_size();
    sym::check(n % 8 == 0, "sizes are multiples of the word");
    let want = v.clone().to_bytes();
    sym::check(want.len() == n, "vector encoding has the announced size");
    for extra in [0usize, 1, 8, 13] {
        let mut buf = vec![0u8; n + extra];
        sym::fill(&mut buf);
        let before = buf.clone();
        match v.clone().read(&mut buf) {
            Ok(m) => sym::check(m == n, "written size is the announced size"),
            Err(_) => sym::check(false, "a sufficient buffer is accepted"),
        }
        sym::check(sym::eq(&buf[..n], &want), "bytes written do not depend on the buffer");
        sym::check(sym::eq(&buf[n..], &before[n..]), "bytes beyond the encoding are untouched");
        match v.clone().write(&[&want[..], &before[n..]].concat()) {
            Ok(m) => sym::check(m == n, "consumed size is the announced size"),
            Err(_) => sym::check(false, "an encoding with trailing bytes decodes"),
        }
    }
    let step = if n > 256 && !sym::thorough() { 5 } else { 1 };
    let mut m = 0;
    while m < n {
        let mut buf = vec![0u8; m];
        sym::check(v.clone().read(&mut buf).is_err(), "a short buffer is refused when encoding");
        sym::check(v.clone().write(&want[..m]).is_err(), "a truncated encoding is refused");
        m = if m + step >= n && m + 1 < n { n - 1 } else { m + step };
    }
}

fn offset_is(got: usize, e: &Enc, name: &'static str) {
    sym::check(got == e.at(name, 0), "offset locates the field");
}
fn opt_is(got: Option<usize>, want: Option<usize>) {
    sym::check(got == want, "offset of the element");
}
/// indices to look at among `n` elements: all of them and two beyond, or the ends and the middle of many
fn places(n: usize) -> Vec<usize> {
    if n < 8 {
        (0..n + 2).collect()
    } else {
        vec![0, 1, n / 2, 128, 254, 255, 256, n - 2, n - 1, n, n + 1, usize::MAX]
    }
}
macro_rules! executable_offsets {
    ($t:expr, $s:expr, $e:expr) => {
        let (t, s, e) = ($t, $s, $e);
        for i in places(s.ins.len()) {
            opt_is(t.inputs_offset_at(i), e.find("input", i));
            let p = e.find("input_predicate", i).map(|o| (o, pad(s.ins[i].pred.len())));
            sym::check(t.inputs_predicate_offset_at(i) == p, "predicate of the input");
        }
        for i in places(s.outs.len()) {
            opt_is(t.outputs_offset_at(i), e.find("output", i));
        }
        for i in places(s.wits.len()) {
            opt_is(t.witnesses_offset_at(i), e.find("witness", i));
        }
        offset_is(t.gas_price_offset(), e, "gas_price");
        offset_is(t.gas_limit_offset(), e, "gas_limit");
        offset_is(t.maturity_offset(), e, "maturity");
        offset_is(t.inputs_offset(), e, "inputs");
        offset_is(t.outputs_offset(), e, "outputs");
        offset_is(t.witnesses_offset(), e, "witnesses");
        sym::check(t.serialized_size() == e.b.len(), "size of the transaction");
        sym::check(t.metered_bytes_size() == e.at("witnesses", 0), "metered bytes end where witnesses start");
    };
}
fn script_offsets(t: &Script, s: &STx, e: &Enc) {
    executable_offsets!(t, s, e);
    offset_is(t.receipts_root_offset(), e, "receipts_root");
    offset_is(t.script_offset(), e, "script");
    offset_is(t.script_data_offset(), e, "script_data");
}
fn create_offsets(t: &Create, s: &STx, e: &Enc) {
    executable_offsets!(t, s, e);
    offset_is(t.bytecode_length_offset(), e, "bytecode_length");
    offset_is(t.bytecode_witness_index_offset(), e, "bytecode_witness_index");
    offset_is(t.salt_offset(), e, "salt");
    offset_is(t.storage_slots_offset(), e, "slots");
    for i in places(s.slots.len()) {
        opt_is(t.storage_slots_offset_at(i), e.find("slot", i));
    }
}
fn offsets(s: &STx) {
    let e = s.enc();
    if s.create {
        let mut t = s.create_tx();
        sym::check(sym::eq(&t.to_bytes(), &e.b), "encoding");
        create_offsets(&t, s, &e);
        t.precompute();
        sym::check(t.is_computed(), "cached");
        create_offsets(&t, s, &e);
    } else {
        let mut t = s.script_tx();
        sym::check(sym::eq(&t.to_bytes(), &e.b), "encoding");
        script_offsets(&t, s, &e);
        t.precompute();
        sym::check(t.is_computed(), "cached");
        script_offsets(&t, s, &e);
    }
}

entries! {
// ---------------------------------------------------------------- P04
p04_input {
    buffers(some_in(7).to());
    sym::reach("input");
}
p04_output {
    buffers(some_out().to());
    sym::reach("output");
}
p04_leaf {
    match sym::choose(0, 3) {
        0 => buffers(UtxoId::new(sym::arr().into(), sym::u8())),
        1 => buffers(TxPointer::new(sym::u32(), sym::u16())),
        2 => buffers(StorageSlot::new(sym::arr().into(), sym::arr().into())),
        _ => buffers(Witness::from(bytes(len(8, 12)))),
    }
    sym::reach("leaf");
}
p04_receipt {
    let k = sym::choose(0, 10) as u8;
    buffers(SRec::any(k, if has_data(k) { LENS[sym::choose(0, 5) as usize] } else { 0 }).to());
    sym::reach("receipt");
}
p04_script {
    let mut s = STx::any(false);
    s.script = bytes(LENS[sym::choose(0, 2) as usize * 2]);
    s.sdata = bytes(LENS[sym::choose(0, 2) as usize * 2 + 1]);
    for _ in 0..sym::choose(0, 1) { s.ins.push(some_in(4)); }
    for _ in 0..sym::choose(0, 1) { s.outs.push(SOut::any(OMSG)); }
    for _ in 0..sym::choose(0, 1) { s.wits.push(bytes(5)); }
    buffers(s.script_tx());
    if sym::thorough() || s.script.len() == 0 { buffers(s.tx()); }
    sym::reach("script");
}
p04_create {
    let mut s = STx::any(true);
    for _ in 0..sym::choose(0, 2) { s.slots.push((sym::arr(), sym::arr())); }
    for _ in 0..sym::choose(0, 1) { s.ins.push(some_in(4)); }
    for _ in 0..sym::choose(0, 1) { s.outs.push(SOut::any(OCREATED)); }
    for _ in 0..sym::choose(0, 1) { s.wits.push(bytes(5)); }
    buffers(s.create_tx());
    if sym::thorough() || s.slots.len() == 1 { buffers(s.tx()); }
    sym::reach("create");
}
p04_mint {
    let mut s = SMint::any();
    for _ in 0..sym::choose(0, 2) { s.outs.push(some_out()); }
    buffers(s.to());
    buffers(Transaction::Mint(s.to()));
    sym::reach("mint");
}
// ---------------------------------------------------------------- P06
p06_script {
    let mut s = STx::any(false);
    s.script = bytes(LENS[sym::choose(0, 4) as usize * 2]);
    s.sdata = bytes(LENS[sym::choose(0, 2) as usize * 3]);
    for _ in 0..sym::choose(0, sym::bound(1, 2)) { s.ins.push(some_in(7)); }
    if !sym::thorough() && s.ins.len() > 0 { s.ins.push(SIn::any(COINP, 0, 2, 1)); }
    for _ in 0..sym::choose(0, 2) { s.outs.push(SOut::any((s.outs.len() as u8 + 1) % 6)); }
    for i in 0..sym::choose(0, 2) { s.wits.push(bytes(3 + 8 * i)); }
    offsets(&s);
    sym::reach("script offsets");
}
p06_create {
    let mut s = STx::any(true);
    for _ in 0..sym::choose(0, 3) { s.slots.push((sym::arr(), sym::arr())); }
    for _ in 0..sym::choose(0, sym::bound(1, 2)) { s.ins.push(some_in(7)); }
    if !sym::thorough() && s.ins.len() > 0 { s.ins.push(SIn::any(MSGP, 4, 2, 1)); }
    for _ in 0..sym::choose(0, 2) { s.outs.push(SOut::any((s.outs.len() as u8 + 2) % 6)); }
    for i in 0..sym::choose(0, 2) { s.wits.push(bytes(3 + 8 * i)); }
    offsets(&s);
    sym::reach("create offsets");
}
p06_outputs {
    let mut s = STx::any(sym::choose(0, 1) == 1);
    for _ in 0..sym::choose(0, 2) { s.outs.push(some_out()); }
    s.ins.push(in_shape(1));
    s.wits.push(bytes(1));
    offsets(&s);
    sym::reach("output offsets");
}
p06_many {
    // more elements than a byte counts
    let n = sym::choose(255, 258);
    let k = sym::choose(0, 4);
    let mut s = STx::any(k == 3 || k == 4);
    match k {
        0 => for i in 0..n { s.ins.push(if i == n - 1 { SIn::any(COINP, 0, 5, 3) } else { in_shape(i % 6) }); },
        1 => for i in 0..n { s.outs.push(SOut::any((i % 6) as u8)); },
        2 => for i in 0..n { s.wits.push(bytes(i % 9)); },
        3 => for _ in 0..n { s.slots.push((sym::arr(), sym::arr())); },
        _ => for i in 0..n { s.ins.push(if i == n - 1 { SIn::any(MSGP, 2, 5, 3) } else { in_shape((i + 3) % 6) }); },
    }
    s.ins.push(in_shape(4));
    s.outs.push(SOut::any(OCOIN));
    s.wits.push(bytes(1));
    offsets(&s);
    sym::reach("many");
}
p06_long {
    // byte strings around one and two bytes' range
    let n = [255u64, 256, 257, 65535, 65536, 65537, 70000][sym::choose(0, 6) as usize];
    let k = sym::choose(0, 6);
    let mut s = STx::any(k == 3);
    match k {
        0 => s.script = bytes(n),
        1 => s.sdata = bytes(n),
        2 | 3 => s.wits = vec![bytes(n), bytes(3)],
        4 => s.ins.push(SIn::any(COINP, 0, n, 5)),
        5 => s.ins.push(SIn::any(COINP, 0, 3, n)),
        _ => s.ins.push(SIn::any(MSGP, n, 3, 5)),
    }
    s.ins.push(SIn::any(MSGP, 1, 2, 3));
    s.outs.push(SOut::any(OCHANGE));
    s.wits.push(bytes(1));
    offsets(&s);
    sym::reach("long");
}
p06_mint {
    let mut s = SMint::any();
    if sym::choose(0, 1) == 1 {
        for i in 0..sym::choose(255, 258) { s.outs.push(SOut::any((i % 6) as u8)); }
    } else {
        for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.outs.push(some_out()); }
    }
    let e = s.enc();
    let mut t = s.to();
    for _ in 0..2 {
        sym::check(sym::eq(&t.to_bytes(), &e.b), "encoding");
        offset_is(t.tx_pointer_offset(), &e, "tx_pointer");
        offset_is(t.outputs_offset(), &e, "outputs");
        for i in places(s.outs.len()) { opt_is(t.outputs_offset_at(i), e.find("output", i)); }
        t.precompute();
    }
    sym::reach("mint offsets");
}
p06_input {
    let k = sym::choose(0, 4) as u8;
    let d = if k >= MSG { len(8, 12) } else { 0 };
    let (p, q) = if k == COINP || k == MSGP { (LENS[sym::choose(1, 8) as usize], len(3, 9)) } else { (0, 0) };
    let s = SIn::any(k, d, p, q);
    let i = s.to();
    let r = i.repr();
    let e = s.encoded();
    sym::check(sym::eq(&i.clone().to_bytes(), &e.b), "encoding");
    opt_is(r.utxo_id_offset(), e.find("utxo_id", 0));
    opt_is(r.owner_offset(), e.find("owner", 0));
    opt_is(r.asset_id_offset(), e.find("asset_id", 0));
    opt_is(r.data_offset(), e.find("data", 0));
    opt_is(r.coin_predicate_offset(), if k <= COINP { e.find("predicate", 0) } else { None });
    opt_is(r.contract_balance_root_offset(), e.find("balance_root", 0));
    opt_is(r.contract_state_root_offset(), e.find("state_root", 0));
    opt_is(r.contract_id_offset(), e.find("contract_id", 0));
    opt_is(r.message_id_offset(), e.find("message_id", 0));
    opt_is(r.message_sender_offset(), e.find("sender", 0));
    opt_is(r.message_recipient_offset(), e.find("recipient", 0));
    opt_is(r.tx_pointer_offset(), e.find("tx_pointer", 0));
    if k <= COINP { sym::check(Input::coin_predicate_offset() == e.at("predicate", 0), "start of a coin predicate"); }
    if k >= MSG { sym::check(Input::message_data_offset() == e.at("data", 0), "start of message data"); }
    let pr = k == COINP || k == MSGP;
    opt_is(i.predicate_offset(), if pr { e.find("predicate", 0) } else { None });
    opt_is(i.predicate_data_offset(), if pr { e.find("predicate_data", 0) } else { None });
    opt_is(i.predicate_len(), if k == CONTRACT { None } else { Some(s.pred.len()) });
    opt_is(i.predicate_data_len(), if k == CONTRACT { None } else { Some(s.pdata.len()) });
    sym::reach("input offsets");
}
p06_output {
    let s = some_out();
    let o = s.to();
    let r = o.repr();
    let e = s.encoded();
    sym::check(sym::eq(&o.clone().to_bytes(), &e.b), "encoding");
    opt_is(r.to_offset(), e.find("to", 0));
    opt_is(r.asset_id_offset(), e.find("asset_id", 0));
    opt_is(r.contract_balance_root_offset(), e.find("balance_root", 0));
    opt_is(r.contract_state_root_offset(), if s.k == OCONTRACT { e.find("state_root", 0) } else { None });
    opt_is(r.contract_created_state_root_offset(), if s.k == OCREATED { e.find("state_root", 0) } else { None });
    opt_is(r.contract_id_offset(), e.find("contract_id", 0));
    opt_is(r.recipient_offset(), e.find("recipient", 0));
    sym::reach("output offsets");
}
}

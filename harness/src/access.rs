//! P18 discriminants, P19 accessors, P20 parameters, P22 messages, P26 equality.
#![allow(deprecated)]
use crate::ids::{feed, shape};
use crate::sym;
use crate::val::*;
use crate::wire::{in_shape, some_out};
use fuel_crypto::Hasher;
use fuel_tx::field::{BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _, Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _, Witnesses as _};
use fuel_tx::*;
use fuel_types::bytes::Deserializable;
use fuel_types::MessageId;

/// an optional field is there exactly if `has`, and is `want`
fn opt<T: AsRef<[u8]> + ?Sized>(got: Option<&T>, has: bool, want: &[u8]) -> bool {
    match got {
        Some(g) => has && sym::eq(g.as_ref(), want),
        None => !has,
    }
}
fn optw(got: Option<u64>, has: bool, want: u64) -> bool {
    match got {
        Some(g) => has & (g == want),
        None => !has,
    }
}
fn optlen(got: Option<usize>, has: bool, want: usize) -> bool {
    got == if has { Some(want) } else { None }
}
fn pointer(got: Option<&TxPointer>, has: bool, s: &SIn) -> bool {
    match got {
        Some(p) => has & (p.block_height() == s.bh) & (p.tx_index() == s.ti),
        None => !has,
    }
}
fn utxo(got: Option<&UtxoId>, has: bool, s: &SIn) -> bool {
    match got {
        Some(u) => has && sym::eq(&u.tx_id()[..], &s.utxo) & (u.output_index() == s.oi),
        None => !has,
    }
}
fn built(s: &SIn) -> Input {
    let (u, p) = (UtxoId::new(s.utxo.into(), s.oi), TxPointer::new(s.bh, s.ti));
    match s.k {
        COIN => Input::coin_signed(u, s.owner.into(), s.amount, s.asset.into(), p, s.wi, s.maturity),
        COINP => Input::coin_predicate(u, s.owner.into(), s.amount, s.asset.into(), p, s.maturity, s.pred.clone(), s.pdata.clone()),
        CONTRACT => Input::contract(u, s.bal.into(), s.st.into(), p, s.cid.into()),
        MSG => Input::message_signed(s.mid.into(), s.owner.into(), s.recipient.into(), s.amount, s.nonce, s.wi, s.data.clone()),
        _ => Input::message_predicate(s.mid.into(), s.owner.into(), s.recipient.into(), s.amount, s.nonce, s.data.clone(), s.pred.clone(), s.pdata.clone()),
    }
}
fn sha(parts: &[&[u8]]) -> B {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    *Hasher::hash(&v)
}
type Params = [u64; 13];
fn parts(p: &ConsensusParameters) -> Params {
    [p.contract_max_size, p.max_inputs, p.max_outputs, p.max_witnesses, p.max_gas_per_tx, p.max_script_length, p.max_script_data_length, p.max_storage_slots, p.max_predicate_length, p.max_predicate_data_length, p.gas_price_factor, p.gas_per_byte, p.max_message_data_length]
}
fn alike(a: &Params, b: &Params) -> bool {
    a.iter().zip(b).fold(true, |r, (x, y)| r & (x == y))
}

/// what the receipt kinds have: positions in the specification's 32-byte fields and words
fn rec_a(k: u8, f: &str) -> Option<usize> {
    match (f, k) {
        ("id", R_RESULT) | ("id", R_MSG) => None,
        ("id", _) => Some(0),
        ("to", R_CALL) | ("to", R_TRANSFER) | ("to_address", R_OUT) => Some(1),
        ("asset_id", R_CALL) | ("asset_id", R_TRANSFER) | ("asset_id", R_OUT) => Some(2),
        ("digest", R_RETDATA) | ("digest", R_LOGDATA) => Some(1),
        ("message_id", R_MSG) => Some(0),
        ("sender", R_MSG) => Some(1),
        ("recipient", R_MSG) => Some(2),
        ("nonce", R_MSG) => Some(3),
        ("digest", R_MSG) => Some(4),
        _ => None,
    }
}
fn rec_w(k: u8, f: &str) -> Option<usize> {
    let names: &[&str] = match k {
        R_CALL => &["amount", "gas", "param1", "param2", "pc", "is"],
        R_RET => &["val", "pc", "is"],
        R_RETDATA => &["ptr", "len", "pc", "is"],
        R_PANIC => &["reason", "pc", "is"],
        R_REVERT => &["ra", "pc", "is"],
        R_LOG => &["ra", "rb", "rc", "rd", "pc", "is"],
        R_LOGDATA => &["ra", "rb", "ptr", "len", "pc", "is"],
        R_TRANSFER | R_OUT => &["amount", "pc", "is"],
        R_RESULT => &["result", "gas_used"],
        _ => &["amount", "len"],
    };
    names.iter().position(|n| *n == f)
}
/// the constructor of each kind; the length is that of the data padded to words
fn received(s: &SRec) -> Receipt {
    let (a, w) = (&s.a, &s.w);
    let d = s.data.clone();
    match s.k {
        R_CALL => Receipt::call(a[0].into(), a[1].into(), w[0], a[2].into(), w[1], w[2], w[3], w[4], w[5]),
        R_RET => Receipt::ret(a[0].into(), w[0], w[1], w[2]),
        R_RETDATA => Receipt::return_data(a[0].into(), w[0], a[1].into(), d, w[2], w[3]),
        R_PANIC => Receipt::panic(a[0].into(), InstructionResult::from(w[0]), w[1], w[2]),
        R_REVERT => Receipt::revert(a[0].into(), w[0], w[1], w[2]),
        R_LOG => Receipt::log(a[0].into(), w[0], w[1], w[2], w[3], w[4], w[5]),
        R_LOGDATA => Receipt::log_data(a[0].into(), w[0], w[1], w[2], a[1].into(), d, w[4], w[5]),
        R_TRANSFER => Receipt::transfer(a[0].into(), a[1].into(), w[0], a[2].into(), w[1], w[2]),
        R_OUT => Receipt::transfer_out(a[0].into(), a[1].into(), w[0], a[2].into(), w[1], w[2]),
        R_RESULT => Receipt::script_result(result_of(w[0]), w[1]),
        _ => Receipt::message_out(a[0].into(), a[1].into(), a[2].into(), w[0], a[3].into(), a[4].into(), d),
    }
}
fn received_with_len(s: &SRec) -> Receipt {
    let (a, w) = (&s.a, &s.w);
    let d = s.data.clone();
    match s.k {
        R_RETDATA => Receipt::return_data_with_len(a[0].into(), w[0], w[1], a[1].into(), d, w[2], w[3]),
        R_LOGDATA => Receipt::log_data_with_len(a[0].into(), w[0], w[1], w[2], w[3], a[1].into(), d, w[4], w[5]),
        _ => Receipt::message_out_with_len(a[0].into(), a[1].into(), a[2].into(), w[0], a[3].into(), w[1], a[4].into(), d),
    }
}
fn fields(r: &Receipt, s: &SRec) {
    let k = s.k;
    let a = |f: &str, got: Option<&[u8]>| {
        let p = rec_a(k, f);
        match got {
            Some(g) => p.is_some() && sym::eq(g, &s.a[p.unwrap()]),
            None => p.is_none(),
        }
    };
    let w = |f: &str, got: Option<u64>| {
        let p = rec_w(k, f);
        optw(got, p.is_some(), p.map(|p| s.w[p]).unwrap_or(0))
    };
    let mut ok = a("id", r.id().map(|x| &x[..])) & a("to", r.to().map(|x| &x[..])) & a("to_address", r.to_address().map(|x| &x[..]));
    ok = ok & a("asset_id", r.asset_id().map(|x| &x[..])) & a("digest", r.digest().map(|x| &x[..])) & a("message_id", r.message_id().map(|x| &x[..]));
    ok = ok & a("sender", r.sender().map(|x| &x[..])) & a("recipient", r.recipient().map(|x| &x[..])) & a("nonce", r.nonce().map(|x| &x[..]));
    sym::check(ok, "identifiers of the receipt");
    let mut ok = w("pc", r.pc()) & w("is", r.is()) & w("amount", r.amount()) & w("gas", r.gas()) & w("param1", r.param1()) & w("param2", r.param2());
    ok = ok & w("val", r.val()) & w("ptr", r.ptr()) & w("len", r.len()) & w("ra", r.ra()) & w("rb", r.rb()) & w("rc", r.rc()) & w("rd", r.rd());
    ok = ok & w("reason", r.reason().map(Word::from)) & w("result", r.result().map(|x| word_of(*x))) & w("gas_used", r.gas_used());
    sym::check(ok, "words of the receipt");
    sym::check(opt(r.data(), has_data(k), &s.data), "data of the receipt");
    match r.is_empty() {
        Some(e) => sym::check(has_data(k) && e == (s.w[rec_w(k, "len").unwrap()] == 0), "emptiness of the receipt"),
        None => sym::check(!has_data(k), "emptiness of the receipt"),
    }
    sym::check(k == R_PANIC || r.contract_id().is_none(), "only panics carry a contract");
}

entries! {
// ---------------------------------------------------------------- P18
p18_words {
    let w = sym::u64();
    match TransactionRepr::try_from(w) {
        Ok(r) => { sym::check((w <= 2) & (r.clone() as u64 == w), "transaction code"); sym::reach("transaction") }
        Err(_) => sym::check(w > 2, "transaction codes are accepted"),
    }
    match InputRepr::try_from(w) {
        Ok(r) => { sym::check((w <= 2) & (r as u64 == w), "input code"); sym::reach("input") }
        Err(_) => sym::check(w > 2, "input codes are accepted"),
    }
    match OutputRepr::try_from(w) {
        Ok(r) => { sym::check((w <= 5) & (r as u64 == w), "output code"); sym::reach("output") }
        Err(_) => sym::check(w > 5, "output codes are accepted"),
    }
    let r = ScriptExecutionResult::from(w);
    sym::check(word_of(r) == w, "script result");
    sym::check(Word::from(r) == w, "script result as a word");
    sym::check(match r { ScriptExecutionResult::GenericFailure(_) => w > 2, _ => w <= 2 }, "known results are named");
    sym::reach("word");
}
p18_kinds {
    match sym::choose(0, 3) {
        0 => {
            let t = match sym::choose(0, 2) { 0 => Transaction::Script(Script::default()), 1 => Transaction::Create(Create::default()), _ => Transaction::Mint(Mint::default()) };
            let want = match &t { Transaction::Script(_) => 0, Transaction::Create(_) => 1, Transaction::Mint(_) => 2 };
            sym::check(TransactionRepr::from(&t) as u64 == want, "code of a transaction");
            sym::check((t.is_script() == (want == 0)) & (t.is_create() == (want == 1)) & (t.is_mint() == (want == 2)), "kind of a transaction");
        }
        1 => {
            let k = sym::choose(0, 4) as u8;
            let i = SIn::any(k, 0, 1, 0).to();
            let want = [0, 0, 1, 2, 2][k as usize];
            sym::check(i.repr() as u64 == want && InputRepr::from(&i) as u64 == want && InputRepr::from_input(&i) as u64 == want, "code of an input");
        }
        2 => {
            let k = sym::choose(0, 5) as u8;
            let mut o = SOut::any(k).to();
            sym::check(o.repr() as u64 == k as u64 && OutputRepr::from(&mut o) as u64 == k as u64 && OutputRepr::from(&o) as u64 == k as u64 && OutputRepr::from_output(&o) as u64 == k as u64, "code of an output");
        }
        _ => {
            let w = [0, 1, 2, sym::u64()][sym::choose(0, 3) as usize];
            sym::check(Word::from(result_of(w)) == w, "word of a script result");
        }
    }
    sym::reach("kind");
}
p18_decoded {
    // the first word decides what is decoded
    let w = sym::u64();
    let mut b = w.to_be_bytes().to_vec();
    b.extend_from_slice(&[0; 400]);
    match sym::choose(0, 4) {
        0 => match Input::from_bytes(&b) {
            Ok(i) => { sym::check((w <= 2) & (i.repr() as u64 == w), "kind of the decoded input"); sym::reach("input") }
            Err(_) => { sym::check(w > 2, "inputs of known kinds decode"); sym::reach("no input") }
        },
        1 => match Output::from_bytes(&b) {
            Ok(o) => { sym::check((w <= 5) & (o.repr() as u64 == w), "kind of the decoded output"); sym::reach("output") }
            Err(_) => { sym::check(w > 5, "outputs of known kinds decode"); sym::reach("no output") }
        },
        2 => match Receipt::from_bytes(&b) {
            Ok(r) => { sym::check((w <= 10) & (SRec::from(&r).k as u64 == w), "kind of the decoded receipt"); sym::reach("receipt") }
            Err(_) => { sym::check(w > 10, "receipts of known kinds decode"); sym::reach("no receipt") }
        },
        3 => match Transaction::from_bytes(&b) {
            Ok(t) => { sym::check((w <= 2) & (TransactionRepr::from(&t) as u64 == w), "kind of the decoded transaction"); sym::reach("transaction") }
            Err(_) => { sym::check(w > 2, "transactions of known kinds decode"); sym::reach("no transaction") }
        },
        _ => {
            sym::check(Script::from_bytes(&b).is_ok() == (w == 0), "only a script decodes as a script");
            sym::check(Create::from_bytes(&b).is_ok() == (w == 1), "only a create decodes as a create");
            sym::check(Mint::from_bytes(&b).is_ok() == (w == 2), "only a mint decodes as a mint");
            sym::reach("concrete");
        }
    }
}
// ---------------------------------------------------------------- P19
p19_input {
    let k = sym::choose(0, 4) as u8;
    let (d, p, q) = (len(3, 9), len(3, 9), len(2, 5));
    let s = SIn::any(k, if k >= MSG { d } else { 0 }, p, q);
    let i = built(&s);
    sym::check(SIn::from(&i).same(&s), "the constructor stores what it was given");
    let (coin, msg, pred) = (k == COIN || k == COINP, k >= MSG, k == COINP || k == MSGP);
    let has_utxo = coin || k == CONTRACT;
    let signed = k == COIN || k == MSG;
    sym::check(utxo(i.utxo_id(), has_utxo, &s) & pointer(i.tx_pointer(), has_utxo, &s), "references");
    sym::check(opt(i.input_owner(), coin, &s.owner) & opt(i.sender(), msg, &s.owner) & opt(i.recipient(), msg, &s.recipient), "addresses");
    sym::check(opt(i.asset_id(), coin || msg, if coin { &s.asset } else { &[0; 32] }), "asset");
    sym::check(opt(i.contract_id(), k == CONTRACT, &s.cid) & opt(i.balance_root(), k == CONTRACT, &s.bal) & opt(i.state_root(), k == CONTRACT, &s.st) & opt(i.message_id(), msg, &s.mid), "identifiers");
    sym::check(optw(i.amount(), coin || msg, s.amount) & optw(i.maturity(), coin, s.maturity) & optw(i.nonce(), msg, s.nonce) & optw(i.witness_index().map(|x| x as u64), signed, s.wi as u64), "numbers");
    sym::check(opt(i.input_data(), msg, &s.data) & opt(i.input_predicate(), pred, &s.pred) & opt(i.input_predicate_data(), pred, &s.pdata), "byte strings");
    sym::check(opt(i.predicate().map(|x| x.0), pred, &s.pred) & opt(i.predicate().map(|x| x.1), pred, &s.pdata), "predicate and its data");
    sym::check(optlen(i.predicate_len(), k != CONTRACT, s.pred.len()) & optlen(i.predicate_data_len(), k != CONTRACT, s.pdata.len()), "lengths");
    sym::check((i.is_coin() == coin) & (i.is_message() == msg) & (i.is_contract() == (k == CONTRACT)), "kind");
    sym::check((i.is_coin_signed() == (k == COIN)) & (i.is_coin_predicate() == (k == COINP)) & (i.is_message_signed() == (k == MSG)) & (i.is_message_predicate() == (k == MSGP)), "exact kind");
    sym::reach("input");
}
p19_output {
    let s = some_out();
    let k = s.k;
    let o = match k {
        OCOIN => Output::coin(s.a.into(), s.amount, s.b.into()),
        OCONTRACT => Output::contract(s.idx, s.a.into(), s.b.into()),
        OMSG => Output::message(s.a.into(), s.amount),
        OCHANGE => Output::change(s.a.into(), s.amount, s.b.into()),
        OVAR => Output::variable(s.a.into(), s.amount, s.b.into()),
        _ => Output::contract_created(s.a.into(), s.b.into()),
    };
    sym::check(SOut::from(&o).same(&s), "the constructor stores what it was given");
    let coin = k == OCOIN || k == OCHANGE || k == OVAR;
    sym::check(opt(o.to(), coin, &s.a) & opt(o.asset_id(), coin, &s.b) & optw(o.amount(), coin || k == OMSG, s.amount), "coin fields");
    sym::check(opt(o.recipient(), k == OMSG, &s.a) & opt(o.contract_id(), k == OCREATED, &s.a) & opt(o.balance_root(), k == OCONTRACT, &s.a), "identifiers");
    sym::check(opt(o.state_root(), k == OCONTRACT || k == OCREATED, &s.b) & optw(o.input_index().map(|x| x as u64), k == OCONTRACT, s.idx as u64), "contract fields");
    sym::check((o.is_coin() == (k == OCOIN)) & (o.is_message() == (k == OMSG)) & (o.is_variable() == (k == OVAR)) & (o.is_contract() == (k == OCONTRACT)) & (o.is_contract_created() == (k == OCREATED)), "kind");
    sym::reach("output");
}
p19_receipt {
    let k = sym::choose(0, 10) as u8;
    let mut s = SRec::any(k, if has_data(k) { len(9, 15) } else { 0 });
    if has_data(k) {
        let r = received_with_len(&s);
        sym::check(SRec::from(&r).same(&s), "the constructor stores what it was given");
        fields(&r, &s);
        s.w[rec_w(k, "len").unwrap()] = pad(s.data.len()) as u64;
        sym::reach("with length");
    }
    let r = received(&s);
    sym::check(SRec::from(&r).same(&s), "the constructor stores what it was given");
    fields(&r, &s);
    let c = sym::arr();
    let with = r.clone().with_panic_contract_id(Some(c.into()));
    sym::check(opt(with.contract_id(), k == R_PANIC, &c) && r.contract_id().is_none(), "a panic's contract");
    sym::check(SRec::from(&with).same(&s), "a panic's contract changes nothing else");
    sym::check(with.with_panic_contract_id(None).contract_id().is_none(), "a panic's contract can be removed");
    sym::reach("receipt");
}
p19_leaves {
    let (a, b) = (sym::arr::<32>(), sym::arr::<32>());
    let (i, h, t) = (sym::u8(), sym::u32(), sym::u16());
    let mut u = UtxoId::new(a.into(), i);
    sym::check(sym::eq(&u.tx_id()[..], &a) & (u.output_index() == i), "utxo id");
    u.replace_tx_id(b.into());
    sym::check(sym::eq(&u.tx_id()[..], &b) & (u.output_index() == i), "utxo id of another transaction");
    let p = TxPointer::new(h, t);
    sym::check((p.block_height() == h) & (p.tx_index() == t), "pointer");
    let s = StorageSlot::new(a.into(), b.into());
    sym::check(sym::eq(&s.key()[..], &a) & sym::eq(&s.value()[..], &b), "slot");
    let w = bytes(len(5, 9));
    let mut x = Witness::from(&w[..]);
    sym::check(sym::eq(x.as_vec(), &w) && sym::eq(x.as_ref(), &w) && sym::eq(&x.clone().into_inner(), &w) && sym::eq(x.as_mut(), &w), "witness");
    let more = sym::arr::<3>();
    x.extend(more);
    x.as_vec_mut().push(i);
    let mut want = w.clone();
    want.extend_from_slice(&more);
    want.push(i);
    sym::check(sym::eq(x.as_vec(), &want), "witness that grew");
    sym::reach("leaves");
}
p19_transaction {
    // each field through its mutable accessor, nothing else changes
    let create = sym::choose(0, 1) == 1;
    let s = shape(create, sym::choose(0, 3));
    let mut w = s.clone();
    let v = sym::u64();
    let r = sym::arr::<32>();
    let f = sym::choose(0, 8);
    match f {
        0 => w.gas_price = v,
        1 => w.gas_limit = v,
        2 => w.maturity = v,
        3 => w.ins.push(in_shape(1)),
        4 => w.outs.push(some_out()),
        5 => w.wits.push(bytes(3)),
        6 if create => w.blen = v,
        6 => w.root = r,
        7 if create => w.bwi = v as u8,
        7 => w.script = bytes(5),
        _ if create => w.salt = r,
        _ => w.sdata = bytes(6),
    }
    if create {
        let mut t = s.create_tx();
        sym::check(STx::from_create(&t).same(&s), "accessors give what the constructor was given");
        match f {
            0 => *t.gas_price_mut() = v,
            1 => *t.gas_limit_mut() = v,
            2 => *t.maturity_mut() = v,
            3 => t.inputs_mut().push(w.ins.last().unwrap().to()),
            4 => t.outputs_mut().push(w.outs.last().unwrap().to()),
            5 => t.witnesses_mut().push(w.wits.last().unwrap().clone().into()),
            6 => *t.bytecode_length_mut() = v,
            7 => *t.bytecode_witness_index_mut() = v as u8,
            _ => *t.salt_mut() = r.into(),
        }
        sym::check(STx::from_create(&t).same(&w), "a setter changes its field only");
        let mut x = Transaction::from(t.clone());
        sym::check(x.as_create() == Some(&t) && x.as_create_mut() == Some(&mut t) && x.as_script().is_none() && x.as_script_mut().is_none() && x.as_mint().is_none() && x.as_mint_mut().is_none(), "a create as a transaction");
        sym::reach("create");
    } else {
        let mut t = s.script_tx();
        sym::check(STx::from_script(&t).same(&s), "accessors give what the constructor was given");
        match f {
            0 => *t.gas_price_mut() = v,
            1 => *t.gas_limit_mut() = v,
            2 => *t.maturity_mut() = v,
            3 => t.inputs_mut().push(w.ins.last().unwrap().to()),
            4 => t.outputs_mut().push(w.outs.last().unwrap().to()),
            5 => t.witnesses_mut().push(w.wits.last().unwrap().clone().into()),
            6 => *t.receipts_root_mut() = r.into(),
            7 => *t.script_mut() = w.script.clone(),
            _ => *t.script_data_mut() = w.sdata.clone(),
        }
        sym::check(STx::from_script(&t).same(&w), "a setter changes its field only");
        let mut x = Transaction::from(t.clone());
        sym::check(x.as_script() == Some(&t) && x.as_script_mut() == Some(&mut t) && x.as_create().is_none() && x.as_create_mut().is_none() && x.as_mint().is_none() && x.as_mint_mut().is_none(), "a script as a transaction");
        sym::reach("script");
    }
}
p19_create_mint {
    // slots, the length of the bytecode, and mints
    let mut s = STx::any(true);
    for _ in 0..sym::choose(0, 2) { s.slots.push((sym::arr(), sym::arr())); }
    for i in 0..sym::choose(0, 2) { s.wits.push(bytes(i * 6 + 3)); }
    let slots: Vec<StorageSlot> = s.slots.iter().map(|(k, v)| StorageSlot::new((*k).into(), (*v).into())).collect();
    let mut t = Transaction::create(s.gas_price, s.gas_limit, s.maturity, s.bwi, s.salt.into(), slots, vec![], vec![], s.witnesses());
    let w = sym::fork(s.bwi as u64) as usize;
    s.blen = if w < s.wits.len() { s.wits[w].len() as u64 / 4 } else { 0 };
    sym::check(STx::from_create(&t).same(&s), "a new create");
    s.slots.push((sym::arr(), sym::arr()));
    t.storage_slots_mut().push(StorageSlot::new(s.slots.last().unwrap().0.into(), s.slots.last().unwrap().1.into()));
    let got = STx::from_create(&t);
    sym::check(got.slots.len() == s.slots.len() && got.same(&s), "a slot more");
    let mut m = SMint::any();
    m.outs.push(some_out());
    let mut t = m.to();
    sym::check(SMint::from(&t).same(&m), "a new mint");
    m.bh = sym::u32();
    *t.tx_pointer_mut() = TxPointer::new(m.bh, m.ti);
    sym::check(SMint::from(&t).same(&m), "another pointer");
    m.outs.push(SOut::any(OCOIN));
    t.outputs_mut().push(m.outs[1].to());
    sym::check(SMint::from(&t).same(&m), "an output more");
    let mut x = Transaction::from(t.clone());
    sym::check(x.as_mint() == Some(&t) && x.as_mint_mut() == Some(&mut t) && x.as_script().is_none() && x.as_script_mut().is_none() && x.as_create().is_none() && x.as_create_mut().is_none(), "a mint as a transaction");
    sym::reach("create and mint");
}
// ---------------------------------------------------------------- P20
p20_params {
    let mut want: Params = core::array::from_fn(|_| sym::u64());
    let p = ConsensusParameters { contract_max_size: want[0], max_inputs: want[1], max_outputs: want[2], max_witnesses: want[3], max_gas_per_tx: want[4], max_script_length: want[5], max_script_data_length: want[6], max_storage_slots: want[7], max_predicate_length: want[8], max_predicate_data_length: want[9], gas_price_factor: want[10], gas_per_byte: want[11], max_message_data_length: want[12] };
    let v = sym::u64();
    let i = sym::choose(0, 12) as usize;
    let q = match i {
        0 => p.with_contract_max_size(v),
        1 => p.with_max_inputs(v),
        2 => p.with_max_outputs(v),
        3 => p.with_max_witnesses(v),
        4 => p.with_max_gas_per_tx(v),
        5 => p.with_max_script_length(v),
        6 => p.with_max_script_data_length(v),
        7 => p.with_max_storage_slots(v),
        8 => p.with_max_predicate_length(v),
        9 => p.with_max_predicate_data_length(v),
        10 => p.with_gas_price_factor(v),
        11 => p.with_gas_per_byte(v),
        _ => p.with_max_message_data_length(v),
    };
    want[i] = v;
    sym::check(alike(&parts(&q), &want), "one parameter is replaced");
    // and from the default set
    let mut want = parts(&ConsensusParameters::default());
    sym::check(alike(&parts(&ConsensusParameters::DEFAULT), &want), "the default is the default set");
    let d = ConsensusParameters::default();
    want[i] = v;
    let q = match i {
        0 => d.with_contract_max_size(v),
        1 => d.with_max_inputs(v),
        2 => d.with_max_outputs(v),
        3 => d.with_max_witnesses(v),
        4 => d.with_max_gas_per_tx(v),
        5 => d.with_max_script_length(v),
        6 => d.with_max_script_data_length(v),
        7 => d.with_max_storage_slots(v),
        8 => d.with_max_predicate_length(v),
        9 => d.with_max_predicate_data_length(v),
        10 => d.with_gas_price_factor(v),
        11 => d.with_gas_per_byte(v),
        _ => d.with_max_message_data_length(v),
    };
    sym::check(alike(&parts(&q), &want), "one parameter of the default set is replaced");
    sym::reach("parameters");
}
p20_offset {
    let n = sym::u64();
    sym::assume(n < 1 << 58);
    let p = ConsensusParameters::DEFAULT.with_max_inputs(n).with_max_outputs(sym::u64()).with_max_witnesses(sym::u64());
    sym::check(p.tx_offset() as u64 == 32 + 8 + n * (32 + 8), "offset of a transaction");
    sym::reach("offset");
}

p20_default {
    use fuel_tx::default_parameters as d;
    let p = parts(&ConsensusParameters::DEFAULT);
    let c: Params = [d::CONTRACT_MAX_SIZE, d::MAX_INPUTS, d::MAX_OUTPUTS, d::MAX_WITNESSES, d::MAX_GAS_PER_TX, d::MAX_SCRIPT_LENGTH, d::MAX_SCRIPT_DATA_LENGTH, d::MAX_STORAGE_SLOTS, d::MAX_PREDICATE_LENGTH, d::MAX_PREDICATE_DATA_LENGTH, d::GAS_PRICE_FACTOR, d::GAS_PER_BYTE, d::MAX_MESSAGE_DATA_LENGTH];
    sym::check(alike(&p, &c), "the constants are those of the default set");
    sym::reach("default");
}
// ---------------------------------------------------------------- P22
p22_ids {
    let (sender, recipient, nonce) = (sym::arr::<32>(), sym::arr::<32>(), sym::arr::<32>());
    let (amount, n) = (sym::u64(), sym::u64());
    let data = bytes(sym::choose(0, sym::bound(70, 200)));
    let want = sha(&[&sender, &recipient, &nonce, &amount.to_be_bytes(), &data]);
    let got = Output::message_id(&sender.into(), &recipient.into(), &nonce.into(), amount, &data);
    sym::check(sym::eq(&got[..], &want), "id of an output message");
    let want = sha(&[&sender, &recipient, &n.to_be_bytes(), &amount.to_be_bytes(), &data]);
    let got = Input::compute_message_id(&sender.into(), &recipient.into(), n, amount, &data);
    sym::check(sym::eq(&got[..], &want), "id of an input message");
    sym::check(sym::eq(&Output::message_digest(&data)[..], &sha(&[&data])), "digest of the data");
    sym::reach("ids");
}
p22_receipt {
    let (tx, sender, recipient) = (sym::arr::<32>(), sym::arr::<32>(), sym::arr::<32>());
    let (idx, amount) = (sym::u64(), sym::u64());
    // an output index is one byte
    sym::assume(idx < 256);
    let data = bytes(len(9, 15));
    let nonce = sha(&[&tx, &[idx as u8]]);
    sym::check(sym::eq(&Output::message_nonce(&tx.into(), idx)[..], &nonce), "nonce of an output message");
    let mid = sha(&[&sender, &recipient, &nonce, &amount.to_be_bytes(), &data]);
    let r = Receipt::message_out_from_tx_output(&tx.into(), idx, sender.into(), recipient.into(), amount, data.clone());
    let want = SRec { k: R_MSG, a: vec![mid, sender, recipient, nonce, sha(&[&data])], w: vec![amount, pad(data.len()) as u64], data };
    sym::check(SRec::from(&r).same(&want), "the receipt carries the id, nonce and digest of its content");
    sym::reach("receipt");
}
// ---------------------------------------------------------------- P26
p26_input {
    let k = sym::choose(0, 4) as u8;
    let s = in_of(k);
    let t = if sym::choose(0, 3) == 0 { in_of((k + 1) % 5) } else { in_of(k) };
    equal(&s.to(), &t.to(), s.same(&t));
}
p26_output {
    let (s, t) = (some_out(), some_out());
    equal(&s.to(), &t.to(), s.same(&t));
}
p26_receipt {
    let k = sym::choose(0, 10) as u8;
    let s = SRec::any(k, sym::choose(0, 1));
    let j = if sym::choose(0, 1) == 0 { (k + 1) % 11 } else { k };
    let t = SRec::any(j, sym::choose(0, 1));
    let a = s.to().with_panic_contract_id(if sym::choose(0, 1) == 1 { Some(sym::arr().into()) } else { None });
    equal(&a, &t.to(), s.same(&t));
}
p26_leaves {
    let (a, b, c, d) = (sym::arr::<32>(), sym::arr::<32>(), sym::arr::<32>(), sym::arr::<32>());
    match sym::choose(0, 3) {
        0 => {
            let (i, j) = (sym::u8(), sym::u8());
            let (x, y) = (UtxoId::new(a.into(), i), UtxoId::new(b.into(), j));
            equal(&x, &y, sym::eq(&a, &b) & (i == j));
        }
        1 => {
            let (h, i, j, k) = (sym::u32(), sym::u16(), sym::u32(), sym::u16());
            let (x, y) = (TxPointer::new(h, i), TxPointer::new(j, k));
            equal(&x, &y, (h == j) & (i == k));
            sym::check((x < y) == ((h < j) | ((h == j) & (i < k))), "pointers are in the order of blocks");
        }
        2 => equal(&StorageSlot::new(a.into(), b.into()), &StorageSlot::new(c.into(), d.into()), sym::eq(&a, &c) & sym::eq(&b, &d)),
        _ => {
            let (x, y) = (bytes(sym::choose(0, 2)), bytes(sym::choose(0, 2)));
            equal(&Witness::from(x.clone()), &Witness::from(y.clone()), x.len() == y.len() && sym::eq(&x, &y));
        }
    }
}
p26_transaction {
    // a transaction and another that differs from it in at most one place
    let create = sym::choose(0, 1) == 1;
    let mut s = STx::any(create);
    s.ins.push(in_of(sym::choose(0, 4) as u8));
    s.outs.push(SOut::any(OCHANGE));
    s.wits.push(bytes(2));
    if create { s.slots.push((sym::arr(), sym::arr())); } else { s.script = bytes(2); s.sdata = bytes(1); }
    let mut w = s.clone();
    match sym::choose(0, 10) {
        0 => w.gas_price = sym::u64(),
        1 => w.gas_limit = sym::u64(),
        2 => w.maturity = sym::u64(),
        3 => { w.ins.pop(); }
        4 => w.outs[0].amount = sym::u64(),
        5 => w.wits[0] = bytes(2),
        6 => if create { w.blen = sym::u64() } else { w.root = sym::arr() },
        7 => if create { w.bwi = sym::u8() } else { w.script = bytes(2) },
        8 => if create { w.salt = sym::arr() } else { w.sdata = bytes(1) },
        9 => if create { w.slots[0].1 = sym::arr() } else { w.wits.push(vec![]) },
        _ => w.ins[0].amount ^= 0,
    }
    let same = s.same(&w);
    if create {
        let (mut a, b) = (s.create_tx(), w.create_tx());
        if sym::choose(0, 1) == 1 { a.precompute(); }
        equal(&a, &b, same);
        equal(&Transaction::from(a), &Transaction::from(b), same);
    } else {
        let (mut a, b) = (s.script_tx(), w.script_tx());
        if sym::choose(0, 1) == 1 { a.precompute(); }
        equal(&a, &b, same);
        equal(&Transaction::from(a), &Transaction::from(b), same);
    }
}
p26_mint {
    let (mut m, mut n) = (SMint::any(), SMint::any());
    for _ in 0..sym::choose(0, 1) { m.outs.push(SOut::any(OCOIN)); }
    for _ in 0..sym::choose(0, 1) { n.outs.push(SOut::any(OCOIN)); }
    let (mut a, b) = (m.to(), n.to());
    if sym::choose(0, 1) == 1 { a.precompute(); }
    equal(&a, &b, m.same(&n));
    equal(&Transaction::from(a), &Transaction::from(b), m.same(&n));
}
}
fn in_of(k: u8) -> SIn {
    SIn::any(k, if k >= MSG { 1 } else { 0 }, 2, 1)
}
fn equal<T: PartialEq + std::hash::Hash>(a: &T, b: &T, want: bool) {
    sym::check((a == b) == want, "equal exactly if all fields are");
    sym::check((b == a) == want, "equality is symmetric");
    sym::check((a != b) != want, "unequal exactly if a field differs");
    if want {
        sym::check(sym::eq(&feed(a), &feed(b)), "equal values hash alike");
        sym::reach("equal");
    } else {
        sym::reach("different");
    }
    let _ = MessageId::default();
}

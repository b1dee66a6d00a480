//! P07 identifiers, P08 precomputed metadata.
use crate::sym;
use crate::val::*;
use crate::wire::{in_shape, some_in, some_out};
use fuel_crypto::Hasher;
use fuel_tx::field::{BytecodeLength as _, BytecodeWitnessIndex as _, GasLimit as _, GasPrice as _, Inputs as _, Maturity as _, Outputs as _, ReceiptsRoot as _, Salt as _, Script as _, ScriptData as _, StorageSlots as _, TxPointer as _, Witnesses as _};
use fuel_tx::*;
use fuel_types::bytes::{SerializableVec, SizedBytes};
use std::hash::{Hash, Hasher as _};

pub fn expected_id(s: &STx) -> B {
    *Hasher::hash(&s.stripped().enc().b)
}
fn identified(s: &STx) {
    let want = expected_id(s);
    if s.create {
        let t = s.create_tx();
        sym::check(sym::eq(&t.id()[..], &want), "id is the hash of the non-malleable content");
        sym::check(STx::from_create(&t).same(s), "computing the id changes nothing");
    } else {
        let t = s.script_tx();
        sym::check(sym::eq(&t.id()[..], &want), "id is the hash of the non-malleable content");
        sym::check(STx::from_script(&t).same(s), "computing the id changes nothing");
    }
    let t = s.tx();
    sym::observe("id", &t.id()[..]);
    sym::check(sym::eq(&t.id()[..], &want), "id of the transaction is that of its variant");
}

/// records what a value feeds to a hasher
#[derive(Default)]
pub struct Feed(pub Vec<u8>);
impl std::hash::Hasher for Feed {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b)
    }
}
pub fn feed<T: Hash>(t: &T) -> Vec<u8> {
    let mut f = Feed::default();
    t.hash(&mut f);
    f.0
}

/// indices to look at
const PLACES: [usize; 14] = [0, 1, 2, 3, 4, 128, 253, 254, 255, 256, 257, 258, 259, usize::MAX];
macro_rules! same_offsets {
    ($a:expr, $b:expr, $n:expr) => {{
        let (a, b) = ($a, $b);
        let mut r = a.inputs_offset() == b.inputs_offset()
            && a.outputs_offset() == b.outputs_offset()
            && a.witnesses_offset() == b.witnesses_offset()
            && a.serialized_size() == b.serialized_size();
        for i in $n {
            r = r
                && a.inputs_offset_at(i) == b.inputs_offset_at(i)
                && a.inputs_predicate_offset_at(i) == b.inputs_predicate_offset_at(i)
                && a.outputs_offset_at(i) == b.outputs_offset_at(i)
                && a.witnesses_offset_at(i) == b.witnesses_offset_at(i);
        }
        r
    }};
}
/// `c` is `t` after precomputing
fn cached_script(t: &Script, c: &Script) {
    sym::check(c.is_computed() && !t.is_computed(), "precomputing is recorded");
    sym::check(sym::eq(&c.id()[..], &t.id()[..]), "cached id");
    sym::check(same_offsets!(c, t, PLACES) && c.script_data_offset() == t.script_data_offset(), "cached offsets and sizes");
    sym::check(c.metered_bytes_size() == t.metered_bytes_size(), "metered size");
    sym::check(sym::eq(&c.clone().to_bytes(), &t.clone().to_bytes()), "encoding with metadata");
    sym::check(c == t && t == c, "metadata does not take part in comparisons");
    sym::check(sym::eq(&feed(c), &feed(t)), "metadata does not take part in hashing");
}
fn cached_create(t: &Create, c: &Create) {
    sym::check(c.is_computed() && !t.is_computed(), "precomputing is recorded");
    sym::check(sym::eq(&c.id()[..], &t.id()[..]), "cached id");
    let mut r = same_offsets!(c, t, PLACES);
    for i in PLACES {
        r = r && c.storage_slots_offset_at(i) == t.storage_slots_offset_at(i);
    }
    sym::check(r && c.storage_slots_offset() == Create::storage_slots_offset_static(), "cached offsets and sizes");
    sym::check(c.metered_bytes_size() == t.metered_bytes_size(), "metered size");
    sym::check(sym::eq(&c.clone().to_bytes(), &t.clone().to_bytes()), "encoding with metadata");
    sym::check(c == t && t == c, "metadata does not take part in comparisons");
    sym::check(sym::eq(&feed(c), &feed(t)), "metadata does not take part in hashing");
}
fn cached(s: &STx) {
    if s.create {
        let t = s.create_tx();
        let mut c = t.clone();
        c.precompute();
        cached_create(&t, &c);
        c.precompute();
        cached_create(&t, &c);
        sym::check(STx::from_create(&c).same(s), "precomputing keeps the content");
    } else {
        let t = s.script_tx();
        let mut c = t.clone();
        c.precompute();
        cached_script(&t, &c);
        c.precompute();
        cached_script(&t, &c);
        sym::check(STx::from_script(&c).same(s), "precomputing keeps the content");
    }
    let (t, mut c) = (s.tx(), s.tx());
    c.precompute();
    sym::check(c.is_computed() && !t.is_computed(), "precomputing is recorded");
    sym::check(sym::eq(&c.id()[..], &t.id()[..]), "cached id");
    sym::check(c == t, "metadata does not take part in comparisons");
}
/// another transaction `d` that comes from the precomputed `s` by changing fields in place
fn changed(s: &STx, d: &STx) {
    if s.create {
        let mut t = s.create_tx();
        t.precompute();
        *t.gas_price_mut() = d.gas_price;
        *t.gas_limit_mut() = d.gas_limit;
        *t.maturity_mut() = d.maturity;
        *t.bytecode_length_mut() = d.blen;
        *t.bytecode_witness_index_mut() = d.bwi;
        *t.salt_mut() = d.salt.into();
        *t.storage_slots_mut() = d.create_tx().storage_slots().clone();
        *t.inputs_mut() = d.inputs();
        *t.outputs_mut() = d.outputs();
        *t.witnesses_mut() = d.witnesses();
        t.precompute();
        cached_create(&d.create_tx(), &t);
    } else {
        let mut t = s.script_tx();
        t.precompute();
        *t.gas_price_mut() = d.gas_price;
        *t.gas_limit_mut() = d.gas_limit;
        *t.maturity_mut() = d.maturity;
        *t.receipts_root_mut() = d.root.into();
        *t.script_mut() = d.script.clone();
        *t.script_data_mut() = d.sdata.clone();
        *t.inputs_mut() = d.inputs();
        *t.outputs_mut() = d.outputs();
        *t.witnesses_mut() = d.witnesses();
        t.precompute();
        cached_script(&d.script_tx(), &t);
    }
}
pub fn shape(create: bool, k: u64) -> STx {
    let mut s = STx::any(create);
    match k {
        0 => (),
        1 => {
            s.ins = vec![in_shape(1), in_shape(0)];
            s.outs = vec![SOut::any(OCONTRACT), SOut::any(OVAR)];
            s.wits = vec![bytes(3), bytes(8)];
        }
        2 => {
            s.ins = vec![in_shape(4)];
            s.outs = vec![SOut::any(OCHANGE)];
            s.wits = vec![bytes(9)];
        }
        _ => {
            s.ins = vec![in_shape(2), in_shape(3), in_shape(6)];
            s.outs = vec![SOut::any(OMSG), SOut::any(OCREATED), SOut::any(OCOIN)];
        }
    }
    if create {
        for _ in 0..k {
            s.slots.push((sym::arr(), sym::arr()));
        }
    } else {
        s.script = bytes([0, 4, 9, 16][k as usize]);
        s.sdata = bytes([8, 0, 3, 1][k as usize]);
    }
    s
}

entries! {
// ---------------------------------------------------------------- P07
p07_inputs {
    let mut s = STx::any(sym::choose(0, 1) == 1);
    for _ in 0..sym::choose(1, sym::bound(2, 3)) { s.ins.push(some_in(sym::bound(7, 4))); }
    s.outs.push(SOut::any(OCOIN));
    s.wits.push(bytes(5));
    identified(&s);
    if s.create { sym::reach("create") } else { sym::reach("script") }
}
p07_outputs {
    let mut s = STx::any(sym::choose(0, 1) == 1);
    for _ in 0..sym::choose(1, sym::bound(2, 3)) { s.outs.push(some_out()); }
    s.ins.push(SIn::any(CONTRACT, 0, 0, 0));
    identified(&s);
    if s.create { sym::reach("create") } else { sym::reach("script") }
}
p07_script {
    let mut s = STx::any(false);
    s.script = bytes(len(9, 15));
    s.sdata = bytes(len(9, 15));
    for i in 0..sym::choose(0, 2) { s.wits.push(bytes(7 * i)); }
    identified(&s);
    sym::reach("script");
}
p07_create {
    let mut s = STx::any(true);
    for _ in 0..sym::choose(0, 3) { s.slots.push((sym::arr(), sym::arr())); }
    for i in 0..sym::choose(0, 2) { s.wits.push(bytes(7 * i)); }
    identified(&s);
    sym::reach("create");
}
p07_mixed {
    let mut s = STx::any(sym::choose(0, 1) == 1);
    if s.create { s.slots.push((sym::arr(), sym::arr())) } else { s.script = bytes(5); s.sdata = bytes(8) }
    for i in 0..5 { s.ins.push(in_shape(i)); }
    for k in 0..6 { s.outs.push(SOut::any(k)); }
    s.wits = vec![bytes(2), bytes(64)];
    identified(&s);
    sym::reach("every kind at once");
}
p07_many {
    // more elements than a byte counts, of one kind
    let n = sym::choose(255, 258);
    let k = sym::choose(0, 4);
    let mut s = STx::any(k == 3 || k == 4);
    match k {
        0 | 4 => for i in 0..n { s.ins.push(in_shape(i % 6)); },
        1 => for i in 0..n { s.outs.push(SOut::any((i % 6) as u8)); },
        2 => for i in 0..n { s.wits.push(bytes(i % 9)); },
        _ => for _ in 0..n { s.slots.push((sym::arr(), sym::arr())); },
    }
    s.ins.push(in_shape(4));
    s.outs.push(SOut::any(OVAR));
    s.wits.push(bytes(1));
    identified(&s);
    sym::reach("many");
}
p07_long {
    // byte strings around one and two bytes' range
    let n = [255u64, 256, 257, 65535, 65536, 65537][sym::choose(0, 5) as usize];
    let k = sym::choose(0, 6);
    let mut s = STx::any(k == 3);
    match k {
        0 => s.script = bytes(n),
        1 => s.sdata = bytes(n),
        2 | 3 => s.wits = vec![bytes(n), bytes(3)],
        4 => s.ins.push(SIn::any(COINP, 0, n, 5)),
        5 => s.ins.push(SIn::any(COINP, 0, 3, n)),
        _ => s.ins.push(SIn::any(MSGP, n, 3, 5)),
    }
    s.outs.push(SOut::any(OCHANGE));
    identified(&s);
    sym::reach("long");
}
p07_mint {
    let mut s = SMint::any();
    for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.outs.push(some_out()); }
    let want = *Hasher::hash(&s.enc().b);
    let m = s.to();
    sym::check(sym::eq(&m.id()[..], &want), "id of a mint is the hash of its encoding");
    sym::check(SMint::from(&m).same(&s), "computing the id changes nothing");
    sym::check(sym::eq(&Transaction::Mint(m).id()[..], &want), "id of the transaction is that of its variant");
    sym::reach("mint");
}
p07_cached {
    // also with metadata: the id is that of the content at the time of precomputing
    let s = shape(sym::choose(0, 1) == 1, sym::choose(0, 3));
    let want = expected_id(&s);
    let mut t = s.tx();
    t.precompute();
    sym::check(sym::eq(&t.id()[..], &want), "cached id is the hash of the non-malleable content");
    sym::reach("cached");
}
// ---------------------------------------------------------------- P08
p08_inputs {
    let mut s = STx::any(sym::choose(0, 1) == 1);
    for _ in 0..sym::choose(0, sym::bound(2, 3)) { s.ins.push(some_in(sym::bound(7, 4))); }
    s.outs.push(SOut::any(OMSG));
    s.wits.push(bytes(9));
    cached(&s);
    if s.create { sym::reach("create") } else { sym::reach("script") }
}
p08_rest {
    let mut s = STx::any(sym::choose(0, 1) == 1);
    for _ in 0..sym::choose(0, 2) { s.outs.push(SOut::any([OCOIN, OCONTRACT, OMSG][sym::choose(0, 2) as usize])); }
    for _ in 0..sym::choose(0, 2) { s.wits.push(bytes(len(3, 9))); }
    s.ins.push(in_shape(1));
    if s.create { for _ in 0..sym::choose(0, 2) { s.slots.push((sym::arr(), sym::arr())); } } else { s.script = bytes(len(3, 9)); s.sdata = bytes(len(3, 9)); }
    cached(&s);
    if s.create { sym::reach("create") } else { sym::reach("script") }
}
p08_many {
    let n = sym::choose(255, 258);
    let k = sym::choose(0, 4);
    let mut s = STx::any(k == 3 || k == 4);
    match k {
        0 | 4 => for i in 0..n { s.ins.push(in_shape(i % 6)); },
        1 => for i in 0..n { s.outs.push(SOut::any((i % 6) as u8)); },
        2 => for i in 0..n { s.wits.push(bytes(i % 9)); },
        _ => for _ in 0..n { s.slots.push((sym::arr(), sym::arr())); },
    }
    s.ins.push(in_shape(4));
    s.outs.push(SOut::any(OVAR));
    s.wits.push(bytes(1));
    cached(&s);
    sym::reach("many");
}
p08_long {
    let n = [255u64, 256, 257, 65535, 65536, 65537][sym::choose(0, 5) as usize];
    let k = sym::choose(0, 6);
    let mut s = STx::any(k == 3);
    match k {
        0 => s.script = bytes(n),
        1 => s.sdata = bytes(n),
        2 | 3 => s.wits = vec![bytes(n), bytes(3)],
        4 => s.ins.push(SIn::any(COINP, 0, n, 5)),
        5 => s.ins.push(SIn::any(COINP, 0, 3, n)),
        _ => s.ins.push(SIn::any(MSGP, n, 3, 5)),
    }
    s.ins.push(SIn::any(MSGP, 1, 2, 3));
    s.outs.push(SOut::any(OCHANGE));
    cached(&s);
    sym::reach("long");
}
p08_changed {
    let create = sym::choose(0, 1) == 1;
    let s = shape(create, sym::choose(0, 3));
    let d = shape(create, sym::choose(0, 3));
    changed(&s, &d);
    sym::reach("changed");
}
p08_mint {
    let mut s = SMint::any();
    for _ in 0..sym::choose(0, 3) { s.outs.push(some_out()); }
    let t = s.to();
    let mut c = t.clone();
    c.precompute();
    sym::check(c.is_computed() && !t.is_computed(), "precomputing is recorded");
    sym::check(sym::eq(&c.id()[..], &t.id()[..]), "cached id");
    sym::check(c == t, "metadata does not take part in comparisons");
    sym::check(sym::eq(&feed(&c), &feed(&t)), "metadata does not take part in hashing");
    sym::check(sym::eq(&c.clone().to_bytes(), &t.clone().to_bytes()), "encoding with metadata");
    sym::check(c.serialized_size() == t.serialized_size() && c.outputs_offset() == t.outputs_offset(), "cached offsets and sizes");
    for i in 0..4 { sym::check(c.outputs_offset_at(i) == t.outputs_offset_at(i), "cached offsets and sizes"); }
    let mut d = SMint::any();
    d.outs.push(SOut::any(OCOIN));
    *c.tx_pointer_mut() = TxPointer::new(d.bh, d.ti);
    *c.outputs_mut() = d.to().outputs().clone();
    c.precompute();
    sym::check(sym::eq(&c.id()[..], &d.to().id()[..]), "precomputing again brings the id up to date");
    sym::check(c.outputs_offset_at(0) == d.to().outputs_offset_at(0) && c.outputs_offset_at(1).is_none(), "precomputing again brings the offsets up to date");
    sym::reach("mint");
}
p08_compare {
    // equality, with or without metadata on either side, is equality of the fields
    let create = sym::choose(0, 1) == 1;
    let k = sym::choose(1, 3);
    let s = shape(create, k);
    let mut d = s.clone();
    match sym::choose(0, 11) {
        0 => d.gas_price = sym::u64(),
        1 => d.gas_limit = sym::u64(),
        2 => d.maturity = sym::u64(),
        3 => if create { d.salt = sym::arr() } else { d.root = sym::arr() },
        4 => if create { d.blen = sym::u64() } else { d.script = bytes(s.script.len() as u64) },
        5 => if create { d.bwi = sym::u8() } else { d.sdata = bytes(s.sdata.len() as u64) },
        6 => d.ins[0] = in_shape([0, 1, 4, 2][k as usize]),
        7 => d.outs[0] = SOut::any(s.outs[0].k),
        8 => if create { d.slots[0] = (s.slots[0].0, sym::arr()) } else { d.script.push(0) },
        9 => { d.ins.pop(); }
        10 => { d.outs.pop(); }
        _ => if d.wits.pop().is_none() { d.wits.push(vec![]) },
    }
    let same = s.same(&d);
    if create {
        let (mut a, mut b) = (s.create_tx(), d.create_tx());
        sym::check((a == b) == same, "comparison compares the content");
        a.precompute();
        sym::check((a == b) == same, "comparison compares the content");
        b.precompute();
        sym::check((a == b) == same, "comparison compares the content");
    } else {
        let (mut a, mut b) = (s.script_tx(), d.script_tx());
        sym::check((a == b) == same, "comparison compares the content");
        a.precompute();
        sym::check((a == b) == same, "comparison compares the content");
        b.precompute();
        sym::check((a == b) == same, "comparison compares the content");
    }
    if same { sym::reach("equal") } else { sym::reach("different") }
}
}

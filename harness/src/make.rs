//! P16 preparing for execution, P23 the builder, P24 queries over a whole transaction.
use crate::ids::{expected_id, shape};
use crate::roots::code_root;
use crate::sigs::{address, secret, sign};
use crate::sym;
use crate::val::*;
use crate::wire::{in_shape, some_in, some_out};
use fuel_crypto::{PublicKey, SecretKey};
use fuel_tx::*;

/// what the initial state of a script clears in an output
fn blank(o: &SOut) -> SOut {
    match o.k {
        OMSG | OCHANGE | OVAR => o.stripped(),
        _ => *o,
    }
}
fn script_init(s: &STx) -> STx {
    STx { outs: s.outs.iter().map(blank).collect(), ..s.clone() }
}
fn predicate_init(s: &STx) -> STx {
    STx { outs: s.outs.iter().map(|o| o.stripped()).collect(), ins: s.ins.iter().map(|i| i.stripped()).collect(), ..s.clone() }
}
/// a transaction of either kind that can be read back
trait Tx: Executable + UniqueIdentifier + Cacheable + Clone + PartialEq + Into<Transaction> {
    fn make(s: &STx) -> Self;
    fn read(&self) -> STx;
}
impl Tx for Script {
    fn make(s: &STx) -> Self {
        s.script_tx()
    }
    fn read(&self) -> STx {
        STx::from_script(self)
    }
}
impl Tx for Create {
    fn make(s: &STx) -> Self {
        s.create_tx()
    }
    fn read(&self) -> STx {
        STx::from_create(self)
    }
}
fn prepares<T: Tx>(s: &STx) {
    let mut t = T::make(s);
    let cached = sym::choose(0, 1) == 1;
    if cached {
        t.precompute();
    }
    let want = script_init(s);
    sym::check(t.prepare_init_script().read().same(&want), "the initial state of a script");
    sym::check(t.is_computed() == cached, "precomputed metadata stays");
    sym::check(t.prepare_init_script().read().same(&want), "preparing a script twice");
    let want = predicate_init(s);
    sym::check(t.prepare_init_predicate().read().same(&want), "for predicates after a script");
    let mut t = T::make(s);
    sym::check(t.prepare_init_predicate().read().same(&want), "the state for predicates");
    sym::check(t.prepare_init_predicate().read().same(&want), "preparing for predicates twice");
    sym::check(t.prepare_init_script().read().same(&want), "for a script after predicates");
    sym::reach("prepared");
}
fn keeps_id<T: Tx>(s: &STx) {
    let want = expected_id(s);
    let mut t = T::make(s);
    t.prepare_init_script();
    sym::check(sym::eq(&t.id()[..], &want), "preparing a script keeps the id");
    t.prepare_init_predicate();
    sym::check(sym::eq(&t.id()[..], &want), "preparing for predicates keeps the id");
    sym::reach("identified");
}

// ---------------------------------------------------------------- P23
/// an input of any kind; signed ones belong to one of three owners
fn given(who: &[B; 3]) -> SIn {
    let k = sym::choose(0, 4) as u8;
    let mut s = SIn::any(k, if k >= MSG { 3 } else { 0 }, 2, 1);
    if k == COIN || k == MSG {
        s.wi = sym::u8();
        let o = who[sym::choose(0, 2) as usize];
        if k == COIN {
            s.owner = o
        } else {
            s.owner = who[0];
            s.recipient = o
        }
    }
    s
}
trait Built: Tx + Buildable {
    fn done(b: &mut TransactionBuilder<Self>, signed: bool, general: bool) -> Self;
}
macro_rules! built {
    ($t:ident) => {
        impl Built for $t {
            fn done(b: &mut TransactionBuilder<$t>, signed: bool, general: bool) -> $t {
                let t = match (signed, general) {
                    (true, false) => return b.finalize(),
                    (false, false) => return b.finalize_without_signature(),
                    (true, true) => b.finalize_as_transaction(),
                    (false, true) => b.finalize_without_signature_as_transaction(),
                };
                match t {
                    Transaction::$t(t) => t,
                    _ => {
                        sym::check(false, "kind of the finished transaction");
                        loop {}
                    }
                }
            }
        }
    };
}
built! { Script }
built! { Create }

/// one builder call; `s` is told as well
fn call<T: Built>(b: &mut TransactionBuilder<T>, s: &mut STx, keys: &mut Vec<SecretKey>, op: u64, a: &[SecretKey; 2], who: &[B; 3]) {
    match op {
        0 => {
            let i = given(who);
            b.add_input(i.to());
            s.ins.push(i);
        }
        1 => {
            let o = some_out();
            b.add_output(o.to());
            s.outs.push(o);
        }
        2 => {
            let w = bytes(1 + s.wits.len() as u64);
            b.add_witness(w.clone().into());
            s.wits.push(w);
        }
        3 => {
            let v = sym::u64();
            b.gas_price(v);
            s.gas_price = v;
            let v = sym::u64();
            b.gas_limit(v);
            s.gas_limit = v;
            let v = sym::u64();
            b.maturity(v);
            s.maturity = v;
        }
        4 => {
            let k = sym::choose(0, 1) as usize;
            let mut i = SIn::any(COIN, 0, 0, 0);
            i.wi = s.wits.len() as u8;
            i.owner = who[k];
            b.add_unsigned_coin_input(a[k], UtxoId::new(i.utxo.into(), i.oi), i.amount, i.asset.into(), TxPointer::new(i.bh, i.ti), i.maturity);
            s.ins.push(i);
            s.wits.push(vec![]);
            keys.push(a[k]);
        }
        _ => {
            let k = sym::choose(0, 1) as usize;
            let i = unsigned_message(s, who[k]);
            b.add_unsigned_message_input(a[k], i.owner.into(), i.nonce, i.amount, i.data.clone());
            s.ins.push(i);
            s.wits.push(vec![]);
            keys.push(a[k]);
        }
    }
}
fn unsigned_message(s: &STx, to: B) -> SIn {
    let mut i = SIn::any(MSG, 5, 0, 0);
    i.wi = s.wits.len() as u8;
    i.recipient = to;
    i.mid = *Input::compute_message_id(&i.owner.into(), &to.into(), i.nonce, i.amount, &i.data);
    i
}
/// the witnesses that the keys sign
fn sign_all(s: &mut STx, keys: &[SecretKey]) {
    let id = expected_id(s);
    for k in keys {
        let who = address(k);
        for i in 0..s.ins.len() {
            let x = &s.ins[i];
            let own = (x.k == COIN && x.owner == who) || (x.k == MSG && x.recipient == who);
            if own {
                for j in 0..s.wits.len() {
                    if s.ins[i].wi as usize == j {
                        s.wits[j] = sign(k, &id);
                        sym::reach("signed");
                    }
                }
            }
        }
    }
}
fn builds<T: Built>(mut b: TransactionBuilder<T>, mut s: STx, ops: &[u64], prepared: bool, fin: u64) {
    let a = [secret(1), secret(2)];
    let who = [address(&a[0]), address(&a[1]), [9; 32]];
    let mut keys = vec![];
    for op in ops {
        call(&mut b, &mut s, &mut keys, *op, &a, &who);
    }
    sym::check(b.inputs().len() == s.ins.len() && b.outputs().len() == s.outs.len() && b.witnesses().len() == s.wits.len() && b.sign_keys() == &keys[..], "parts so far");
    for (x, y) in b.inputs().iter().zip(&s.ins) {
        sym::check(SIn::from(x).same(y), "inputs so far");
    }
    for (x, y) in b.outputs().iter().zip(&s.outs) {
        sym::check(SOut::from(x).same(y), "outputs so far");
    }
    for (x, y) in b.witnesses().iter().zip(&s.wits) {
        sym::check(sym::eq(x.as_ref(), y), "witnesses so far");
    }
    let (script, predicate) = match fin >> 2 {
        0 => (prepared, false),
        1 => {
            b.prepare_script(!prepared);
            (!prepared, false)
        }
        _ => {
            b.prepare_predicate(true);
            (prepared, true)
        }
    };
    if script {
        s = script_init(&s);
    }
    if predicate {
        s = predicate_init(&s);
    }
    let signed = fin & 1 == 0;
    let t = T::done(&mut b, signed, fin & 2 != 0);
    if signed {
        sign_all(&mut s, &keys);
    }
    sym::check(t.read().same(&s), "the transaction that was described");
    sym::check(t.is_computed(), "metadata is precomputed");
    sym::check(sym::eq(&t.id()[..], &expected_id(&s)), "id of the finished transaction");
    sym::check(b.inputs().is_empty() && b.outputs().is_empty() && b.witnesses().is_empty(), "nothing is left in the builder");
    sym::reach("built");
}
/// `n` calls of any kind
fn some_ops(n: u64) -> Vec<u64> {
    (0..n).map(|_| sym::choose(0, 5)).collect()
}

// ---------------------------------------------------------------- P24
fn first_ones(v: &[B]) -> Vec<B> {
    let mut r: Vec<B> = vec![];
    for x in v {
        if !r.contains(x) {
            r.push(*x);
        }
    }
    r
}
fn listed<'a, T: AsRef<[u8]> + 'a>(got: impl Iterator<Item = &'a T>, want: &[B]) -> bool {
    let got: Vec<&T> = got.collect();
    got.len() == want.len() && got.iter().zip(want).fold(true, |r, (g, w)| r & sym::eq(g.as_ref(), w))
}
fn assets(s: &STx) -> Vec<B> {
    s.ins.iter().filter(|i| i.k != CONTRACT).map(|i| if i.k >= MSG { [0; 32] } else { i.asset }).collect()
}
fn contracts(s: &STx) -> Vec<B> {
    s.ins.iter().filter(|i| i.k == CONTRACT).map(|i| i.cid).collect()
}
fn either(s: &STx, f: &dyn Fn(&STx, &dyn Fn(u64) -> Vec<Vec<u8>>, bool)) {
    macro_rules! go {
        ($t:expr) => {{
            let t = $t;
            let list = |k: u64| -> Vec<Vec<u8>> {
                match k {
                    0 => t.input_asset_ids().map(|x| x.to_vec()).collect(),
                    1 => t.input_asset_ids_unique().map(|x| x.to_vec()).collect(),
                    _ => t.input_contracts().map(|x| x.to_vec()).collect(),
                }
            };
            f(s, &list, t.check_predicate_owners())
        }};
    }
    if s.create {
        go!(s.create_tx())
    } else {
        go!(s.script_tx())
    }
}
fn is(got: Vec<Vec<u8>>, want: &[B]) -> bool {
    listed(got.iter(), want)
}
fn appends<T: Tx>(s: &STx) {
    let (a, who) = (secret(1), address(&secret(1)));
    let mut t = T::make(s);
    let mut w = s.clone();
    if sym::choose(0, 1) == 0 {
        let mut i = SIn::any(COIN, 0, 0, 0);
        i.owner = who;
        i.wi = s.wits.len() as u8;
        t.add_unsigned_coin_input(UtxoId::new(i.utxo.into(), i.oi), &PublicKey::from(&a), i.amount, i.asset.into(), TxPointer::new(i.bh, i.ti), i.maturity);
        w.ins.push(i);
        sym::reach("coin");
    } else {
        let i = unsigned_message(s, sym::arr());
        t.add_unsigned_message_input(i.owner.into(), i.recipient.into(), i.nonce, i.amount, i.data.clone());
        w.ins.push(i);
        sym::reach("message");
    }
    w.wits.push(vec![]);
    sym::check(t.read().same(&w), "an unsigned input and its empty witness are appended");
}
fn any_tx(n: u64, m: u64) -> STx {
    let mut s = STx::any(sym::choose(0, 1) == 1);
    for _ in 0..sym::choose(0, n) {
        s.ins.push(some_in(4));
    }
    for _ in 0..sym::choose(0, m) {
        s.outs.push(some_out());
    }
    s
}

entries! {
// ---------------------------------------------------------------- P16
p16_elements {
    if sym::choose(0, 1) == 0 {
        let s = some_out();
        let mut o = s.to();
        o.prepare_init_script();
        sym::check(SOut::from(&o).same(&blank(&s)), "an output for a script");
        let mut o = s.to();
        o.prepare_init_predicate();
        sym::check(SOut::from(&o).same(&s.stripped()), "an output for predicates");
        sym::reach("output");
    } else {
        let s = some_in(7);
        let mut i = s.to();
        i.prepare_init_predicate();
        sym::check(SIn::from(&i).same(&s.stripped()), "an input for predicates");
        sym::reach("input");
    }
}
p16_shapes {
    let s = shape(sym::choose(0, 1) == 1, sym::choose(0, 3));
    if s.create { prepares::<Create>(&s) } else { prepares::<Script>(&s) }
}
p16_mixed {
    let s = any_tx(sym::bound(1, 2), 2);
    if s.create { prepares::<Create>(&s) } else { prepares::<Script>(&s) }
}
p16_many {
    // more elements than a byte counts
    let mut s = STx::any(sym::choose(0, 1) == 1);
    let n = sym::choose(255, 257);
    if sym::choose(0, 1) == 0 {
        for i in 0..n { s.ins.push(in_shape(i % 6)); }
        s.outs.push(SOut::any(OVAR));
    } else {
        for i in 0..n { s.outs.push(SOut::any((i % 6) as u8)); }
        s.ins.push(in_shape(2));
    }
    s.wits.push(bytes(3));
    if s.create { prepares::<Create>(&s) } else { prepares::<Script>(&s) }
}
p16_id {
    let s = shape(sym::choose(0, 1) == 1, sym::choose(0, 3));
    if s.create { keeps_id::<Create>(&s) } else { keeps_id::<Script>(&s) }
}
// ---------------------------------------------------------------- P23
p23_script {
    let s = STx { script: bytes(sym::choose(0, 1) * 5), sdata: bytes(sym::choose(0, 1) * 3), ..Default::default() };
    let b = TransactionBuilder::script(s.script.clone(), s.sdata.clone());
    let ops = some_ops(sym::choose(0, sym::bound(1, 2)));
    builds(b, s, &ops, true, sym::choose(0, 11));
}
p23_script_order {
    let s = STx { script: bytes(2), sdata: bytes(1), ..Default::default() };
    let b = TransactionBuilder::script(s.script.clone(), s.sdata.clone());
    let ops = some_ops(sym::bound(2, 3));
    builds(b, s, &ops, true, 0);
}
p23_create {
    let code = bytes([0, 3, 4, 9][sym::choose(0, 3) as usize]);
    let mut s = STx { create: true, salt: sym::arr(), blen: code.len() as u64 / 4, ..Default::default() };
    for _ in 0..sym::choose(0, 2) { s.slots.push((sym::arr(), sym::arr())); }
    let slots = s.slots.iter().map(|(k, v)| StorageSlot::new((*k).into(), (*v).into())).collect();
    let b = TransactionBuilder::create(code.clone().into(), s.salt.into(), slots);
    s.wits.push(code);
    let ops = some_ops(sym::choose(0, sym::bound(1, 2)));
    builds(b, s, &ops, false, [0, 1, 2, 3, 4, 8][sym::choose(0, 5) as usize]);
}
p23_many {
    // the same key again, keys in turn, other parts in between
    let create = sym::choose(0, 1) == 1;
    let ops: &[u64] = [&[4, 2, 5, 4][..], &[2, 4, 0, 5], &[5, 1, 3, 0, 4], &[0, 0, 2, 4]][sym::choose(0, 3) as usize];
    if create {
        let mut s = STx { create: true, salt: sym::arr(), blen: 1, ..Default::default() };
        let code = bytes(4);
        let b = TransactionBuilder::create(code.clone().into(), s.salt.into(), vec![]);
        s.wits.push(code);
        builds(b, s, ops, false, 0);
    } else {
        let s = STx { script: bytes(1), ..Default::default() };
        builds(TransactionBuilder::script(s.script.clone(), vec![]), s, ops, true, 0);
    }
}
p23_mint {
    let mut m = SMint::any();
    let mut b = TransactionBuilder::mint(m.bh, m.ti);
    for _ in 0..sym::choose(0, sym::bound(2, 3)) {
        let o = some_out();
        b.add_output(o.to());
        m.outs.push(o);
    }
    let t = match sym::choose(0, 3) {
        0 => b.finalize(),
        1 => b.finalize_without_signature(),
        2 => b.finalize_as_transaction().as_mint().unwrap().clone(),
        _ => b.finalize_without_signature_as_transaction().as_mint().unwrap().clone(),
    };
    sym::check(SMint::from(&t).same(&m), "the mint that was described");
    sym::check(t.is_computed(), "metadata is precomputed");
    sym::reach("mint");
}
p23_checked {
    // finishing and checking at once
    let (a, b) = (secret(1), secret(2));
    let full = sym::choose(0, 1) == 1;
    let h = sym::u64();
    let p = ConsensusParameters::DEFAULT.with_gas_per_byte(0);
    let i = SIn::any(COIN, 0, 0, 0);
    sym::assume(i.maturity <= h && i.amount < u64::MAX - 5);
    if sym::choose(0, 1) == 0 {
        let mut x = TransactionBuilder::script(vec![], vec![]);
        x.add_unsigned_coin_input(a, UtxoId::new(i.utxo.into(), i.oi), i.amount, i.asset.into(), TxPointer::new(i.bh, i.ti), i.maturity);
        x.add_unsigned_message_input(b, [3; 32].into(), 4, 5, vec![6]);
        let t = x.clone().finalize();
        let c = if full { x.finalize_checked(h, &p) } else { x.finalize_checked_basic(h, &p) };
        let want = if full { t.into_checked(h, &p) } else { t.into_checked_basic(h, &p) };
        sym::check(want == Ok(c), "finishing, then checking");
        sym::reach("script");
    } else {
        let mut x = TransactionBuilder::create(vec![1, 2, 3, 4].into(), [7; 32].into(), vec![]);
        x.add_unsigned_coin_input(a, UtxoId::new(i.utxo.into(), i.oi), i.amount, i.asset.into(), TxPointer::new(i.bh, i.ti), i.maturity);
        let t = x.clone().finalize();
        let c = if full { x.finalize_checked(h, &p) } else { x.finalize_checked_basic(h, &p) };
        let want = if full { t.into_checked(h, &p) } else { t.into_checked_basic(h, &p) };
        sym::check(want == Ok(c), "finishing, then checking");
        sym::reach("create");
    }
}
// ---------------------------------------------------------------- P24
p24_assets {
    // any assets
    let mut s = any_tx(sym::bound(2, 3), 1);
    s.wits.push(bytes(1));
    either(&s, &|s, list, _| sym::check(is(list(0), &assets(s)), "assets of the inputs in order"));
    sym::reach("assets");
}
p24_unique {
    // assets and contracts out of three, in any pattern
    let mut s = STx { create: sym::choose(0, 1) == 1, ..Default::default() };
    let n = sym::choose(0, sym::bound(4, 5));
    for _ in 0..n {
        let (k, j) = ([COIN, COINP, CONTRACT, MSG, MSGP][sym::choose(0, 4) as usize], sym::choose(0, 2));
        let mut i = SIn { k, ..Default::default() };
        let id = if j == 0 { [0; 32] } else { [j as u8; 32] };
        match k {
            COIN | COINP => i.asset = id,
            CONTRACT => i.cid = id,
            _ => if j > 0 { return },
        }
        if k == COINP || k == MSGP { i.pred = vec![1]; }
        s.ins.push(i);
    }
    either(&s, &|s, list, _| {
        sym::check(is(list(0), &assets(s)), "assets of the inputs in order");
        sym::check(is(list(1), &first_ones(&assets(s))), "each asset once, in the order of first use");
        sym::check(is(list(2), &first_ones(&contracts(s))), "each contract once, in the order of first use");
    });
    sym::reach("unique");
}
p24_unique_many {
    // among many, one that may be any of the others
    let mut s = STx { create: sym::choose(0, 1) == 1, ..Default::default() };
    let n = sym::bound(24, 60) as usize;
    let at = [0, n / 2, n - 1][sym::choose(0, 2) as usize];
    let coins = sym::choose(0, 1) == 0;
    for i in 0..n {
        let mut x = SIn { k: if coins { [COIN, COINP][i % 2] } else { CONTRACT }, ..Default::default() };
        if x.k == COINP { x.pred = vec![1]; }
        // the third again and again, the others once
        let j = if i % 5 == 4 { 3 } else { i as u8 };
        x.asset[31] = if i == at { sym::u8() } else { j };
        x.cid[31] = x.asset[31];
        if x.k == CONTRACT { x.asset = [0; 32]; } else { x.cid = [0; 32]; }
        s.ins.push(x);
    }
    // spread the choice over paths, so that what is expected is known
    let v = if coins { s.ins[at].asset[31] } else { s.ins[at].cid[31] };
    sym::assume(v as usize <= n);
    let v = sym::fork(v as u64) as u8;
    if coins { s.ins[at].asset[31] = v } else { s.ins[at].cid[31] = v }
    either(&s, &|s, list, _| {
        sym::check(is(list(0), &assets(s)), "assets of the inputs in order");
        sym::check(is(list(1), &first_ones(&assets(s))), "each asset once, in the order of first use");
        sym::check(is(list(2), &first_ones(&contracts(s))), "each contract once, in the order of first use");
    });
    sym::reach("unique");
}
p24_owners_many {
    // one predicate among many, anywhere, that may be somebody else's
    let mut s = STx { create: sym::choose(0, 1) == 1, ..Default::default() };
    let n = 258;
    let at = [0, 1, 129, 255, 256, n - 1][sym::choose(0, 5) as usize];
    let root = code_root(&[1, 2, 3]);
    let mut ok = true;
    for i in 0..n {
        let mut x = SIn { k: [COINP, MSGP, COIN, CONTRACT, MSG][i % 5], ..Default::default() };
        if i == at { x.k = [COINP, MSGP][sym::choose(0, 1) as usize]; }
        if x.k == COINP || x.k == MSGP {
            x.pred = vec![1, 2, 3];
            x.owner = root;
            x.recipient = root;
        }
        if i == at {
            let o = sym::arr();
            ok = sym::eq(&o, &root);
            if x.k == COINP { x.owner = o } else { x.recipient = o }
        }
        s.ins.push(x);
    }
    either(&s, &|_, _, got| sym::check(got == ok, "predicate owners are valid exactly if all are"));
    sym::reach("owners");
}
p24_owners {
    // an own predicate, somebody's, nobody's
    let mut s = STx { create: sym::choose(0, 1) == 1, ..Default::default() };
    let mut ok = true;
    for _ in 0..sym::choose(0, sym::bound(2, 3)) {
        let k = sym::choose(0, 4) as u8;
        let mut i = SIn::any(k, 0, 4, 0);
        if k == COINP || k == MSGP {
            let mut o = if sym::choose(0, 1) == 0 { code_root(&i.pred) } else { sym::arr() };
            let root = code_root(&i.pred);
            ok = ok & sym::eq(&o, &root);
            if k == COINP { i.owner = o; } else { i.recipient = o; o[0] ^= 1; i.owner = o; }
        }
        s.ins.push(i);
    }
    either(&s, &|_, _, got| sym::check(got == ok, "predicate owners are valid exactly if all are"));
    sym::reach("owners");
}
p24_append {
    let mut s = any_tx(1, 1);
    for _ in 0..sym::choose(0, 2) { s.wits.push(bytes(2)); }
    if s.create { appends::<Create>(&s) } else { appends::<Script>(&s) }
}
p24_append_many {
    // up to the last index a witness can have
    let mut s = STx { create: sym::choose(0, 1) == 1, ..Default::default() };
    for _ in 0..sym::choose(253, 255) { s.wits.push(vec![]); }
    if s.create { appends::<Create>(&s) } else { appends::<Script>(&s) }
}
}

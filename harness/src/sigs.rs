//! P13 signatures and predicate owners, P15 signing.
use crate::ids::expected_id;
use crate::roots::code_root;
use crate::sym;
use crate::val::*;
use crate::wire::some_out;
use fuel_crypto::{Hasher, Message, PublicKey, SecretKey, Signature};
use fuel_tx::field::{Inputs as _, Witnesses as _};
use fuel_tx::*;

/// one of a few keys
pub fn secret(n: u8) -> SecretKey {
    let mut k = [0x11 + n; 32];
    k[31] = n;
    unsafe { SecretKey::from_bytes_unchecked(k) }
}
pub fn address(k: &SecretKey) -> B {
    *Hasher::hash(PublicKey::from(k).as_ref())
}
pub fn sign(k: &SecretKey, id: &B) -> Vec<u8> {
    let m = unsafe { Message::from_bytes_unchecked(*id) };
    Signature::sign(k, &m).as_ref().to_vec()
}
/// is `w` a signature over `id` by `owner`?
fn signed(w: &[u8], id: &B, owner: &B) -> bool {
    if w.len() != 64 {
        return false;
    }
    let mut b = [0; 64];
    b.copy_from_slice(w);
    let (s, m) = unsafe { (Signature::from_bytes_unchecked(b), Message::from_bytes_unchecked(*id)) };
    match s.recover(&m) {
        Ok(pk) => sym::eq(&Hasher::hash(pk.as_ref())[..], owner),
        Err(_) => false,
    }
}
fn owner_of(i: &SIn) -> &B {
    if i.k == COIN || i.k == COINP {
        &i.owner
    } else {
        &i.recipient
    }
}
fn set_owner(i: &mut SIn, o: B) {
    if i.k == COIN || i.k == COINP {
        i.owner = o
    } else {
        i.recipient = o
    }
}
fn bad(s: &STx, id: &B, e: &CheckError) -> bool {
    match e {
        CheckError::InputWitnessIndexBounds { index: i } => *i < s.ins.len() && (s.ins[*i].k == COIN || s.ins[*i].k == MSG) && s.ins[*i].wi as usize >= s.wits.len(),
        CheckError::InputInvalidSignature { index: i } => {
            *i < s.ins.len() && (s.ins[*i].k == COIN || s.ins[*i].k == MSG) && (s.ins[*i].wi as usize) < s.wits.len() && {
                let w = sym::fork(s.ins[*i].wi as u64) as usize;
                !signed(&s.wits[w], id, owner_of(&s.ins[*i]))
            }
        }
        CheckError::InputPredicateOwner { index: i } => *i < s.ins.len() && (s.ins[*i].k == COINP || s.ins[*i].k == MSGP) && !sym::eq(&code_root(&s.ins[*i].pred), owner_of(&s.ins[*i])),
        _ => false,
    }
}
fn judged(s: &STx, id: &B) {
    let r = match (s.create, sym::choose(0, 1) == 1) {
        (_, true) => s.tx().check_signatures(),
        (true, _) => s.create_tx().check_signatures(),
        (false, _) => s.script_tx().check_signatures(),
    };
    verdict(s, id, r)
}
fn verdict(s: &STx, id: &B, r: Result<(), CheckError>) {
    match r {
        Ok(()) => {
            for index in 0..s.ins.len() {
                for e in [CheckError::InputWitnessIndexBounds { index }, CheckError::InputInvalidSignature { index }, CheckError::InputPredicateOwner { index }] {
                    sym::check(!bad(s, id, &e), "every input is authorised");
                }
            }
            sym::reach("accepted");
        }
        Err(e) => {
            sym::check(bad(s, id, &e), "a refusal names an input that is not authorised");
            sym::reach(match e {
                CheckError::InputWitnessIndexBounds { .. } => "no witness",
                CheckError::InputInvalidSignature { .. } => "no valid signature",
                CheckError::InputPredicateOwner { .. } => "not the predicate's owner",
                _ => "other",
            });
        }
    }
}
fn some_tx(n: usize, create: bool) -> STx {
    let mut s = STx::any(create);
    for i in 0..n {
        let k = sym::choose(0, 4) as u8;
        let mut x = SIn { k, ..Default::default() };
        x.utxo[0] = i as u8 + 1;
        x.amount = sym::u64();
        if k == COINP || k == MSGP {
            x.pred = bytes([0, 4, 9][sym::choose(0, 2) as usize]);
        }
        s.ins.push(x);
    }
    s
}

entries! {
p13_one {
    // one input, one witness of any content and length; the owner is anybody
    let mut s = some_tx(1, sym::choose(0, 1) == 1);
    sym::fill(&mut s.ins[0].owner);
    sym::fill(&mut s.ins[0].recipient);
    if s.ins[0].k == COIN || s.ins[0].k == MSG {
        s.ins[0].wi = sym::u8();
        for _ in 0..sym::choose(0, 1) {
            s.wits.push(bytes([64, 0, 1, 63, 65, 128][sym::choose(0, 5) as usize]));
        }
    }
    let id = expected_id(&s);
    judged(&s, &id);
}
p13_signed {
    // witnesses that are signatures: of the owner, of somebody else, of something else, with a byte more or a bit flipped
    let n = sym::choose(1, sym::bound(2, 2)) as usize;
    let mut s = some_tx(n, false);
    let (a, b) = (secret(1), secret(2));
    for i in 0..n {
        if s.ins[i].k == COIN || s.ins[i].k == MSG {
            s.ins[i].wi = sym::choose(0, 1) as u8;
        }
        let o = match (s.ins[i].k, sym::choose(0, 1)) {
            (COINP, 0) | (MSGP, 0) => code_root(&s.ins[i].pred),
            (COINP, _) | (MSGP, _) => sym::arr(),
            (_, 0) => address(&a),
            _ => address(&b),
        };
        // a message is its recipient's, not its sender's
        s.ins[i].owner = address(&a);
        set_owner(&mut s.ins[i], o);
    }
    let id = expected_id(&s);
    for i in 0..2u8 {
        let w = match sym::choose(0, 4 - 3 * i as u64) {
            0 => sign(&a, &id),
            1 => sign(&b, &id),
            2 => {
                let mut w = sign(&a, &id);
                w.push(0);
                w
            }
            3 => {
                let mut w = sign(&a, &id);
                w[32] ^= 0x80;
                w
            }
            _ => {
                let mut other = id;
                other[0] ^= 1;
                sign(&a, &other)
            }
        };
        s.wits.push(w);
    }
    judged(&s, &id);
}
p13_full {
    // the full check is both checks
    let mut s = some_tx(1, false);
    let a = secret(1);
    let o = if sym::choose(0, 1) == 1 { address(&a) } else { address(&secret(2)) };
    if s.ins[0].k == CONTRACT {
        s.outs.push(SOut { k: OCONTRACT, ..Default::default() });
    }
    set_owner(&mut s.ins[0], o);
    let id = expected_id(&s);
    s.wits.push(sign(&a, &id));
    let p = ConsensusParameters::DEFAULT.with_max_gas_per_tx(u64::MAX).with_max_predicate_length(8);
    let h = sym::u64();
    let t = s.tx();
    let (basic, sigs, full) = (t.check_without_signatures(h, &p), t.check_signatures(), t.check(h, &p));
    sym::check(full.is_ok() == (basic.is_ok() && sigs.is_ok()), "the full check is both checks");
    if let Err(e) = full {
        sym::check(basic == Err(e.clone()) || sigs == Err(e), "the full check fails as one of its parts");
        sym::reach("refused");
    } else {
        sym::reach("accepted");
    }
    // a single input
    let (outs, wits) = (s.outputs(), s.witnesses());
    let i = s.ins[0].to();
    let (basic, sigs, full) = (i.check_without_signature(0, &outs, &wits, &p), i.check_signature(0, &id.into(), &wits), i.check(0, &id.into(), &outs, &wits, &p));
    sym::check(full.is_ok() == (basic.is_ok() && sigs.is_ok()), "the full check is both checks");
    verdict(&s, &id, sigs);
}
p13_far {
    // more witnesses than a byte counts: the input names the one that signs, or another
    let mut s = STx { create: sym::choose(0, 1) == 1, ..Default::default() };
    let a = secret(1);
    s.ins.push(SIn { k: [COIN, MSG][sym::choose(0, 1) as usize], ..Default::default() });
    set_owner(&mut s.ins[0], address(&a));
    s.ins[0].wi = [0, 128, 254, 255][sym::choose(0, 3) as usize];
    let id = expected_id(&s);
    s.wits.resize(sym::choose(255, 257) as usize, vec![7; 64]);
    let at = [0, 254, 255, 256][sym::choose(0, 3) as usize];
    if at < s.wits.len() {
        s.wits[at] = sign(&a, &id);
    }
    judged(&s, &id);
}
p13_many {
    // among many authorised inputs, one that may not be
    let mut s = STx { create: sym::choose(0, 1) == 1, ..Default::default() };
    let (n, a) = (258, secret(1));
    let at = [1, 255, n - 1][sym::choose(0, 2) as usize];
    let root = code_root(&[1, 2, 3]);
    for i in 0..n {
        let k = if i == at { [COIN, COINP, MSG, MSGP][sym::choose(0, 3) as usize] } else { [COIN, COINP, MSG, MSGP, CONTRACT][i % 5] };
        let mut x = SIn { k, ..Default::default() };
        x.utxo[..2].copy_from_slice(&(i as u16).to_be_bytes());
        if k == COINP || k == MSGP {
            x.pred = vec![1, 2, 3];
            set_owner(&mut x, root);
        } else {
            set_owner(&mut x, address(&a));
        }
        s.ins.push(x);
    }
    let by_key = s.ins[at].k == COIN || s.ins[at].k == MSG;
    match sym::choose(0, 2) {
        w if w < 2 && by_key => s.ins[at].wi = 1 + w as u8,
        0 | 1 => (),
        _ => {
            let o = sym::arr();
            set_owner(&mut s.ins[at], o);
        }
    }
    let id = expected_id(&s);
    s.wits = vec![sign(&a, &id), vec![0; 64]];
    judged(&s, &id);
}
p13_mint {
    let mut m = SMint::any();
    m.outs.push(SOut::any(sym::choose(0, 5) as u8));
    let t = m.to();
    sym::check(t.check_signatures().is_ok() && Transaction::Mint(t).check_signatures().is_ok(), "nothing to sign");
    sym::reach("mint");
}
// ---------------------------------------------------------------- P15
p15_sign {
    let create = sym::choose(0, 1) == 1;
    let n = sym::choose(0, 2) as usize;
    let mut s = some_tx(n, create);
    if sym::choose(0, 1) == 1 {
        s.outs.push(some_out());
    }
    let (a, b) = (secret(1), secret(2));
    let who = address(&a);
    for i in 0..n {
        if s.ins[i].k == COIN || s.ins[i].k == MSG {
            s.ins[i].wi = sym::u8();
        }
        // a message is its recipient's, not its sender's
        s.ins[i].owner = who;
        s.ins[i].recipient = address(&b);
        let o = if sym::choose(0, 1) == 1 { who } else { address(&b) };
        set_owner(&mut s.ins[i], o);
    }
    for i in 0..sym::choose(0, sym::bound(2, 3)) {
        s.wits.push(bytes(1 + i));
    }
    let id = expected_id(&s);
    let (was, got) = if create {
        let mut t = s.create_tx();
        let was = STx::from_create(&t);
        t.sign_inputs(&a);
        (was, STx::from_create(&t))
    } else {
        let mut t = s.script_tx();
        let was = STx::from_script(&t);
        t.sign_inputs(&a);
        (was, STx::from_script(&t))
    };
    sym::check(got.same_but_witnesses(&was) && got.wits.len() == s.wits.len(), "signing changes witnesses only");
    let sig = sign(&a, &id);
    for (j, w) in got.wits.iter().enumerate() {
        let named = s.ins.iter().any(|i| (i.k == COIN || i.k == MSG) && owner_of(i) == &who && i.wi as usize == j);
        if named {
            sym::check(signed(w, &id, &who), "the witness of an own input holds a valid signature");
            sym::check(sym::eq(w, &sig), "the signature is that of the key");
            sym::reach("signed");
        } else {
            sym::check(sym::eq(w, &s.wits[j]), "other witnesses stay");
            sym::reach("left alone");
        }
    }
}
p15_many {
    // more inputs and witnesses than a byte counts
    let create = sym::choose(0, 1) == 1;
    let mut s = STx { create, gas_price: 1, ..Default::default() };
    let (a, b) = (secret(1), secret(2));
    let who = address(&a);
    let (n, m) = ([255, 258][sym::choose(0, 1) as usize], sym::choose(255, 257) as usize);
    let last = [0, 254, 255][sym::choose(0, 2) as usize];
    for i in 0..n {
        let mut x = SIn { k: [COIN, MSG, COINP, MSGP, CONTRACT][i % 5], ..Default::default() };
        x.utxo[..2].copy_from_slice(&(i as u16).to_be_bytes());
        x.wi = if x.k == COIN || x.k == MSG { (i * 3) as u8 } else { 0 };
        if i == n - 1 && sym::choose(0, 1) == 1 {
            x.k = COIN;
            x.wi = last;
        }
        if x.k != CONTRACT {
            set_owner(&mut x, if i % 3 == 0 || i == n - 1 { who } else { address(&b) });
        }
        s.ins.push(x);
    }
    for i in 0..m {
        s.wits.push(vec![i as u8; i % 3]);
    }
    let id = expected_id(&s);
    let (was, got) = if create {
        let mut t = s.create_tx();
        let was = STx::from_create(&t);
        t.sign_inputs(&a);
        (was, STx::from_create(&t))
    } else {
        let mut t = s.script_tx();
        let was = STx::from_script(&t);
        t.sign_inputs(&a);
        (was, STx::from_script(&t))
    };
    sym::check(got.same_but_witnesses(&was) && got.wits.len() == m, "signing changes witnesses only");
    let sig = sign(&a, &id);
    for (j, w) in got.wits.iter().enumerate() {
        let named = s.ins.iter().any(|i| (i.k == COIN || i.k == MSG) && owner_of(i) == &who && i.wi as usize == j);
        sym::check(sym::eq(w, if named { &sig } else { &s.wits[j] }), "the witnesses of own inputs hold the signature, others stay");
    }
    sym::reach("signed");
}
p15_check {
    // what was signed with the owner's key passes
    let n = sym::choose(1, sym::bound(2, 2)) as usize;
    let mut s = some_tx(n, sym::choose(0, 1) == 1);
    let (a, b) = (secret(1), secret(2));
    for i in 0..n {
        if s.ins[i].k == COIN || s.ins[i].k == MSG {
            s.ins[i].wi = sym::choose(0, 1) as u8;
        }
        let o = match s.ins[i].k {
            COINP | MSGP => code_root(&s.ins[i].pred),
            _ => if s.ins[i].wi == 0 { address(&a) } else { address(&b) },
        };
        set_owner(&mut s.ins[i], o);
    }
    s.wits = vec![bytes(1), bytes(2)];
    let mut t = s.script_tx();
    if sym::choose(0, 1) == 1 {
        t.precompute();
    }
    t.sign_inputs(&a);
    t.sign_inputs(&b);
    sym::check(t.check_signatures().is_ok(), "signed by everyone");
    sym::check(t.witnesses().len() == 2 && t.inputs().len() == n, "nothing added");
    sym::reach("signed");
}
}

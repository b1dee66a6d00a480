//! P21 contract ids and roots.
use crate::sym;
use crate::val::*;
use fuel_crypto::Hasher;
use fuel_tx::*;
use fuel_types::{Bytes32, Salt};

fn sha(parts: &[&[u8]]) -> B {
    let mut v = vec![];
    for p in parts {
        v.extend_from_slice(p);
    }
    *Hasher::hash(&v)
}
/// binary Merkle root as in RFC 6962
fn merkle(l: &[[u8; 8]]) -> B {
    match l.len() {
        0 => sha(&[]),
        1 => sha(&[&[0], &l[0]]),
        n => {
            let mut k = 1;
            while 2 * k < n {
                k *= 2;
            }
            sha(&[&[1], &merkle(&l[..k]), &merkle(&l[k..])])
        }
    }
}
pub fn code_root(code: &[u8]) -> B {
    let mut leaves = vec![];
    for c in code.chunks(8) {
        let mut l = [0; 8];
        l[..c.len()].copy_from_slice(c);
        leaves.push(l);
    }
    merkle(&leaves)
}
fn bit(k: &B, d: usize) -> bool {
    k[d / 8] >> (7 - d % 8) & 1 == 1
}
/// hash of a part of the tree: no hash is the zero hash or one of the keys
fn part(parts: &[&[u8]]) -> B {
    let h = sha(parts);
    for i in 0..7 {
        sym::assume(!sym::eq(&h, &key(i)));
    }
    h
}
/// sparse Merkle root; keys pairwise different
fn sparse(l: &[(B, B)], d: usize) -> B {
    match l.len() {
        0 => [0; 32],
        1 => part(&[&[0], &l[0].0, &part(&[&l[0].1])]),
        _ => {
            let (r, l): (Vec<(B, B)>, Vec<(B, B)>) = l.iter().partition(|x| bit(&x.0, d));
            part(&[&[1], &sparse(&l, d + 1), &sparse(&r, d + 1)])
        }
    }
}
fn key(i: u64) -> B {
    let mut k = [0; 32];
    match i {
        0 => (),
        1 => k[0] = 0x80,
        2 => k[0] = 0x10,
        3 => k[1] = 0x01,
        4 => k[0] = 0xc0,
        5 => k = [0xff; 32],
        _ => k[0] = 0x81,
    }
    k
}
fn state(slots: &[(B, B)]) -> B {
    let v: Vec<StorageSlot> = slots.iter().map(|(k, v)| StorageSlot::new((*k).into(), (*v).into())).collect();
    *Contract::initial_state_root(v.iter())
}
fn pick(n: usize, max: u64) -> Vec<(B, B)> {
    let mut used = vec![];
    let mut v = vec![];
    for _ in 0..n {
        let mut i = sym::choose(0, max);
        while used.contains(&i) {
            i = (i + 1) % (max + 1);
        }
        used.push(i);
        v.push((key(i), sym::arr()));
    }
    v
}

entries! {
p21_code {
    let code = bytes(sym::choose(0, sym::bound(140, 520)));
    let want = code_root(&code);
    sym::check(sym::eq(&Contract::root_from_code(&code)[..], &want), "code root");
    let c = Contract::from(code.clone());
    sym::check(sym::eq(&c.root()[..], &want), "root of the contract");
    sym::check(sym::eq(&Contract::from(&code[..]).root()[..], &want), "root of the contract from a slice");
    sym::check(sym::eq(c.as_ref(), &code), "the contract holds the code");
    sym::check(sym::eq(&Vec::<u8>::from(c), &code), "the contract gives the code back");
    sym::check(sym::eq(&Input::predicate_owner(&code)[..], &want), "owner of a predicate");
    let owner = sym::arr();
    let own = sym::eq(&owner, &want);
    sym::check(Input::is_predicate_owner_valid(&owner.into(), &code) == own, "the predicate's owner only");
    sym::reach("root");
}
p21_long {
    // long code, of which one leaf may be anything
    let n = [1016, 1024, 1025][sym::choose(0, 2) as usize];
    let mut code = vec![0u8; n];
    for (i, c) in code.chunks_mut(8).enumerate() {
        c[0] = (i / 97) as u8;
    }
    let at = [0, n / 16, (n - 1) / 8][sym::choose(0, 2) as usize];
    for (i, c) in code.chunks_mut(8).enumerate() {
        if i == at { sym::fill(c); }
    }
    let want = code_root(&code);
    sym::check(sym::eq(&Contract::root_from_code(&code)[..], &want), "code root");
    sym::check(sym::eq(&Contract::from(code.clone()).root()[..], &want), "root of the contract");
    sym::check(sym::eq(&Input::predicate_owner(&code)[..], &want), "owner of a predicate");
    sym::reach("root");
}
p21_id {
    let (code, salt, root, state) = (bytes(4), sym::arr::<32>(), sym::arr::<32>(), sym::arr::<32>());
    let c = Contract::from(code);
    let want = sha(&[&[0x46, 0x55, 0x45, 0x4c], &salt, &root, &state]);
    sym::check(sym::eq(&c.id(&Salt::from(salt), &Bytes32::from(root), &Bytes32::from(state))[..], &want), "contract id");
    sym::reach("id");
}
p21_state {
    let n = sym::choose(0, sym::bound(3, 4)) as usize;
    let s = pick(n, 6);
    let want = sparse(&s, 0);
    // trees on the way to this one
    for m in 1..(1usize << n).saturating_sub(1) {
        let part: Vec<(B, B)> = (0..n).filter(|i| m >> i & 1 == 1).map(|i| s[i]).collect();
        sparse(&part, 0);
    }
    sym::check(sym::eq(&state(&s), &want), "state root");
    let mut r = s.clone();
    r.reverse();
    sym::check(sym::eq(&state(&r), &want), "state root in another order");
    if n > 2 {
        r.swap(0, 1);
        sym::check(sym::eq(&state(&r), &want), "state root in another order");
    }
    if n == 0 {
        sym::check(sym::eq(&Contract::default_state_root()[..], &want), "default state root");
    }
    sym::reach("state");
}
p21_of_transaction {
    let mut s = STx::any(true);
    for _ in 0..sym::choose(0, 2) {
        s.wits.push(bytes(sym::choose(0, 2) * 5));
    }
    let t = s.create_tx();
    let (a, b) = (Contract::try_from(&t), Contract::try_from(&Transaction::Create(t)));
    sym::check(a == b, "contract of a transaction is that of its variant");
    match a {
        Ok(c) => {
            let w = sym::fork(s.bwi as u64) as usize;
            sym::check(w < s.wits.len() && sym::eq(c.as_ref(), &s.wits[w]), "the bytecode is the named witness");
            sym::reach("bytecode");
        }
        Err(e) => {
            sym::check(s.bwi as usize >= s.wits.len() && e == CheckError::TransactionCreateBytecodeWitnessIndex, "the witness does not exist");
            sym::reach("no witness");
        }
    }
    let other = if sym::choose(0, 1) == 1 { STx::any(false).tx() } else { Transaction::Mint(SMint::any().to()) };
    sym::check(Contract::try_from(&other).is_err(), "other transactions have no contract");
}
}

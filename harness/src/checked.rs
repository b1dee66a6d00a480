//! P14 checked transactions.
use crate::ids::expected_id;
use crate::roots::code_root;
use crate::sigs::{address, secret, sign};
use crate::sym;
use crate::val::*;
use core::borrow::Borrow;
use fuel_tx::*;

const BASIC: u32 = 1;
const ALL: u32 = 3;

/// what a check may refuse beyond the rules for single elements
fn balance_error(e: &CheckError) -> bool {
    matches!(e, CheckError::ArithmeticOverflow | CheckError::InsufficientFeeAmount { .. } | CheckError::InsufficientInputAmount { .. } | CheckError::TransactionOutputCoinAssetIdNotFound(_))
}
/// `same`: is it the transaction that was given?
fn walk<T>(t: &T, h: u64, p: &ConsensusParameters, same: &dyn Fn(&T) -> bool) -> Option<(Checked<T>, Checked<T>)>
where
    T: IntoChecked + Clone + PartialEq,
    T::Metadata: Clone + PartialEq,
{
    let (rules, sigs, both) = (t.check_without_signatures(h, p), t.check_signatures(), t.check(h, p));
    sym::check(both == Ok(()) && rules.is_ok() && sigs.is_ok() || both.is_err() && (both == rules || both == sigs), "the full check is both checks");
    let (basic, full) = (t.clone().into_checked_basic(h, p), t.clone().into_checked(h, p));
    let b = match basic {
        Err(e) => {
            sym::check(if let Err(r) = &rules { *r == e } else { balance_error(&e) }, "refused by the rules or for the balances");
            sym::check(full.is_err(), "refused all the same with signatures");
            sym::reach("refused");
            return None;
        }
        Ok(c) => c,
    };
    sym::check(rules.is_ok(), "what is checked obeys the rules");
    sym::check(same(b.transaction()) && same(b.as_ref()) && same(Borrow::<T>::borrow(&b)) && b.transaction() == t, "the checked transaction is the one given");
    sym::check(b.checks().bits() == BASIC, "basic checks were made");
    // later
    let later = b.clone().check_signatures();
    match sigs {
        Err(e) => {
            sym::check(later.err() == Some(e.clone()), "signatures are checked later");
            sym::check(full.err() == Some(e), "signatures are checked");
            sym::reach("signatures refused");
            None
        }
        Ok(()) => match (later, full) {
            (Ok(c), Ok(f)) => {
                for c in [&c, &f] {
                    sym::check(same(c.transaction()), "the checked transaction is the one given");
                    sym::check(c.checks().bits() == ALL, "all checks were made");
                    sym::check(c.metadata() == b.metadata(), "checking signatures keeps the metadata");
                }
                match c.check_signatures() {
                    Ok(d) => sym::check(same(d.transaction()) && d.checks().bits() == ALL && d == f, "checking again changes nothing"),
                    Err(_) => sym::check(false, "checking again changes nothing"),
                }
                let (x, m): (T, T::Metadata) = f.clone().into();
                sym::check(same(&x) && m == *b.metadata(), "parts of the checked transaction");
                sym::reach("checked");
                Some((b, f))
            }
            _ => {
                sym::check(false, "valid signatures are accepted");
                None
            }
        },
    }
}
fn setting(create: bool) -> (STx, u64, ConsensusParameters) {
    let mut s = STx { create, ..Default::default() };
    s.gas_price = 1;
    s.gas_limit = sym::u64();
    s.maturity = sym::u64();
    s.blen = if create { 16 } else { 0 };
    let a = secret(1);
    for i in 0..sym::choose(1, 2) {
        let k = sym::choose(0, if create { 3 } else { 4 }) as u8;
        let k = if create && k >= CONTRACT { k + 1 } else { k };
        let mut x = SIn { k, ..Default::default() };
        if k != CONTRACT {
            x.amount = sym::u64();
        }
        if k < MSG {
            x.utxo[0] = i as u8;
        } else {
            x.mid[0] = i as u8;
        }
        if k == COIN || k == COINP {
            x.asset[0] = sym::choose(0, 1) as u8 * 7;
        }
        if k == COINP || k == MSGP {
            x.pred = bytes(4);
        }
        let o = match (k, sym::choose(0, 1)) {
            (COINP, 0) | (MSGP, 0) => code_root(&x.pred),
            (_, 0) => address(&a),
            _ => [5; 32],
        };
        match k {
            COIN | COINP => x.owner = o,
            MSG | MSGP => x.recipient = o,
            _ => (),
        }
        if k == CONTRACT {
            s.outs.push(SOut { k: OCONTRACT, idx: i as u8, ..Default::default() });
        }
        s.ins.push(x);
    }
    if sym::choose(0, 1) == 1 {
        s.outs.push(SOut { k: OCOIN, amount: sym::u64(), ..Default::default() });
    }
    let id = expected_id(&s);
    s.wits.push(sign(&a, &id));
    let p = ConsensusParameters::DEFAULT.with_max_gas_per_tx(u64::MAX).with_gas_per_byte(0).with_gas_price_factor(1);
    (s, sym::u64(), p)
}
/// the general forms of a checked transaction agree with the concrete one
fn general(s: &dyn Fn(&Transaction) -> bool, c: CheckedTransaction, g: Checked<Transaction>, bits: u32) {
    let back: Checked<Transaction> = c.clone().into();
    sym::check(s(back.transaction()) && back.checks().bits() == bits, "conversion keeps transaction and flags");
    sym::check(s(g.transaction()) && g.checks().bits() == bits, "the general check keeps transaction and flags");
    sym::check(back.metadata() == g.metadata() && back == g, "conversion keeps the metadata");
    let again: CheckedTransaction = g.into();
    sym::check(again == c, "converting back gives the same");
    sym::reach("converted");
}

entries! {
p14_script {
    let (s, h, p) = setting(false);
    let t = s.script_tx();
    if let Some((b, _)) = walk(&t, h, &p, &|x| STx::from_script(x).same(&s)) {
        let m = b.metadata();
        sym::check(m.block_height == h && Some(m.fee) == TransactionFee::checked_from_tx(&p, &t), "metadata of the check");
    }
}
p14_create {
    let (s, h, p) = setting(true);
    let t = s.create_tx();
    if let Some((b, _)) = walk(&t, h, &p, &|x| STx::from_create(x).same(&s)) {
        let m = b.metadata();
        sym::check(m.block_height == h && Some(m.fee) == TransactionFee::checked_from_tx(&p, &t), "metadata of the check");
    }
}
p14_mint {
    let mut m = SMint::any();
    for _ in 0..sym::choose(0, 2) {
        let k = [OCOIN, OCHANGE][sym::choose(0, 1) as usize];
        m.outs.push(SOut { amount: sym::u64(), b: sym::arr(), ..SOut { k, ..Default::default() } });
    }
    let (h, p) = (sym::u64(), ConsensusParameters::DEFAULT.with_max_outputs(1));
    let t = m.to();
    if let Some((b, f)) = walk(&t, h, &p, &|x| SMint::from(x).same(&m)) {
        let same = |t: &Transaction| matches!(t, Transaction::Mint(x) if SMint::from(x).same(&m));
        let x = Transaction::Mint(t);
        general(&same, b.into(), x.clone().into_checked_basic(h, &p).unwrap(), BASIC);
        general(&same, f.into(), x.into_checked(h, &p).unwrap(), ALL);
    }
}
p14_general {
    let (s, h, p) = setting(sym::choose(0, 1) == 1);
    let same = |t: &Transaction| STx::from(t).map(|x| x.same(&s)).unwrap_or(false);
    let t = s.tx();
    if let Some((b, _)) = walk(&t, h, &p, &same) {
        match b.metadata() {
            CheckedMetadata::Script(m) => sym::check(!s.create && m.block_height == h && m.fee == TransactionFee::checked_from_tx(&p, &s.script_tx()).unwrap(), "metadata of the check"),
            CheckedMetadata::Create(m) => sym::check(s.create && m.block_height == h && m.fee == TransactionFee::checked_from_tx(&p, &s.create_tx()).unwrap(), "metadata of the check"),
            CheckedMetadata::Mint(_) => sym::check(false, "kind of metadata"),
        }
    }
}
p14_convert {
    let (s, h, p) = setting(sym::choose(0, 1) == 1);
    let same = |t: &Transaction| STx::from(t).map(|x| x.same(&s)).unwrap_or(false);
    let all = sym::choose(0, 1) == 1;
    let bits = if all { ALL } else { BASIC };
    let t = s.tx();
    let g = match if all { t.into_checked(h, &p) } else { t.into_checked_basic(h, &p) } {
        Ok(g) => g,
        Err(_) => return,
    };
    let c: CheckedTransaction = if s.create {
        let t = s.create_tx();
        if all { t.into_checked(h, &p).unwrap().into() } else { t.into_checked_basic(h, &p).unwrap().into() }
    } else {
        let t = s.script_tx();
        if all { t.into_checked(h, &p).unwrap().into() } else { t.into_checked_basic(h, &p).unwrap().into() }
    };
    sym::check(matches!((&c, s.create), (CheckedTransaction::Script(_), false) | (CheckedTransaction::Create(_), true)), "conversion keeps the kind");
    general(&same, c, g, bits);
}
}

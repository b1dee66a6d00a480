//! P09 fees and refunds, P10 free balances.
use crate::sym;
use crate::val::*;
use crate::ids::shape;
use fuel_tx::*;

/// what the format says the fee is; None: no fee
pub fn spec_fee(gpb: u64, factor: u64, bytes: u64, limit: u64, price: u64) -> Option<(u64, u64, u64, u64)> {
    let bgas = gpb as u128 * bytes as u128;
    if bgas > u64::MAX as u128 {
        return None;
    }
    let max = bgas + limit as u128;
    if max > u64::MAX as u128 {
        return None;
    }
    let t = max as u64 as u128 * price as u128;
    if t > u64::MAX as u128 {
        return None;
    }
    Some((up(bgas as u64 * price, factor), up(t as u64, factor), bgas as u64, max as u64))
}
/// quotient rounded up: q with q*d >= n > (q-1)*d; stated with division so that the solver may match terms
fn up(n: u64, d: u64) -> u64 {
    let (n, d) = (n as u128, d as u128);
    let r = n % d;
    let q = n / d;
    sym::ite(r == 0, q as u64, (q + 1) as u64)
}
fn params(gpb: u64, factor: u64) -> ConsensusParameters {
    ConsensusParameters::DEFAULT.with_gas_per_byte(gpb).with_gas_price_factor(factor)
}
fn fee_is(gpb: u64, factor: u64, bytes: u64, limit: u64, price: u64) {
    let f = TransactionFee::checked_from_values(&params(gpb, factor), bytes, limit, price);
    match spec_fee(gpb, factor, bytes, limit, price) {
        None => {
            sym::check(f.is_none(), "no fee if gas or price do not fit");
            sym::reach("overflow");
        }
        Some((b, t, lo, hi)) => match f {
            None => sym::check(false, "there is a fee"),
            Some(f) => {
                sym::observe_u64("fee", f.total());
                sym::check(f.total() == t, "the fee is the price of the gas, rounded up");
                sym::check(TransactionFee::min(&f) == b, "its bytes part is the price of the bytes, rounded up");
                sym::check((f.min_gas() == lo) & (f.max_gas() == hi), "gas bounds");
                sym::check(TransactionFee::min(&f) <= f.total(), "the bytes part does not exceed the fee");
                let (x, y) = f.into_inner();
                sym::check((x == b) & (y == t) & (Word::from(f) == t), "parts of the fee");
                sym::reach("fee");
            }
        },
    }
}
fn refund_is(gas: u64, price: u64, factor: u64) {
    let r = TransactionFee::gas_refund_value(&params(sym::u64(), factor), gas, price);
    let p = gas as u128 * price as u128 / factor as u128;
    if p > u64::MAX as u128 {
        sym::check(r.is_none(), "no refund beyond 64 bits");
        sym::reach("overflow");
    } else {
        match r {
            None => sym::check(false, "there is a refund"),
            Some(r) => {
                sym::observe_u64("refund", r);
                sym::check(r == p as u64, "the refund is the price of the gas left, rounded down");
                sym::reach("refund");
            }
        }
    }
}
/// a transaction that is valid but for its amounts, checked against the rules for balances
fn balances(s: &STx, p: &ConsensusParameters) {
    let got = if s.create {
        let t = s.create_tx();
        t.into_checked_basic(s.maturity, p).map(|c| {
            let m = c.metadata();
            (m.initial_free_balances.clone(), m.fee, m.block_height)
        })
    } else {
        let t = s.script_tx();
        t.into_checked_basic(s.maturity, p).map(|c| {
            let m = c.metadata();
            (m.initial_free_balances.clone(), m.fee, m.block_height)
        })
    };
    const BASE: B = [0; 32];
    let mut fails: Vec<CheckError> = vec![];
    let mut sums: Vec<(B, u64, bool)> = vec![];
    let mut overflow = false;
    for i in &s.ins {
        if i.k == CONTRACT {
            continue;
        }
        let asset = if i.k == COIN || i.k == COINP { i.asset } else { BASE };
        match sums.iter_mut().find(|x| sym::eq(&x.0, &asset)) {
            None => sums.push((asset, i.amount, true)),
            Some(x) => match x.1.checked_add(i.amount) {
                None => overflow = true,
                Some(y) => x.1 = y,
            },
        }
    }
    for o in s.outs.iter().filter(|o| o.k == OCOIN) {
        if !sums.iter().any(|x| sym::eq(&x.0, &o.b)) {
            fails.push(CheckError::TransactionOutputCoinAssetIdNotFound(o.b.into()));
        }
    }
    let base = match sums.iter().position(|x| sym::eq(&x.0, &BASE)) {
        Some(i) => i,
        None => {
            sums.push((BASE, 0, true));
            sums.len() - 1
        }
    };
    let fee = TransactionFee::checked_from_values(p, s.enc().at("witnesses", 0) as u64, s.gas_limit, s.gas_price);
    if overflow || fee.is_none() {
        fails.push(CheckError::ArithmeticOverflow);
    }
    if !overflow {
        if let Some(f) = fee {
            let provided = sums[base].1;
            match provided.checked_sub(f.total()) {
                Some(x) => sums[base].1 = x,
                None => {
                    sums[base].2 = false;
                    fails.push(CheckError::InsufficientFeeAmount { expected: f.total(), provided });
                }
            }
        } else {
            sums[base].2 = false;
        }
        for o in s.outs.iter().filter(|o| o.k == OCOIN) {
            if let Some(x) = sums.iter_mut().find(|x| sym::eq(&x.0, &o.b)) {
                if x.2 {
                    match x.1.checked_sub(o.amount) {
                        Some(y) => x.1 = y,
                        None => {
                            x.2 = false;
                            fails.push(CheckError::InsufficientInputAmount { asset: o.b.into(), expected: o.amount, provided: x.1 });
                        }
                    }
                }
            }
        }
    }
    match got {
        Err(e) => {
            sym::check(!fails.is_empty(), "a balanced transaction is accepted");
            sym::check(fails.iter().any(|x| *x == e), "the refusal names a balance that is broken");
            match e {
                CheckError::ArithmeticOverflow => sym::reach("overflow"),
                CheckError::InsufficientFeeAmount { .. } => sym::reach("fee not covered"),
                CheckError::InsufficientInputAmount { .. } => sym::reach("output not covered"),
                _ => sym::reach("asset not there"),
            }
        }
        Ok((map, f, h)) => {
            sym::check(fails.is_empty(), "an unbalanced transaction is refused");
            sym::check(Some(f) == fee, "fee of the checked transaction");
            sym::check(h == s.maturity, "height of the checked transaction");
            sym::check(map.len() == sums.len(), "one balance for each asset");
            for (asset, amount, _) in &sums {
                match map.get(&(*asset).into()) {
                    Some(x) => sym::check(x == amount, "what comes in, less what goes out and the fee, is free"),
                    None => sym::check(false, "a balance for each asset"),
                }
            }
            sym::reach("accepted");
        }
    }
}
/// parameters that let everything pass, and where the fee is as easy to compute as can be
fn easy() -> ConsensusParameters {
    ConsensusParameters::DEFAULT.with_max_gas_per_tx(u64::MAX).with_gas_price_factor(1).with_gas_per_byte(0)
}
/// an input that is valid on its own, the `n`th of the transaction
fn valid_in(k: u8, n: usize) -> SIn {
    let mut i = SIn { k, ..Default::default() };
    i.utxo[0] = n as u8 + 1;
    i.mid[1] = n as u8 + 1;
    i.cid[2] = n as u8 + 1;
    if k == COINP || k == MSGP {
        i.pred = bytes(4);
    }
    if k == MSG || k == MSGP {
        i.data = bytes(1);
    }
    if k != CONTRACT {
        i.amount = sym::u64();
        i.owner[5] = sym::u8();
        i.recipient[6] = n as u8;
    }
    i
}
fn coin_out(asset: B) -> SOut {
    SOut { k: OCOIN, a: [9; 32], b: asset, amount: sym::u64(), idx: 0 }
}
fn base_tx(create: bool) -> STx {
    let mut s = STx { create, ..Default::default() };
    s.maturity = sym::u64();
    s.wits.push(vec![1, 2, 3, 4]);
    s.blen = 1;
    s
}

entries! {
// ---------------------------------------------------------------- P10
p10_assets {
    // assets wholly symbolic, the fee is the gas limit
    let mut s = base_tx(sym::choose(0, 1) == 1);
    s.gas_price = 1;
    s.gas_limit = sym::u64();
    for i in 0..sym::choose(0, 2) as usize {
        let mut x = valid_in([COIN, COINP, MSG, MSGP][sym::choose(0, 3) as usize], i);
        if x.k == COIN || x.k == COINP { x.asset = sym::arr() }
        s.ins.push(x);
    }
    for _ in 0..sym::choose(0, sym::bound(1, 2)) { s.outs.push(coin_out(sym::arr())); }
    balances(&s, &easy());
}
p10_many {
    // a few assets, many inputs and outputs
    let mut s = base_tx(false);
    s.gas_price = 1;
    s.gas_limit = sym::u64();
    let assets: [B; 3] = [[0; 32], [7; 32], { let mut a = [0; 32]; a[31] = 1; a }];
    for i in 0..3 {
        let mut x = valid_in([COIN, COINP, MSG][i], i);
        if x.k != MSG { x.asset = assets[sym::choose(0, 2) as usize] }
        s.ins.push(x);
    }
    for _ in 0..sym::choose(1, sym::bound(2, 3)) { s.outs.push(coin_out(assets[sym::choose(0, 2) as usize])); }
    balances(&s, &easy());
}
p10_crowd {
    // as many inputs and outputs as are allowed, of a few assets
    let mut s = base_tx(sym::choose(0, 1) == 1);
    s.gas_price = 1;
    s.gas_limit = 5;
    let assets: [B; 3] = [[0; 32], [7; 32], { let mut a = [0; 32]; a[31] = 1; a }];
    for i in 0..255 {
        let mut x = SIn { k: [COIN, COINP, MSG][i % 3], amount: 1 + i as u64, ..Default::default() };
        x.utxo[0] = i as u8;
        x.mid[0] = i as u8;
        if x.k == COINP { x.pred = vec![1]; }
        if x.k != MSG { x.asset = assets[i / 3 % 3]; }
        if i >= 253 { x.amount = sym::u64(); }
        s.ins.push(x);
    }
    for i in 0..sym::choose(254, 255) as usize {
        let mut o = SOut { k: OCOIN, a: [9; 32], b: assets[i / 2 % 3], amount: i as u64 % 7, idx: 0 };
        if i == 253 { o.amount = sym::u64(); }
        s.outs.push(o);
    }
    balances(&s, &easy());
}
p10_others {
    // other kinds of outputs and inputs do not touch the balances
    let mut s = base_tx(false);
    s.gas_price = 1;
    s.gas_limit = sym::u64();
    s.ins.push(valid_in(CONTRACT, 0));
    let mut x = valid_in(COIN, 1);
    x.asset = sym::arr();
    s.ins.push(x);
    let mut o = SOut::any(OCONTRACT);
    o.idx = 0;
    s.outs.push(o);
    let asset = s.ins[1].asset;
    for _ in 0..2 {
        let mut o = SOut::any([OMSG, OCHANGE, OVAR][sym::choose(0, 2) as usize]);
        if o.k == OCHANGE {
            if s.outs.iter().any(|o| o.k == OCHANGE) { continue; }
            o.b = asset;
        }
        s.outs.push(o);
    }
    s.outs.push(coin_out(asset));
    balances(&s, &easy());
}
p10_fee {
    // the fee that is deducted is the whole fee of the transaction
    let mut s = base_tx(sym::choose(0, 1) == 1);
    s.gas_price = [1, 3, 1 << 40][sym::choose(0, 2) as usize];
    s.gas_limit = sym::u64();
    let mut x = valid_in(COIN, 0);
    x.asset = [0; 32];
    s.ins.push(x);
    s.ins.push(valid_in(MSGP, 1));
    s.outs.push(coin_out([0; 32]));
    let p = easy().with_gas_per_byte([0, 4, u64::MAX][sym::choose(0, 2) as usize]).with_gas_price_factor([1, 1_000_000_000][sym::choose(0, 1) as usize]);
    balances(&s, &p);
}
// ---------------------------------------------------------------- P09
p09_all {
    // everything at once, as terms
    let factor = sym::u64();
    sym::assume(factor != 0);
    fee_is(sym::u64(), factor, sym::u64(), sym::u64(), sym::u64());
}
p09_default {
    // with the factor everybody uses, and the smallest one
    let gpb = [4, 0, u64::MAX][sym::choose(0, 2) as usize];
    let factor = [1_000_000_000, 1][sym::choose(0, 1) as usize];
    fee_is(gpb, factor, sym::u64(), sym::u64(), sym::u64());
}
p09_refund {
    let factor = sym::u64();
    sym::assume(factor != 0);
    refund_is(sym::u64(), sym::u64(), factor);
}
p09_deduct {
    let f = TransactionFee::new(sym::u64(), sym::u64(), sym::u64(), sym::u64());
    let balance = sym::u64();
    match f.checked_deduct_total(balance) {
        Some(r) => {
            sym::check((balance >= f.total()) & (r == balance.wrapping_sub(f.total())), "the whole fee is deducted");
            sym::reach("enough");
        }
        None => {
            sym::check(balance < f.total(), "the balance covers the fee");
            sym::reach("not enough");
        }
    }
}
p09_transaction {
    // price, limit and size are those of the transaction; the metered size ends where the witnesses begin
    let create = sym::choose(0, 1) == 1;
    let mut s = shape(create, sym::choose(0, 3));
    if sym::choose(0, 1) == 1 { s.wits.push(bytes(11)); }
    let size = s.enc().at("witnesses", 0);
    let (gpb, factor) = (sym::u64(), sym::u64());
    sym::assume(factor != 0);
    let p = params(gpb, factor);
    let want = TransactionFee::checked_from_values(&p, size as u64, s.gas_limit, s.gas_price);
    if create {
        let mut t = s.create_tx();
        sym::check((t.price() == s.gas_price) & (t.limit() == s.gas_limit) & (t.metered_bytes_size() == size), "what the fee depends on");
        sym::check(TransactionFee::checked_from_tx(&p, &t) == want, "fee of the transaction");
        t.precompute();
        sym::check((t.price() == s.gas_price) & (t.limit() == s.gas_limit) & (t.metered_bytes_size() == size), "what the fee depends on");
        sym::check(TransactionFee::checked_from_tx(&p, &t) == want, "fee of the transaction");
        sym::reach("create");
    } else {
        let mut t = s.script_tx();
        sym::check((t.price() == s.gas_price) & (t.limit() == s.gas_limit) & (t.metered_bytes_size() == size), "what the fee depends on");
        sym::check(TransactionFee::checked_from_tx(&p, &t) == want, "fee of the transaction");
        t.precompute();
        sym::check((t.price() == s.gas_price) & (t.limit() == s.gas_limit) & (t.metered_bytes_size() == size), "what the fee depends on");
        sym::check(TransactionFee::checked_from_tx(&p, &t) == want, "fee of the transaction");
        sym::reach("script");
    }
}
p09_small {
    // small numbers, all unknown
    let factor = sym::u8() as u64;
    sym::assume(factor != 0);
    fee_is(sym::below(16), factor, sym::below(16), sym::u8() as u64, sym::below(16));
}
}
